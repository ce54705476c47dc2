package check

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/rt"
	"verifsim/sim"
)

// World makes the scenario that runs the common world with a property's configurations.
func World(name string, weight int, f func(g *sim.Gen) sim.Cfg) Scenario {
	return Scenario{Name: name, Weight: weight, Run: func(s *rt.Sim, thorough bool) Result {
		w := &sim.World{S: s, C: f(&sim.Gen{S: s, Thorough: thorough})}
		w.Run()
		wr := 0
		for _, e := range w.Execs {
			if !e.Final && e.Err == nil && (e.Method == sim.MAdd || e.Method == sim.MSet) {
				wr++
			}
		}
		w.Probe["requests"] = int64(len(w.Execs))
		w.Probe["calls"] = int64(len(w.Calls))
		return Result{Viol: w.Viol, Probe: w.Probe, Trivial: len(w.Execs) < 3 || wr == 0, About: About(&w.C)}
	}}
}

// About describes a configuration.
func About(c *sim.Cfg) string {
	var p []string
	add := func(f string, a ...any) { p = append(p, fmt.Sprintf(f, a...)) }
	add("%s storage, %d server(s), %d client(s) x %d ops", c.Storage, c.Nodes, c.Clients, c.Ops)
	if c.Batch {
		add("batch(size %d, buffer %d, timeout %v)", c.BatchSize, c.BufferSize, c.BatchTimeout)
	}
	if len(c.Trans) > 0 {
		add("transports %v", c.Trans)
	}
	var os []string
	for _, o := range c.Objs {
		os = append(os, o.String())
	}
	add("objects %s", strings.Join(os, " "))
	if c.Crash > 0 {
		add("crashes %d/10000 power=%v mix=%v sync=%v keep=%d", c.Crash, c.CrashPower, c.CrashMix, c.CrashSync, c.CrashKeep)
	}
	if c.StErr > 0 {
		add("storage errors %d/%d per 10000", c.StErr, c.StErrIn)
	}
	if c.PgErr+c.PgDrop > 0 {
		add("database errors %d, broken connections %d per 10000", c.PgErr, c.PgDrop)
	}
	if c.Preload > 0 {
		add("%d entries to begin with", c.Preload)
	}
	if c.DiskReadErr > 0 {
		add("disk read errors %d", c.DiskReadErr)
	}
	if c.DiskWriteErr+c.DiskSyncErr+c.DiskOpenErr > 0 || c.DiskFull > 0 {
		add("disk errors write %d sync %d open %d full at %d", c.DiskWriteErr, c.DiskSyncErr, c.DiskOpenErr, c.DiskFull)
	}
	if c.NetDrop+c.NetDelay+c.NetGarble > 0 {
		add("network drop %d lose %d dup %d delay %d early %d garble %d", c.NetDrop, c.NetLost, c.NetDup, c.NetDelay, c.NetEarly, c.NetGarble)
	}
	if c.Cancel > 0 {
		add("cancelled requests %d per 10000", c.Cancel)
	}
	if c.Lag {
		add("lagging replicas")
	}
	if c.FineYield {
		add("fine interleaving")
	}
	var ops []string
	for k, v := range c.Weights {
		ops = append(ops, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(ops)
	add("ops %s", strings.Join(ops, " "))
	return strings.Join(p, "; ")
}

// Byz makes the scenario of real clients that talk to a lying server.
func Byz(name string, weight int, maps bool) Scenario {
	return Scenario{Name: name, Weight: weight, Run: func(s *rt.Sim, thorough bool) Result {
		w := &sim.Byz{S: s, C: sim.ByzProfile(&sim.Gen{S: s, Thorough: thorough}, maps)}
		w.Run()
		n := int64(0)
		for k, v := range w.Probe {
			if strings.Contains(k, ".accepted") {
				n += v
			}
		}
		return Result{Viol: w.Viol, Probe: w.Probe, Trivial: n == 0, About: w.C.String()}
	}}
}

// Txns makes the scenario of transactions on one storage back end.
func Txns(name string, weight int, storage string) Scenario {
	return Scenario{Name: name, Weight: weight, Run: func(s *rt.Sim, thorough bool) Result {
		c, t := sim.TxnProfile(&sim.Gen{S: s, Thorough: thorough}, storage)
		w := sim.RunTxns(s, c, t)
		return Result{Viol: w.Viol, Probe: w.Probe, Trivial: w.Probe["updates"] == 0, About: About(&c) + "; " + t.String()}
	}}
}
