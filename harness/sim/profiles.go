package sim

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/rt"
)

// Gen draws configurations; 0 is always the simplest choice.
type Gen struct {
	S        *rt.Sim
	Thorough bool
}

// N draws from [0,n).
func (g *Gen) N(n int) int { return g.S.Choose("cfg", n) }

// Pct is true in p of 100 cases.
func (g *Gen) Pct(p int) bool { return g.S.Chance("cfg", p*100) }

// Pick picks one; the first is the simplest.
func Pick[T any](g *Gen, vs ...T) T { return vs[g.N(len(vs))] }

var minedOnce sync.Once
var mined [][]string

// minedKeys are keys whose hashes share long prefixes: neighbours deep down in the map's tree.
func minedKeys() [][]string {
	minedOnce.Do(func() {
		type kh struct {
			h [32]byte
			k string
		}
		const n = 60000
		all := make([]kh, n)
		for i := range all {
			k := fmt.Sprintf("k%d", i)
			all[i] = kh{sha256.Sum256([]byte(k)), k}
		}
		sort.Slice(all, func(i, j int) bool { return string(all[i].h[:]) < string(all[j].h[:]) })
		common := func(a, b [32]byte) int {
			for i := 0; i < 256; i++ {
				if (a[i/8]^b[i/8])>>(7-uint(i%8))&1 != 0 {
					return i
				}
			}
			return 256
		}
		type pair struct{ at, n int }
		var ps []pair
		for i := 0; i+1 < n; i++ {
			ps = append(ps, pair{i, common(all[i].h, all[i+1].h)})
		}
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].n > ps[j].n })
		for _, p := range ps[:24] {
			lo, hi := p.at-1, p.at+3
			if lo < 0 {
				lo = 0
			}
			if hi > n {
				hi = n
			}
			var g []string
			for _, x := range all[lo:hi] {
				g = append(g, x.k)
			}
			mined = append(mined, g)
		}
	})
	return mined
}

// keys makes the key alphabet of a run.
func (g *Gen) keys() [][]byte {
	n := 1 + g.N(6)
	var rv [][]byte
	for i := 0; i < n; i++ {
		rv = append(rv, []byte(fmt.Sprintf("key%d", i)))
	}
	if g.Pct(70) {
		ms := minedKeys()
		for i := 0; i < 1+g.N(2); i++ {
			for _, k := range ms[g.N(len(ms))] {
				rv = append(rv, []byte(k))
			}
		}
	}
	return rv
}

var logOps = map[string]int{"add": 8, "head": 3, "fetch": 2, "incl": 3, "cons": 2}
var mapOps = map[string]int{"set": 6, "del": 2, "upd": 3, "cas": 2, "get": 5, "mhead": 2}

// Ops merges weights.
func Ops(ms ...map[string]int) map[string]int {
	rv := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			rv[k] += v
		}
	}
	return rv
}

// Sched draws the scheduler's own parameters.
func (g *Gen) Sched() {
	s := g.S
	s.Sticky = Pick(g, 0, 50, 80, 95)
	s.Prio = Pick(g, 0, 0, 0, 0, 70, 95)
	s.LockYield = g.Pct(50)
	rt.SetSelectMode(uint32(1 + g.N(2)))
	rt.SetMapOrder(uint64(8 + g.N(8)))
}

// Base is a plain configuration: what differs per property is changed afterwards.
func (g *Gen) Base() Cfg {
	g.Sched()
	c := Cfg{Storage: "mem", Nodes: 1, Clients: 1 + g.N(4), MaxFinal: 12}
	c.Ops = Pick(g, 5, 10, 16, 24)
	if g.Pct(8) {
		c.Clients = 1 + g.N(2)
		c.Ops = 40 + g.N(60)
		if g.Thorough {
			c.Ops *= 2
		}
	}
	if g.Thorough {
		c.MaxFinal = 24
		c.Sizes = g.Pct(20)
	}
	c.Alpha = Pick(g, 3, 1, 6, 12)
	c.Keys = g.keys()
	c.FineYield = g.Pct(40)
	c.Hostile = g.Pct(30)
	c.Think = Pick(g, 0, 0, 20)
	return c
}

// Huge has some values of a size that only a limit somewhere would notice.
func (g *Gen) Huge(c *Cfg, per1k int) {
	if g.N(1000) >= per1k || c.JSON || c.Preload > 0 {
		return
	}
	c.Huge = Pick(g, 70001, 270001, 1100001)
	if c.Ops > 16 {
		c.Ops = 16
	}
	c.FineYield = false
}

// Large has a run begin with objects that have many entries already, around the sizes at which
// something changes: the client's batches of 500, powers of two.
func (g *Gen) Large(c *Cfg, per1k int) {
	if g.N(1000) >= per1k || c.Batch || c.Policy != nil {
		return
	}
	c.Preload = Pick(g, 498, 250, 510, 62, 126, 995, 1020)
	c.Preload += g.N(8)
	c.Objs = c.Objs[:1]
	if c.Objs[0].Map && c.Preload > 300 {
		c.Preload = Pick(g, 60, 125, 250) + g.N(8)
	}
	if c.Storage == "bolt" && c.Preload > 130 {
		c.Preload = 60 + g.N(70)
	}
	c.FineYield = false
	c.Clients = 1 + g.N(3)
	if c.Ops > 16 {
		c.Ops = 16
	}
}

// LookAlikes adds n objects whose accounts and names look alike; rest keeps to what fits in a URL.
func (g *Gen) LookAlikes(c *Cfg, n int, rest bool) {
	accs := []string{"1", "2", "11", "01", "10", "0"}
	names := []string{"a", "1a", "a-b", "a_b", "ab", "aa", "1", "0"}
	if !rest {
		accs = append(accs, "1 ", "x", "X", "1/a", "", "1\x00", "１")
		names = append(names, "A", "a ", " a", "a\x00", "a/", "/a", "a/b", "", "A-B", "á", "a.b", "a%2db", "a\n")
	}
	acc, name := accs[g.N(len(accs))], names[g.N(len(names))]
	have := map[Obj]bool{}
	k := 0
	for len(c.Objs) < n {
		o := Obj{acc, name, g.Pct(40)}
		switch g.N(6) {
		case 0:
			o.Acc = accs[g.N(len(accs))]
		case 1, 2:
			o.Name = names[g.N(len(names))]
		case 3:
			if !rest {
				o.Name = swapCase(name)
			} else {
				o.Acc, o.Name = "1"+acc, name
			}
		case 4:
			if !rest {
				o.Acc, o.Name = swapCase(acc), name
			} else {
				o.Name = name + name
			}
		}
		for have[o] || rest && o.Name == "" {
			o = Obj{accs[k/2%len(accs)], names[k/2/len(accs)%len(names)], k%2 == 1}
			k++
		}
		have[o] = true
		c.Objs = append(c.Objs, o)
	}
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

// Logs gives n logs, Maps n maps.
func (c *Cfg) AddLogs(n int) {
	for i := 0; i < n; i++ {
		c.Objs = append(c.Objs, Obj{"1", fmt.Sprintf("l%d", i), false})
	}
}

// AddMaps adds n maps.
func (c *Cfg) AddMaps(n int) {
	for i := 0; i < n; i++ {
		c.Objs = append(c.Objs, Obj{"1", fmt.Sprintf("m%d", i), true})
	}
}

// Batched turns the batching mutator on.
func (g *Gen) Batched(c *Cfg) {
	c.Batch = true
	c.Nodes = 1
	c.BatchSize = Pick(g, 2, 1, 3, 4, 7, 20, 1000)
	c.BufferSize = Pick(g, 0, 1, 2, 5, 100)
	c.BatchTimeout = Pick(g, 100*time.Millisecond, time.Millisecond, 700*time.Millisecond, 3*time.Second, 40*time.Second)
	if c.Think == 0 {
		c.Think = 30
	}
}

// Crashes turns crashes on, with the storage engine the repository ships for durability.
func (g *Gen) Crashes(c *Cfg) {
	c.Storage = "bolt"
	c.Nodes = 1
	c.Crash = Pick(g, 30, 100, 300)
	c.CrashPower = !g.Pct(20)
	c.CrashMix, c.CrashSync = g.Pct(50), g.Pct(50)
	c.CrashKeep = Pick(g, 3, 0, 1, 2)
	c.FinalCrash = g.Pct(50)
}

// StorageFaults makes storage accesses fail.
func (g *Gen) StorageFaults(c *Cfg) {
	c.StErr = Pick(g, 100, 400, 1200)
	c.StErrIn = Pick(g, 0, 10, 50, 200)
	if g.Pct(30) {
		c.Storage = "mem"
		// A storage that does not undo a failed update but starts it over: updates are written to be idempotent.
		c.StDirty = g.Pct(50)
	} else {
		c.Storage = "kv"
	}
	if g.Pct(20) {
		c.Cancel = Pick(g, 50, 200)
	}
}

// DiskFaults makes the simulated disk under the bolt engine fail.
func (g *Gen) DiskFaults(c *Cfg) {
	c.Storage = "bolt"
	c.DiskWriteErr = Pick(g, 0, 50, 200)
	c.DiskSyncErr = Pick(g, 100, 0, 300)
	if g.Pct(20) {
		c.DiskOpenErr = 300
	}
	if g.Pct(20) {
		c.DiskFull = int64(32<<10 + g.N(16)*(16<<10))
	}
}

// NetFaults makes messages get lost, late and repeated.
func (g *Gen) NetFaults(c *Cfg) {
	r := Pick(g, 100, 300, 800)
	c.NetDrop, c.NetLost, c.NetDup = r, r, r
	c.NetDelay = Pick(g, 0, 500, 2000)
	c.NetEarly = Pick(g, 0, 200, 1000)
	c.Retry = g.Pct(60)
	if g.Pct(25) {
		c.Cancel = Pick(g, 50, 200)
	}
}

// RESTClients makes some clients use REST; unless all do, it is gRPC in some runs.
func (g *Gen) RESTClients(c *Cfg, all bool) {
	grpc := !all && g.Pct(15)
	for i := 0; i < c.Clients; i++ {
		t := "direct"
		if all || g.Pct(50) {
			t = "rest"
			if grpc {
				if t = "grpc"; g.Pct(20) {
					t = "grpcs"
				}
			}
		}
		c.Trans = append(c.Trans, t)
	}
}

// On has runs of a profile use badger or PostgreSQL, with faults to match.
func On(storage string, f func(g *Gen) Cfg) func(g *Gen) Cfg {
	return func(g *Gen) Cfg {
		c := f(g)
		c.Storage, c.FineYield, c.Lag = storage, false, false
		if c.Batch || storage == "badger" {
			c.Nodes = 1
		}
		c.DiskWriteErr, c.DiskSyncErr, c.DiskOpenErr, c.DiskFull, c.DiskReadErr = 0, 0, 0, 0, 0
		if c.Ops > 12 {
			c.Ops = 12
		}
		c.Preload = 0
		switch storage {
		case "badger":
			c.SmallTables = !c.Batch && g.Pct(30)
		case "pg":
			c.CrashPower, c.CrashMix, c.CrashSync, c.FinalCrash = false, false, false, false
			if g.Pct(30) {
				c.PgErr, c.PgDrop = Pick(g, 0, 30, 100), Pick(g, 30, 0, 100)
			}
		}
		return c
	}
}

// Storages picks one of the in-process back ends.
func (g *Gen) Storages(c *Cfg) {
	c.Storage = Pick(g, "mem", "kv", "kv", "bolt")
	if c.Storage == "kv" {
		c.Nodes = Pick(g, 1, 1, 2, 3)
	}
}

// Profiles has the configuration generators of the properties decided in the common world.
var Profiles = map[string]func(g *Gen) Cfg{
	"P01": func(g *Gen) Cfg {
		c := g.Base()
		c.Weights = Ops(logOps, map[string]int{"head": 3, "cons": 2})
		switch g.N(4) {
		case 0, 1:
			c.AddLogs(1)
		case 2:
			c.AddLogs(1 + g.N(2))
			c.AddMaps(1)
			c.Weights = Ops(c.Weights, map[string]int{"set": 5, "del": 1, "upd": 1})
		default:
			c.AddMaps(1)
			c.Weights = Ops(c.Weights, map[string]int{"set": 6, "del": 2, "upd": 2, "mhead": 1})
		}
		switch g.N(5) {
		case 0, 1:
			g.Storages(&c)
		case 2:
			g.Batched(&c)
		case 3:
			g.Crashes(&c)
		default:
			g.Storages(&c)
			g.NetFaults(&c)
		}
		g.Large(&c, 20)
		return c
	},
	"P02": func(g *Gen) Cfg {
		c := g.Base()
		c.AddLogs(1 + g.N(2))
		c.Weights = map[string]int{"add": 16, "head": 1, "fetch": 2, "incl": 1, "wait": 1}
		switch g.N(5) {
		case 0:
			g.Storages(&c)
		case 1:
			g.Batched(&c)
			if g.Pct(50) {
				g.NetFaults(&c)
			}
		case 2:
			g.Crashes(&c)
			c.Retry = true
		case 3:
			g.StorageFaults(&c)
			c.Retry = true
		default:
			g.Storages(&c)
			g.NetFaults(&c)
			g.RESTClients(&c, false)
		}
		g.Huge(&c, 25)
		return c
	},
	"P03": func(g *Gen) Cfg {
		c := g.Base()
		if c.Ops > 24 {
			c.Ops = 24
		}
		switch g.N(3) {
		case 0:
			c.AddLogs(1 + g.N(2))
			c.Weights = Ops(logOps)
		case 1:
			c.AddMaps(1)
			c.Weights = Ops(mapOps, map[string]int{"head": 1, "cons": 1})
		default:
			c.AddLogs(1)
			c.AddMaps(1)
			c.Weights = Ops(logOps, mapOps)
		}
		g.Crashes(&c)
		c.FinalCrash = true
		c.Retry = g.Pct(40)
		if g.Pct(30) {
			c.NetDelay = 1000
		}
		return c
	},
	"P24": func(g *Gen) Cfg {
		c := g.Base()
		c.Storage = "pg"
		c.Ops = Pick(g, 4, 7, 10, 14)
		c.FineYield = false // the connection has scheduling points enough
		switch g.N(4) {
		case 0:
			c.AddLogs(1)
			c.Weights = Ops(logOps)
		case 1:
			c.AddMaps(1)
			c.Weights = Ops(mapOps, map[string]int{"head": 1, "cons": 1})
		case 2:
			c.AddLogs(2)
			c.Weights = Ops(logOps)
		default:
			c.AddLogs(1)
			c.AddMaps(1)
			c.Weights = Ops(logOps, mapOps)
		}
		if g.Pct(15) {
			g.Batched(&c)
		}
		c.Nodes = Pick(g, 2, 1, 3)
		if g.Pct(30) {
			c.Crash = Pick(g, 20, 60, 150)
			c.Retry = g.Pct(50)
		}
		if g.Pct(30) {
			c.PgErr = Pick(g, 100, 30, 400)
			c.Retry = g.Pct(50)
		}
		if g.Pct(20) {
			c.StErr, c.StErrIn = Pick(g, 100, 400), Pick(g, 50, 200)
			c.Retry = g.Pct(50)
		}
		if g.Pct(30) {
			c.PgDrop = Pick(g, 30, 100)
			c.Retry = g.Pct(50)
		}
		if g.Pct(25) {
			c.Cancel = Pick(g, 50, 200)
			c.Retry = g.Pct(50)
		}
		if g.Pct(25) {
			g.NetFaults(&c)
		}
		return c
	},
	"P04": func(g *Gen) Cfg {
		c := g.Base()
		c.Storage = Pick(g, "mem", "kv", "bolt")
		g.Batched(&c)
		if c.Storage == "kv" {
			c.Nodes = Pick(g, 1, 1, 2)
		}
		c.Clients = 1 + g.N(6)
		switch g.N(4) {
		case 0:
			c.AddLogs(1)
		case 1:
			c.AddLogs(2 + g.N(2))
		case 2:
			c.AddLogs(1)
			c.AddMaps(1 + g.N(2))
		default:
			c.AddMaps(2)
		}
		c.Weights = map[string]int{"add": 10, "set": 5, "del": 1, "upd": 3, "head": 1, "get": 1, "think": 2}
		if g.Pct(25) {
			g.NetFaults(&c)
		}
		return c
	},
	"P05": func(g *Gen) Cfg {
		c := g.Base()
		c.Storage = Pick(g, "mem", "kv")
		g.Batched(&c)
		c.Watch = true
		c.Think = 70
		c.Clients = 1 + g.N(4)
		c.BatchTimeout = Pick(g, 3*time.Second, 700*time.Millisecond, 5*time.Second)
		c.BatchSize = Pick(g, 1000, 5, 20, 3)
		switch g.N(3) {
		case 0:
			c.AddLogs(1)
		case 1:
			c.AddMaps(1)
		default:
			c.AddLogs(2)
		}
		c.Weights = map[string]int{"add": 12, "set": 8, "upd": 1, "think": 3, "head": 1}
		return c
	},
	"P06": func(g *Gen) Cfg {
		c := g.Base()
		switch g.N(3) {
		case 0:
			c.AddLogs(1)
			c.Weights = map[string]int{"add": 8, "head": 2, "incl": 8, "cons": 8, "vincl": 1}
		case 1:
			c.AddLogs(1 + g.N(2))
			c.AddMaps(1)
			c.Weights = map[string]int{"add": 5, "set": 5, "upd": 2, "del": 1, "head": 2, "incl": 8, "cons": 8}
		default:
			c.AddMaps(1)
			c.Weights = map[string]int{"set": 8, "upd": 2, "del": 1, "head": 2, "incl": 8, "cons": 8}
		}
		c.MaxFinal = 20
		switch g.N(4) {
		case 0, 1:
			g.Storages(&c)
		case 2:
			g.Batched(&c)
		default:
			g.Crashes(&c)
		}
		g.Large(&c, 40)
		return c
	},
	"P09": func(g *Gen) Cfg {
		c := g.Base()
		c.AddMaps(1 + g.N(2))
		c.Weights = Ops(mapOps)
		c.VaryMap = g.Pct(5)
		switch g.N(5) {
		case 0, 1:
			g.Storages(&c)
		case 2:
			g.Batched(&c)
		case 3:
			g.Crashes(&c)
		default:
			g.Storages(&c)
			g.NetFaults(&c)
		}
		g.Large(&c, 20)
		g.Huge(&c, 25)
		return c
	},
	"P10": func(g *Gen) Cfg {
		c := g.Base()
		c.AddMaps(1)
		c.Clients = 2 + g.N(3)
		c.Alpha = Pick(g, 3, 1, 2, 5)
		if len(c.Keys) > 4 && g.Pct(60) {
			c.Keys = c.Keys[len(c.Keys)-3:]
		}
		c.Weights = map[string]int{"set": 3, "del": 3, "upd": 8, "cas": 8, "get": 3}
		g.RESTClients(&c, false)
		switch g.N(5) {
		case 0, 1:
			g.Storages(&c)
		case 2:
			g.Batched(&c)
		case 3:
			g.Crashes(&c)
			c.Retry = true
		default:
			g.Storages(&c)
			g.NetFaults(&c)
			c.Retry = true
		}
		return c
	},
	"P11": func(g *Gen) Cfg {
		c := g.Base()
		c.AddMaps(1 + g.N(2))
		c.Weights = Ops(mapOps, map[string]int{"mhead": 5, "head": 5, "fetch": 3})
		switch g.N(5) {
		case 0:
			g.Storages(&c)
		case 1:
			g.Batched(&c)
		case 2:
			g.Crashes(&c)
		case 3:
			g.StorageFaults(&c)
		default:
			g.DiskFaults(&c)
		}
		g.Large(&c, 20)
		return c
	},
	"P12": func(g *Gen) Cfg {
		c := g.Base()
		if c.Ops > 30 {
			c.Ops = 30
		}
		switch g.N(3) {
		case 0:
			c.AddLogs(1)
			c.Weights = Ops(logOps)
		case 1:
			c.AddMaps(1)
			c.Weights = Ops(mapOps, map[string]int{"head": 2, "incl": 2, "cons": 1, "fetch": 1})
		default:
			c.AddLogs(1)
			c.AddMaps(1)
			c.Weights = Ops(logOps, mapOps)
		}
		c.Retry = g.Pct(50)
		switch g.N(5) {
		case 0, 1, 2:
			g.StorageFaults(&c)
		case 3:
			g.DiskFaults(&c)
		default:
			g.Batched(&c)
			g.StorageFaults(&c)
		}
		if g.Pct(25) {
			c.Weights = Ops(c.Weights, map[string]int{"follow": 2, "mfollow": 2, "wait": 2, "vincl": 1, "vget": 2, "audit": 1, "maudit": 1})
		}
		return c
	},
	"P13": func(g *Gen) Cfg {
		c := g.Base()
		rest := g.Pct(40)
		g.LookAlikes(&c, 2+g.N(5), rest)
		c.Alpha = 2
		c.Weights = Ops(logOps, mapOps)
		switch g.N(4) {
		case 0, 1:
			g.Storages(&c)
		case 2:
			g.Batched(&c)
		default:
			g.Crashes(&c)
		}
		if rest {
			g.RESTClients(&c, false)
		}
		return c
	},
	"P14": func(g *Gen) Cfg {
		c := g.Base()
		c.Clients = 2 + g.N(4)
		switch g.N(3) {
		case 0:
			c.AddLogs(1)
			c.Weights = Ops(logOps, map[string]int{"head": 4})
		case 1:
			c.AddMaps(1)
			c.Weights = Ops(mapOps, map[string]int{"mhead": 4, "head": 3})
		default:
			c.AddLogs(1)
			c.AddMaps(1)
			c.Weights = Ops(logOps, mapOps)
		}
		switch g.N(5) {
		case 0, 1, 2:
			g.Storages(&c)
			if g.Pct(40) {
				g.NetFaults(&c)
			}
		case 3:
			g.Crashes(&c)
		default:
			g.Batched(&c)
		}
		g.Huge(&c, 25)
		return c
	},
	"P18": func(g *Gen) Cfg {
		c := g.Base()
		c.AddLogs(1)
		c.AddMaps(1)
		if g.Pct(40) {
			c.Objs = append(c.Objs, Obj{"123", "x-y_z", true}, Obj{"0", "-", false})
		}
		c.Weights = Ops(logOps, mapOps)
		c.Hostile = g.Pct(70)
		for _, k := range []string{"/", "a/b", "%", "%2f", "..", ".", "a b", "\x00\x01", "é", "+", "?q=1", "#x", "//", "a/", "h/61", string([]byte{0xff, 0xfe})} {
			if g.Pct(25) {
				c.Keys = append(c.Keys, []byte(k))
			}
		}
		g.Storages(&c)
		c.JSON = false
		g.RESTClients(&c, true)
		if g.Pct(40) {
			c.Weights["rawrest"] = 6
		}
		switch g.N(3) {
		case 0:
		case 1:
			g.NetFaults(&c)
			c.NetGarble = Pick(g, 300, 1500)
		default:
			c.NetGarble = Pick(g, 300, 1500)
		}
		if g.Pct(30) {
			c.Weights = Ops(c.Weights, map[string]int{"follow": 2, "mfollow": 2, "wait": 2, "vincl": 1, "vget": 2})
		}
		if g.Pct(20) {
			g.StorageFaults(&c)
		}
		g.Large(&c, 20)
		g.Huge(&c, 60)
		return c
	},
	"P19": func(g *Gen) Cfg {
		c := g.Base()
		if c.Ops > 40 {
			c.Ops = 40
		}
		c.AddLogs(1)
		c.AddMaps(1)
		if g.Pct(40) {
			c.Objs = append(c.Objs, Obj{"some account", "x/y z%", true}, Obj{"", "", false}, Obj{"\u00e9", "\x00\n", false})
		}
		c.Weights = Ops(logOps, mapOps)
		c.Hostile = g.Pct(70)
		for _, k := range []string{"", "/", "\x00\x01", string([]byte{0xff, 0xfe})} {
			if g.Pct(25) {
				c.Keys = append(c.Keys, []byte(k))
			}
		}
		g.Storages(&c)
		for i := 0; i < c.Clients; i++ {
			t := "grpc"
			if g.Pct(15) {
				t = "grpcs"
			}
			if g.Pct(15) {
				t = "direct"
			}
			c.Trans = append(c.Trans, t)
		}
		switch g.N(3) {
		case 0:
		case 1:
			g.NetFaults(&c)
			c.NetGarble = Pick(g, 0, 300)
		default:
			g.NetFaults(&c)
			c.NetGarble = Pick(g, 300, 1500)
			if g.Pct(50) {
				g.Crashes(&c)
			}
		}
		if g.Pct(30) {
			c.Weights = Ops(c.Weights, map[string]int{"follow": 2, "mfollow": 2, "wait": 2, "vincl": 1, "vget": 2, "audit": 1, "maudit": 1})
		} else if g.Pct(20) {
			g.Policy(&c, 50, 10)
		}
		if c.Weights["follow"] == 0 && g.Pct(15) {
			c.Trans[g.N(len(c.Trans))] = "grpcx"
		}
		if g.Pct(30) {
			c.Weights["bad"] = 6
		}
		if c.Crash == 0 && g.Pct(20) {
			g.StorageFaults(&c)
		}
		g.Huge(&c, 60)
		return c
	},
	"P20": func(g *Gen) Cfg {
		c := g.Base()
		if c.Ops > 40 {
			c.Ops = 40
		}
		switch g.N(3) {
		case 0:
			c.AddLogs(1)
			c.Weights = map[string]int{"add": 10, "audit": 5}
		case 1:
			c.AddMaps(1)
			c.Weights = map[string]int{"set": 7, "del": 3, "upd": 3, "cas": 1, "maudit": 3, "mfollow": 1}
		default:
			c.AddLogs(1)
			c.AddMaps(1)
			c.Weights = map[string]int{"add": 7, "set": 7, "del": 2, "upd": 3, "cas": 1, "maudit": 2, "mfollow": 1, "audit": 4}
		}
		if g.Pct(50) {
			c.VaryExtra = false
		}
		switch g.N(3) {
		case 0, 1:
			g.Storages(&c)
		default:
			g.Batched(&c)
		}
		if g.Pct(40) {
			g.RESTClients(&c, false)
		}
		g.Large(&c, 80)
		return c
	},
	"P21": func(g *Gen) Cfg {
		c := g.Base()
		c.Storage = "kv"
		c.Nodes = 1 + g.N(3)
		c.Lag = c.Nodes > 1
		if c.Nodes == 1 && g.Pct(50) {
			g.Crashes(&c)
		}
		switch g.N(3) {
		case 0:
			c.AddLogs(1)
		case 1:
			c.AddMaps(1)
		default:
			c.AddLogs(1)
			c.AddMaps(1)
		}
		c.Weights = map[string]int{"add": 6, "set": 5, "upd": 2, "del": 1, "follow": 6, "mfollow": 4, "vincl": 3, "vget": 3}
		if g.Pct(30) {
			g.NetFaults(&c)
		}
		if g.Pct(30) {
			g.RESTClients(&c, false)
		}
		g.Large(&c, 40)
		return c
	},
	"P22": func(g *Gen) Cfg {
		c := g.Base()
		c.Clients = 2 + g.N(4)
		if c.Ops > 24 {
			c.Ops = 24
		}
		switch g.N(3) {
		case 0:
			c.AddLogs(1 + g.N(2))
			c.Weights = map[string]int{"add": 6, "wait": 6, "head": 2, "fetch": 1}
		case 1:
			c.AddMaps(1 + g.N(2))
			c.Weights = map[string]int{"set": 4, "wait": 6, "get": 2, "mhead": 1}
		default:
			c.AddLogs(1)
			c.AddMaps(1)
			c.Weights = map[string]int{"add": 4, "set": 4, "wait": 6, "head": 2, "get": 2, "follow": 1, "mfollow": 1}
		}
		switch g.N(6) {
		case 0:
			g.Storages(&c)
		case 1, 2:
			g.Batched(&c)
		case 3:
			g.Crashes(&c)
		case 4:
			g.StorageFaults(&c)
		default:
			g.Storages(&c)
			g.NetFaults(&c)
		}
		if g.Pct(30) {
			g.NetFaults(&c)
		}
		c.Skew = g.Pct(30)
		return c
	},
}
