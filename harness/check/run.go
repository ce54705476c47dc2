// Package check runs simulated executions for one property, reports what they covered, and
// turns a violation into a minimised replay file.
package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"verifsim/rt"
	"verifsim/sim"

	"github.com/continusec/objecthash"
)

// Result is what a scenario says about one run.
type Result struct {
	Viol    []sim.Violation
	Probe   map[string]int64
	Trivial bool
	About   string
}

// Scenario is one way of exercising a property.
type Scenario struct {
	Name   string
	Weight int
	Run    func(s *rt.Sim, thorough bool) Result
}

// Prop is one property's check.
type Prop struct {
	ID        string
	Kinds     []string // violation kinds that break it
	Scenarios []Scenario
	Quick     int // simulated runs
	Thorough  int
	Chunk     int // runs per process
	Rule      string
	Real      []string
	Stub      []string
}

func (p *Prop) hit(vs []sim.Violation) *sim.Violation {
	for i := range vs {
		for _, k := range p.Kinds {
			if vs[i].Kind == k || k == "*" && vs[i].Kind != "harness" {
				return &vs[i]
			}
		}
	}
	return nil
}

// Out is the record of one run.
type Out struct {
	Idx     int
	Seed    uint64
	Scen    string
	About   string           `json:",omitempty"`
	Viol    []sim.Violation  `json:",omitempty"`
	Stats   map[string]int64 `json:",omitempty"`
	Probe   map[string]int64 `json:",omitempty"`
	Sched   uint64
	States  []uint64 `json:",omitempty"`
	Steps   int64
	SimNS   int64
	Hash    string
	Events  int
	Trivial bool
	WallUS  int64
	Choices map[string][]uint32 `json:",omitempty"`
	Log     []string            `json:",omitempty"`
}

// SeedOf gives the seed of the i-th run.
func (p *Prop) SeedOf(base int64, i int) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(p.ID) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r := rand.New(rand.NewSource(int64(h) ^ base<<20 ^ int64(i)*0x5851f42d4c957f2d))
	return r.Uint64() >> 1
}

func (p *Prop) scenario(seed uint64) *Scenario {
	tot := 0
	for _, s := range p.Scenarios {
		tot += s.Weight
	}
	x := int(seed>>7) % tot
	for i := range p.Scenarios {
		if x -= p.Scenarios[i].Weight; x < 0 {
			return &p.Scenarios[i]
		}
	}
	panic("no scenario")
}

func (p *Prop) byName(n string) *Scenario {
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == n {
			return &p.Scenarios[i]
		}
	}
	return nil
}

// exec makes one run. Call it inside the bubble.
func (p *Prop) exec(sc *Scenario, seed uint64, thorough bool, replay map[string][]uint32) (o Out) {
	t0 := rt.RealNow()
	s := rt.NewSim(seed, replay)
	objecthash.Rand = rand.New(rand.NewSource(int64(seed)))
	o.Seed, o.Scen = seed, sc.Name
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				o.Viol = append(o.Viol, sim.Violation{Kind: "harness", Msg: fmt.Sprintf("panic in the simulator: %v\n%s", r, st)})
			}
		}()
		r := sc.Run(s, thorough)
		o.Viol, o.Probe, o.Trivial, o.About = r.Viol, r.Probe, r.Trivial, r.About
	}()
	o.Steps, o.SimNS = s.Step, int64(s.Elapsed())
	o.Stats = s.Stats
	o.Sched = s.SchedHash()
	ev := s.Events()
	o.Events = len(ev)
	o.Hash = s.EventHash()
	o.Log = ev
	o.Choices = s.Choices()
	for st := range s.States {
		o.States = append(o.States, st)
	}
	sort.Slice(o.States, func(i, j int) bool { return o.States[i] < o.States[j] })
	s.Close()
	o.WallUS = (rt.RealNow() - t0) / 1000
	return o
}

// bubble runs f under the virtual clock. Tasks of dead processes stay behind, so it never ends.
func bubble(f func()) {
	done := make(chan struct{})
	never := make(chan struct{}) // made outside, so that waiting for it keeps the bubble's time still
	go synctest.Run(func() {
		f()
		close(done)
		<-never
	})
	<-done
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string              `json:"property"`
	Scenario  string              `json:"scenario"`
	Kind      string              `json:"kind"`
	Message   string              `json:"message"`
	Seed      uint64              `json:"seed"`
	Thorough  bool                `json:"thorough"`
	Prelude   []uint64            `json:"prelude,omitempty"` // seeds run before in the same process
	Minimised bool                `json:"minimised"`
	About     string              `json:"about,omitempty"`
	Choices   map[string][]uint32 `json:"choices,omitempty"`
	Hang      bool                `json:"hang,omitempty"`
	Hash      string              `json:"event_hash"`
	Steps     int64               `json:"steps"`
	Faults    map[string]int64    `json:"faults"`
	Trace     []string            `json:"trace"`
}

func faults(st map[string]int64) map[string]int64 {
	rv := map[string]int64{}
	for k, v := range st {
		if strings.HasPrefix(k, "fault.") {
			rv[strings.TrimPrefix(k, "fault.")] = v
		}
	}
	return rv
}

func toJSON(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// shrink looks for a smaller set of choices with the same kind of violation.
func (p *Prop) shrink(r *Replay, start Out, budget time.Duration) (best Out) {
	sc := p.byName(r.Scenario)
	best = start
	t0 := rt.RealNow()
	tries := 0
	try := func(c map[string][]uint32) bool {
		if rt.RealNow()-t0 > int64(budget) || tries > 1500 {
			return false
		}
		tries++
		o := p.exec(sc, r.Seed, r.Thorough, c)
		for _, v := range o.Viol {
			if v.Kind == r.Kind {
				if size(o.Choices) < size(best.Choices) || o.Steps < best.Steps {
					best = o
					return true
				}
				return false
			}
		}
		return false
	}
	with := func(l string, f func(v []uint32) []uint32) map[string][]uint32 {
		c := map[string][]uint32{}
		for k, v := range best.Choices {
			c[k] = v
		}
		c[l] = f(append([]uint32(nil), best.Choices[l]...))
		return c
	}
	for round := 0; round < 4; round++ {
		before := best.Steps
		labels := make([]string, 0)
		for l := range best.Choices {
			labels = append(labels, l)
		}
		sort.Slice(labels, func(i, j int) bool {
			oi, oj := strings.HasPrefix(labels[i], "ops."), strings.HasPrefix(labels[j], "ops.")
			if oi != oj {
				return oi
			}
			return labels[i] < labels[j]
		})
		for _, l := range labels {
			try(with(l, func(v []uint32) []uint32 { return nil }))
		}
		for _, l := range labels {
			for n := len(best.Choices[l]); n >= 1; n /= 2 {
				for at := len(best.Choices[l]); at > 0; at -= n {
					lo := at - n
					if lo < 0 {
						lo = 0
					}
					vs := best.Choices[l]
					if lo >= len(vs) {
						continue
					}
					hi := at
					if hi > len(vs) {
						hi = len(vs)
					}
					zero := true
					for _, x := range vs[lo:hi] {
						zero = zero && x == 0
					}
					if zero {
						continue
					}
					if strings.HasPrefix(l, "ops.") || !try(with(l, func(v []uint32) []uint32 { return append(v[:lo:lo], v[hi:]...) })) {
						try(with(l, func(v []uint32) []uint32 {
							for i := lo; i < hi; i++ {
								v[i] = 0
							}
							return v
						}))
					}
				}
				if rt.RealNow()-t0 > int64(budget) {
					return best
				}
			}
		}
		if best.Steps >= before {
			break
		}
	}
	return best
}

func size(c map[string][]uint32) int {
	n := 0
	for _, v := range c {
		for _, x := range v {
			n++
			if x != 0 {
				n += 2
			}
		}
	}
	return n
}
