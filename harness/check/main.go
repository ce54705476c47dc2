package check

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/sim"
)

// Main is the program of a set of checks.
func Main(props ...*Prop) {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	root := flag.String("root", "/verif", "where evidence and replays go")
	worker := flag.String("worker", "", "internal: indexes from-to to run")
	single := flag.String("single", "", "internal: seeds to run, details of the last")
	shrinkF := flag.String("shrink", "", "internal: replay file to minimise")
	replayF := flag.String("replay", "", "replay file to reproduce")
	runs := flag.Int("runs", 0, "number of runs instead of the tier's")
	seed := flag.Int64("seed", -1, "base seed")
	par := flag.Int("par", 0, "parallel processes")
	show := flag.Bool("show", false, "with -single: print the event log")
	scen := flag.String("scenario", "", "only this scenario")
	list := flag.Bool("list", false, "list properties")
	all := flag.Bool("all", false, "do not stop at the first violation; report every kind (development)")
	flag.Parse()
	if *list {
		for _, p := range props {
			fmt.Println(p.ID)
		}
		return
	}
	if *tier == "" {
		if *tier = os.Getenv("VERIF_TIER"); *tier == "" {
			*tier = "quick"
		}
	}
	if *seed < 0 {
		*seed = 1
		if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			*seed = v
		}
	}
	var rp *Replay
	if f := *replayF + *shrinkF; f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			rp = &Replay{}
			err = json.Unmarshal(b, rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*prop = rp.Property
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *prop {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *scen != "" {
		sc := p.byName(*scen)
		if sc == nil {
			fmt.Fprintln(os.Stderr, "unknown scenario", *scen)
			os.Exit(3)
		}
		p.Scenarios = []Scenario{*sc}
	}
	th := *tier == "thorough"
	switch {
	case *worker != "":
		out := bufio.NewWriter(os.Stdout)
		var from, to int
		fmt.Sscanf(*worker, "%d-%d", &from, &to)
		bubble(func() {
			for i := from; i < to; i++ {
				s := p.SeedOf(*seed, i)
				o := p.exec(p.scenario(s), s, th, nil)
				o.Idx = i
				o.Choices = nil
				if len(o.Log) > 60 {
					o.Log = o.Log[:60]
				}
				if i%50 != 0 {
					o.Log = nil
				}
				out.Write(toJSON(o))
				out.Flush()
			}
		})
	case *single != "":
		if f := os.Getenv("VERIF_PROFILE"); f != "" {
			out, _ := os.Create(f)
			pprof.StartCPUProfile(out)
			defer pprof.StopCPUProfile()
		}
		var last Out
		bubble(func() {
			for _, x := range strings.Split(*single, ",") {
				s, _ := strconv.ParseUint(x, 10, 64)
				last = p.exec(p.scenario(s), s, th, nil)
			}
		})
		if *show {
			for _, l := range last.Log {
				fmt.Println(l)
			}
			for _, v := range last.Viol {
				fmt.Println(v.Kind, v.Msg)
			}
			fmt.Println(last.About, last.Hash, last.WallUS)
			return
		}
		os.Stdout.Write(toJSON(last))
	case *shrinkF != "":
		var best Out
		bubble(func() {
			var o Out
			if rp.Choices == nil {
				o = p.exec(p.byName(rp.Scenario), rp.Seed, rp.Thorough, nil)
			}
			best = p.shrink(rp, o, 25*time.Second)
		})
		os.Stdout.Write(toJSON(best))
	case *replayF != "":
		os.Exit(p.replay(rp, *replayF, *show))
	default:
		n := p.Quick
		if th {
			n = p.Thorough
		}
		if *runs > 0 {
			n = *runs
		}
		c := &coord{p: p, tier: *tier, seed: *seed, root: *root, n: n, par: *par, all: *all, scen: *scen}
		os.Exit(c.main())
	}
}

// replay reproduces the violation of a replay file in this process.
func (p *Prop) replay(rp *Replay, file string, show bool) int {
	if rp.Hang {
		o, err := (&coord{p: p, tier: tierName(rp.Thorough)}).sub(150*time.Second, "-single", fmt.Sprint(rp.Seed))
		if err != nil {
			fmt.Printf("reproduced: the run ends in: %v\nVIOLATION property=%s replay=%s\n", err, p.ID, file)
			return 1
		}
		fmt.Println("not reproduced; the run ended with", o.Viol)
		return 0
	}
	var o Out
	bubble(func() {
		for _, s := range rp.Prelude {
			p.exec(p.scenario(s), s, rp.Thorough, nil)
		}
		sc := p.byName(rp.Scenario)
		if sc == nil {
			fmt.Fprintln(os.Stderr, "unknown scenario")
			os.Exit(3)
		}
		o = p.exec(sc, rp.Seed, rp.Thorough, rp.Choices)
	})
	if show {
		for _, l := range o.Log {
			fmt.Println(l)
		}
	}
	for _, v := range o.Viol {
		if v.Kind == rp.Kind {
			same := "exactly (event log identical)"
			if o.Hash != rp.Hash {
				same = "in kind, but the event log differs: " + o.Hash + " instead of " + rp.Hash
			}
			fmt.Printf("reproduced %s\n%s: %s\nVIOLATION property=%s replay=%s\n", same, v.Kind, v.Msg, p.ID, file)
			return 1
		}
	}
	fmt.Println("not reproduced; violations seen:", o.Viol)
	return 0
}

func tierName(th bool) string {
	if th {
		return "thorough"
	}
	return "quick"
}

// coord runs a whole check.
type coord struct {
	p    *Prop
	tier string
	seed int64
	root string
	n    int
	par  int
	all  bool
	scen string

	mu      sync.Mutex
	outs    int
	scheds  map[uint64]struct{}
	hashes  map[string]struct{}
	states  map[uint64]struct{}
	nontriv int
	stats   map[string]int64
	probes  map[string]int64
	scens   map[string]int64
	steps   int64
	simNS   int64
	samples []Out
	hashOf  map[int]string
	found   *Out
	foundV  *sim.Violation
	foundAt int // first index of its chunk
	hang    *Out
	other   map[string]int64
	trouble []string
	stop    bool
	again   int // the run in which a process ended, tried again
	retries int
	known   []*known
}

func self(env []string, args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOMEMLIMIT=2500MiB")
	c.Env = append(c.Env, env...)
	return c
}

func (c *coord) args(extra ...string) []string {
	a := []string{"-property", c.p.ID, "-tier", c.tier, "-seed", fmt.Sprint(c.seed)}
	if c.scen != "" {
		a = append(a, "-scenario", c.scen)
	}
	return append(a, extra...)
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(append([]byte(nil), t.b[:1<<14]...), t.b[len(t.b)-1<<14:]...)
	}
	return len(p), nil
}

// sub runs this program once more and decodes the one record it prints.
func (c *coord) sub(limit time.Duration, args ...string) (*Out, error) {
	cmd := self(nil, c.args(args...)...)
	t := &tail{}
	cmd.Stderr = t
	pipe, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	tm := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	defer tm.Stop()
	b, _ := io.ReadAll(pipe)
	if err := cmd.Wait(); err != nil {
		return nil, fmt.Errorf("%v %s", err, first(string(t.b), 3000))
	}
	var o Out
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return &o, nil
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (c *coord) chunk(from, to int) {
	cmd := self(nil, c.args("-worker", fmt.Sprintf("%d-%d", from, to))...)
	t := &tail{}
	cmd.Stderr = t
	pipe, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		c.mu.Lock()
		c.trouble = append(c.trouble, err.Error())
		c.mu.Unlock()
		return
	}
	limit := 90 * time.Second
	dog := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	defer dog.Stop()
	next := from
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		dog.Reset(limit)
		var o Out
		if err := json.Unmarshal(sc.Bytes(), &o); err != nil {
			continue
		}
		next = o.Idx + 1
		c.add(&o, from)
		c.mu.Lock()
		st := c.stop
		c.mu.Unlock()
		if st {
			cmd.Process.Kill()
			cmd.Wait()
			return
		}
	}
	err := cmd.Wait()
	if next < to {
		// The process died or hung in the middle of a run.
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.stop {
			return
		}
		if next != c.again && c.retries < 3 {
			// Was it the run, or something that happened to the process? The run by itself tells.
			c.again = next
			c.retries++
			c.mu.Unlock()
			c.chunk(next, to)
			c.mu.Lock()
			return
		}
		if c.hang == nil {
			c.hang = &Out{Idx: next, Seed: c.p.SeedOf(c.seed, next), About: fmt.Sprintf("%v: %s", err, first(string(t.b), 4000))}
			c.foundAt = from
			c.stop = true
		}
	}
}

func (c *coord) add(o *Out, from int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.outs++
	c.scheds[o.Sched] = struct{}{}
	if _, ok := c.hashes[o.Hash]; !ok && !o.Trivial {
		c.nontriv++
	}
	c.hashes[o.Hash] = struct{}{}
	c.hashOf[o.Idx] = o.Hash
	for _, s := range o.States {
		c.states[s] = struct{}{}
	}
	for k, v := range o.Stats {
		c.stats[k] += v
	}
	for k, v := range o.Probe {
		c.probes[k] += v
	}
	c.scens[o.Scen]++
	c.steps += o.Steps
	c.simNS += o.SimNS
	if o.Log != nil && len(c.samples) < 3 && !o.Trivial {
		s := *o
		c.samples = append(c.samples, s)
	}
	for _, v := range o.Viol {
		c.other[v.Kind]++
		if v.Kind == "harness" {
			c.trouble = append(c.trouble, fmt.Sprintf("seed %d: %s", o.Seed, first(v.Msg, 3000)))
		}
		if c.all && c.other[v.Kind] <= 2 {
			fmt.Printf("seed %d idx %d [%s] %s: %s\n", o.Seed, o.Idx, o.About, v.Kind, first(v.Msg, 1500))
		}
	}
	if c.all {
		return
	}
	if v := c.p.hit(c.unknown(o.Viol)); v != nil && (c.found == nil || o.Idx < c.found.Idx) {
		c.found, c.foundV, c.foundAt = o, v, from
		c.stop = true
	}
}

func (c *coord) main() int {
	t0 := time.Now()
	c.scheds, c.hashes, c.states = map[uint64]struct{}{}, map[string]struct{}{}, map[uint64]struct{}{}
	c.stats, c.probes, c.scens, c.hashOf = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[int]string{}
	c.other = map[string]int64{}
	c.again = -1
	var err error
	if c.known, err = loadKnown(c.root, c.p.ID); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	par := c.par
	if par == 0 {
		if par = runtime.NumCPU(); par > 8 {
			par = 8
		}
	}
	size := c.p.Chunk
	if size == 0 {
		size = 100
	}
	if c.n/size < par*2 {
		size = (c.n + par*2 - 1) / (par * 2)
	}
	budget := 400 * time.Second
	if c.tier == "thorough" {
		budget = 700 * time.Second
	}
	jobs := make(chan [2]int)
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				c.chunk(j[0], j[1])
			}
		}()
	}
	for at := 0; at < c.n; at += size {
		c.mu.Lock()
		st := c.stop
		c.mu.Unlock()
		if st || time.Since(t0) > budget {
			break
		}
		end := at + size
		if end > c.n {
			end = c.n
		}
		jobs <- [2]int{at, end}
	}
	close(jobs)
	wg.Wait()
	runWall := time.Since(t0)
	code := 0
	var rep string
	switch {
	case c.found != nil:
		rep, code = c.report()
	case c.hang != nil:
		rep, code = c.reportHang()
	}
	if len(c.trouble) > 0 && code == 0 {
		code = 3
		for _, t := range c.trouble[:min(3, len(c.trouble))] {
			fmt.Fprintln(os.Stderr, "check is in trouble:", t)
		}
	}
	same, tried := 0, 0
	if code == 0 {
		same, tried = c.selfTest()
	}
	c.evidence(t0, runWall, code, rep, same, tried)
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial, %d schedules, %d states, %.0f simulated s, %.1f s\n", c.p.ID, c.tier, c.outs, c.nontriv, len(c.scheds), len(c.states), float64(c.simNS)/1e9, time.Since(t0).Seconds())
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.p.ID, k.what)
	}
	if c.all {
		fmt.Println("kinds:", c.other)
		fmt.Println("probes:", c.probes)
		fmt.Println("stats:", c.stats)
		fmt.Println("determinism:", same, "of", tried)
	}
	return code
}

// selfTest repeats some runs alone, in new processes, and compares their event logs.
func (c *coord) selfTest() (same, tried int) {
	var idx []int
	for i := range c.hashOf {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	if len(idx) == 0 {
		return
	}
	k := 8
	res := make(chan bool, k)
	for i := 0; i < k; i++ {
		at := idx[(i*len(idx)/k+len(idx)/(2*k))%len(idx)]
		go func() {
			o, err := c.sub(60*time.Second, "-single", fmt.Sprint(c.p.SeedOf(c.seed, at)))
			if err != nil || o.Hash != c.hashOf[at] {
				if c.all {
					fmt.Println("NOT DETERMINISTIC: index", at, "seed", c.p.SeedOf(c.seed, at), err)
				}
				res <- false
				return
			}
			res <- true
		}()
	}
	for i := 0; i < k; i++ {
		tried++
		if <-res {
			same++
		}
	}
	return
}

func (c *coord) write(r *Replay) string {
	dir := filepath.Join(c.root, "replays")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.p.ID, r.Kind, r.Seed))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return f
}

func clip(l []string) []string {
	if len(l) > 600 {
		return append(append([]string{}, l[:100]...), l[len(l)-500:]...)
	}
	return l
}

// report confirms, minimises and writes down what was found.
func (c *coord) report() (string, int) {
	o, v := c.found, c.foundV
	r := &Replay{Property: c.p.ID, Scenario: o.Scen, Kind: v.Kind, Message: v.Msg, Seed: o.Seed, Thorough: c.tier == "thorough", About: o.About}
	has := func(x *Out) *sim.Violation {
		if x == nil {
			return nil
		}
		for i := range x.Viol {
			if x.Viol[i].Kind == v.Kind {
				return &x.Viol[i]
			}
		}
		return nil
	}
	fill := func(x *Out) {
		r.Choices, r.Hash, r.Steps, r.Faults, r.Trace = x.Choices, x.Hash, x.Steps, faults(x.Stats), clip(x.Log)
		r.About = x.About
		if h := has(x); h != nil {
			r.Message = h.Msg
		}
	}
	one, err := c.sub(100*time.Second, "-single", fmt.Sprint(o.Seed))
	if err == nil && has(one) != nil {
		fill(one)
		file := c.write(r)
		// minimise
		if m, err := c.sub(60*time.Second, "-shrink", file); err == nil && has(m) != nil {
			keep := *r
			fill(m)
			r.Minimised = true
			c.write(r)
			// does the smaller one reproduce by itself, exactly?
			cmd := self(nil, "-replay", file)
			b, _ := cmd.CombinedOutput()
			if !strings.Contains(string(b), "reproduced exactly") {
				*r = keep
				c.write(r)
			}
		}
		c.announce(r, file)
		return file, 1
	}
	// Not by itself: the runs before it in the same process matter.
	var seeds []string
	for i := c.foundAt; i <= o.Idx; i++ {
		s := c.p.SeedOf(c.seed, i)
		seeds = append(seeds, fmt.Sprint(s))
		if i < o.Idx {
			r.Prelude = append(r.Prelude, s)
		}
	}
	one, err = c.sub(200*time.Second, "-single", strings.Join(seeds, ","))
	if err == nil && has(one) != nil {
		fill(one)
		r.Choices = nil
		file := c.write(r)
		c.announce(r, file)
		return file, 1
	}
	fmt.Fprintf(os.Stderr, "a violation could not be reproduced: seed %d %s: %s (%v)\n", o.Seed, v.Kind, v.Msg, err)
	return "", 3
}

func (c *coord) announce(r *Replay, file string) {
	fmt.Printf("%s in scenario %s, seed %d: %s\n", r.Kind, r.Scenario, r.Seed, first(r.Message, 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.ID, file)
}

// reportHang deals with a run in which the process died or never came back.
func (c *coord) reportHang() (string, int) {
	o := c.hang
	_, err := c.sub(100*time.Second, "-single", fmt.Sprint(o.Seed))
	if err == nil {
		fmt.Fprintf(os.Stderr, "a process ended in the middle of run %d (seed %d), but the run alone does not: %s\n", o.Idx, o.Seed, o.About)
		return "", 3
	}
	kind := "crash"
	if strings.Contains(err.Error(), "signal: killed") {
		kind = "hang"
	}
	for _, k := range c.p.Kinds {
		if k == kind || k == "*" {
			r := &Replay{Property: c.p.ID, Scenario: c.p.scenario(o.Seed).Name, Kind: kind, Message: err.Error(), Seed: o.Seed, Thorough: c.tier == "thorough", Hang: true}
			file := c.write(r)
			c.announce(r, file)
			return file, 1
		}
	}
	fmt.Fprintf(os.Stderr, "run %d (seed %d) ends in %s: %v\n", o.Idx, o.Seed, kind, err)
	return "", 3
}

func (c *coord) evidence(t0 time.Time, runWall time.Duration, code int, rep string, same, tried int) {
	var samples []any
	for _, s := range c.samples {
		samples = append(samples, map[string]any{"seed": s.Seed, "scenario": s.Scen, "configuration": s.About, "steps": s.Steps, "simulated_s": float64(s.SimNS) / 1e9, "event_hash": s.Hash, "faults": faults(s.Stats), "first_events": s.Log})
	}
	if samples == nil {
		samples = []any{}
	}
	h := runWall.Hours()
	cov := map[string]any{
		"evaluations":          c.outs,
		"distinct_nontrivial":  c.nontriv,
		"rule":                 c.p.Rule + " A run is non-trivial if the code under test executed at least three requests of which one changed state (or what the scenario counts as its equivalent); runs are distinct if their event logs differ.",
		"samples":              samples,
		"runs_per_hour":        float64(c.outs) / h,
		"seeds_per_hour":       float64(c.outs) / h,
		"simulated_seconds":    float64(c.simNS) / 1e9,
		"scheduler_steps":      c.steps,
		"distinct_schedules":   len(c.scheds),
		"distinct_states":      len(c.states),
		"distinct_measure":     "schedules: hash of the sequence of (task, scheduling point) released; states: distinct map roots and log roots reached",
		"faults_injected":      faults(c.stats),
		"scenarios":            c.scens,
		"operations":           c.probes,
		"other_counts":         nofaults(c.stats),
		"violations_by_kind":   c.other,
		"components_real":      c.p.Real,
		"components_stub":      c.p.Stub,
		"processes_restarted":  c.retries,
		"determinism_selftest": fmt.Sprintf("%d of %d runs repeated alone in a new process had an identical event log", same, tried),
		"exit_code":            code,
	}
	if rep != "" {
		cov["replay"] = rep
	}
	ev := map[string]any{"property": c.p.ID, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func nofaults(st map[string]int64) map[string]int64 {
	rv := map[string]int64{}
	for k, v := range st {
		if !strings.HasPrefix(k, "fault.") {
			rv[k] = v
		}
	}
	return rv
}
