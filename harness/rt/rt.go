// Package rt is the simulator's core: tasks, the seeded scheduler's choice streams,
// parking, the clock, the event log and the statistics of one run. Instrumented
// copies of the code under test reach it through the rt/r* packages.
package rt

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash"
	"hash/fnv"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	_ "unsafe" // linkname
)

// Proc is a simulated process (a server node). Its tasks stop for ever when it dies.
type Proc struct {
	Name string
	Dead bool
	// Skew is added to every reading of the clock in this process.
	Skew time.Duration
	// OnFatal is called when code of this process exits (log.Fatal) or panics.
	OnFatal func(kind, msg string)
}

// Task is one goroutine the scheduler knows.
type Task struct {
	Name    string
	Proc    *Proc
	sim     *Sim
	wake    chan struct{}
	pred    func() bool
	point   string
	kids    int
	seq     int
	parked  bool
	done    bool
	Faults  []string // injected faults since the counter was last reset
	Data    any
	Ambient any
	prio    uint64
}

// Sim is one run.
type Sim struct {
	mu      sync.Mutex
	Seed    uint64
	Step    int64
	Start   time.Time
	tasks   []*Task
	parked  []*Task
	last    *Task
	streams map[string]*stream
	replay  map[string][]uint32
	events  []event
	clock   atomic.Int64
	closed  bool

	// LockYield makes uncontended lock operations scheduling points.
	LockYield bool
	// Stats counts fault kinds and probes.
	Stats map[string]int64
	// Fatal collects process exits and panics.
	Fatals []string
	// KeepLog keeps the event log (for replay output).
	schedHash hash.Hash64
	Sticky    int // 0..100: probability of staying with the same task
	Prio      int // 0..100: probability of releasing the runnable task of the highest priority
	MaxSteps  int64
	States    map[uint64]struct{}
	notify    chan struct{}
	atEnd     []func()
	lib       rng
}

type event struct {
	step int64
	task string
	seq  int
	text string
}

type stream struct {
	rng  rng
	vals []uint32
	pos  int
	rep  []uint32
	isR  bool
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var (
	cur     atomic.Pointer[Sim]
	taskMu  sync.Mutex
	taskOf  = map[uint64]*Task{}
	lastNow atomic.Int64
)

// Current returns the active run, or nil.
func Current() *Sim { return cur.Load() }

// NewSim makes a run the active one. replay, if not nil, supplies the choices.
func NewSim(seed uint64, replay map[string][]uint32) *Sim {
	s := &Sim{
		Seed: seed, Start: time.Now(), streams: map[string]*stream{}, replay: replay,
		Stats: map[string]int64{}, schedHash: fnv.New64a(), MaxSteps: 200000, States: map[uint64]struct{}{},
		notify: make(chan struct{}, 1), lib: rng{hashLabel(seed, "lib")},
	}
	cur.Store(s)
	return s
}

// OnClose has f called when the run is over.
func (s *Sim) OnClose(f func()) {
	s.mu.Lock()
	s.atEnd = append(s.atEnd, f)
	s.mu.Unlock()
}

// Rand is randomness that decides nothing but the inner shape of library data structures; it is
// not a recorded choice.
func (s *Sim) Rand() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.lib.next()
}

// Close ends the run: no task of it will ever run again.
func (s *Sim) Close() {
	s.mu.Lock()
	s.closed = true
	fs := s.atEnd
	s.mu.Unlock()
	for _, f := range fs {
		f()
	}
	cur.Store(nil)
	taskMu.Lock()
	for g, t := range taskOf {
		if t != nil && t.sim == s && t.done {
			delete(taskOf, g)
		}
	}
	taskMu.Unlock()
}

func slowGoid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for _, c := range buf[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func parentGoid() uint64 {
	buf := make([]byte, 1<<14)
	for {
		n := runtime.Stack(buf, false)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	st := string(buf)
	i := strings.LastIndex(st, " in goroutine ")
	if i < 0 {
		return 0
	}
	st = st[i+len(" in goroutine "):]
	j := 0
	for j < len(st) && st[j] >= '0' && st[j] <= '9' {
		j++
	}
	v, _ := strconv.ParseUint(st[:j], 10, 64)
	return v
}

// Self returns the calling goroutine's task; a goroutine started by a known task is
// adopted as its child. nil outside a run.
func Self() *Task {
	g := goid()
	taskMu.Lock()
	t, ok := taskOf[g]
	taskMu.Unlock()
	if ok {
		return t
	}
	s := cur.Load()
	if s == nil {
		return nil
	}
	p := parentGoid()
	taskMu.Lock()
	defer taskMu.Unlock()
	par, ok := taskOf[p]
	if !ok {
		return nil
	}
	if par == nil { // started by a goroutine that is no task
		taskOf[g] = nil
		return nil
	}
	par.kids++
	t = &Task{Name: fmt.Sprintf("%s/%d", par.Name, par.kids), Proc: par.Proc, sim: par.sim, wake: make(chan struct{}), Ambient: par.Ambient}
	taskOf[g] = t
	par.sim.mu.Lock()
	par.sim.tasks = append(par.sim.tasks, t)
	par.sim.mu.Unlock()
	return t
}

// Adopt registers the calling goroutine under a name; the result undoes it.
func (s *Sim) Adopt(name string, p *Proc) (*Task, func()) {
	g := goid()
	t := &Task{Name: name, Proc: p, sim: s, wake: make(chan struct{})}
	taskMu.Lock()
	old := taskOf[g]
	taskOf[g] = t
	taskMu.Unlock()
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	return t, func() {
		t.done = true
		taskMu.Lock()
		if old != nil {
			taskOf[g] = old
		} else {
			delete(taskOf, g)
		}
		taskMu.Unlock()
	}
}

// Free runs f in a goroutine that is no task, and neither are the goroutines it starts:
// cleaning up that no run is to take notice of.
func Free(f func()) {
	go func() {
		taskMu.Lock()
		taskOf[goid()] = nil
		taskMu.Unlock()
		f()
	}()
}

// Go starts a task. It first runs when the scheduler picks it.
func (s *Sim) Go(name string, p *Proc, f func(t *Task)) *Task {
	t := &Task{Name: name, Proc: p, sim: s, wake: make(chan struct{})}
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	started := make(chan struct{})
	go func() {
		g := goid()
		taskMu.Lock()
		taskOf[g] = t
		taskMu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, false)]
				s.Panic(t, fmt.Sprint(r), string(buf))
			}
			t.done = true // it stays in taskOf: goroutines it started may still be adopted
		}()
		close(started)
		t.park("start", nil)
		f(t)
	}()
	<-started
	return t
}

// Panic reports a panic that reached the top of a task.
func (s *Sim) Panic(t *Task, msg, stack string) {
	s.Logf("PANIC %s", msg)
	if t.Proc != nil {
		if t.Proc.OnFatal != nil {
			t.Proc.OnFatal("panic", msg+"\n"+stack)
		}
	} else {
		s.mu.Lock()
		s.Fatals = append(s.Fatals, "panic in "+t.Name+": "+msg+"\n"+stack)
		s.mu.Unlock()
	}
}

func (t *Task) dead() bool { return t.Proc != nil && t.Proc.Dead }

// Dead says whether the task's process has died.
func (t *Task) Dead() bool { return t.dead() }

// Sim returns the run of the task.
func (t *Task) Sim() *Sim { return t.sim }

func (t *Task) park(point string, pred func() bool) {
	s := t.sim
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		select {}
	}
	t.point, t.pred, t.parked = point, pred, true
	s.parked = append(s.parked, t)
	s.mu.Unlock()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	<-t.wake
}

// Yield is a scheduling point. It is a no-op outside a run.
func Yield(point string) {
	if t := Self(); t != nil {
		t.park(point, nil)
	}
}

// Block parks until pred holds (it is evaluated only while nothing else runs).
func Block(point string, pred func() bool) {
	if t := Self(); t != nil {
		t.park(point, pred)
		return
	}
	for i := 0; !pred(); i++ {
		if i > 10000 && cur.Load() != nil {
			Halt() // a cleaner-up of a dead process
		}
		runtime.Gosched()
	}
}

// Sleep lets simulated time pass for the calling task; afterwards it waits to be scheduled, so
// that tasks woken at the same instant go on in an order the scheduler decides.
func Sleep(d time.Duration) {
	time.Sleep(d)
	Yield("slept")
}

// Halt stops the calling task for ever.
func Halt() { select {} }

// Logf appends to the event log. It never draws a choice.
func (s *Sim) Logf(f string, a ...any) {
	name := "-"
	seq := 0
	t := Self()
	s.mu.Lock()
	if t != nil {
		name = t.Name
		t.seq++
		seq = t.seq
	}
	s.events = append(s.events, event{s.Step, name, seq, fmt.Sprintf(f, a...)})
	s.mu.Unlock()
}

// Events returns the event log in its deterministic order.
func (s *Sim) Events() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	sort.SliceStable(s.events, func(i, j int) bool {
		a, b := s.events[i], s.events[j]
		if a.step != b.step {
			return a.step < b.step
		}
		if a.task != b.task {
			return a.task < b.task
		}
		return a.seq < b.seq
	})
	rv := make([]string, len(s.events))
	for i, e := range s.events {
		rv[i] = fmt.Sprintf("%05d %-12s %s", e.step, e.task, e.text)
	}
	return rv
}

// EventHash is a digest of the event log.
func (s *Sim) EventHash() string {
	h := sha256.New()
	for _, l := range s.Events() {
		h.Write([]byte(l))
		h.Write([]byte{10})
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

// SchedHash is a digest of the schedule (who ran, at which point).
func (s *Sim) SchedHash() uint64 { return s.schedHash.Sum64() }

// Count bumps a statistic.
func (s *Sim) Count(k string) {
	s.mu.Lock()
	s.Stats[k]++
	s.mu.Unlock()
}

func hashLabel(seed uint64, label string) uint64 {
	h := fnv.New64a()
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	h.Write([]byte(label))
	return h.Sum64()
}

func (s *Sim) stream(label string) *stream {
	st, ok := s.streams[label]
	if !ok {
		st = &stream{rng: rng{hashLabel(s.Seed, label)}}
		if s.replay != nil {
			st.isR = true
			st.rep = s.replay[label]
		}
		s.streams[label] = st
	}
	return st
}

// Choose draws a number in [0,n) from the labelled stream. 0 is the simplest choice.
func (s *Sim) Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.choose(label, n)
}

func (s *Sim) choose(label string, n int) int {
	st := s.stream(label)
	var v uint32
	if st.isR {
		if st.pos < len(st.rep) {
			v = st.rep[st.pos] % uint32(n)
		}
	} else {
		v = uint32(st.rng.next()>>11) % uint32(n)
	}
	st.pos++
	st.vals = append(st.vals, v)
	return int(v)
}

// Chance is true with probability pct per 10000.
func (s *Sim) Chance(label string, per10k int) bool {
	if per10k <= 0 {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	st := s.stream(label)
	var v uint32
	if st.isR {
		if st.pos < len(st.rep) {
			v = st.rep[st.pos]
		}
	} else if int(st.rng.next()>>11%10000) < per10k {
		v = 1
	}
	st.pos++
	if v != 0 {
		v = 1
	}
	st.vals = append(st.vals, v)
	return v == 1
}

// Draw takes one raw 32-bit value (non-zero unless replayed as exhausted).
func (s *Sim) Draw(label string) uint32 {
	s.mu.Lock()
	defer s.mu.Unlock()
	st := s.stream(label)
	var v uint32
	if st.isR {
		if st.pos < len(st.rep) {
			v = st.rep[st.pos]
		}
	} else {
		v = uint32(st.rng.next()>>11) | 1
	}
	st.pos++
	st.vals = append(st.vals, v)
	return v
}

// Choices returns all choices made, for a replay file.
func (s *Sim) Choices() map[string][]uint32 {
	s.mu.Lock()
	defer s.mu.Unlock()
	rv := map[string][]uint32{}
	for k, st := range s.streams {
		v := append([]uint32(nil), st.vals...)
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		if len(v) > 0 {
			rv[k] = v
		}
	}
	return rv
}

// Now is the simulated wall clock seen by a process: unique per reading, with skew.
func (s *Sim) Now() time.Time {
	t := Self()
	d := time.Since(s.Start)
	n := s.clock.Add(1)
	if t != nil && t.Proc != nil {
		d += t.Proc.Skew
	}
	return time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC).Add(d).Add(time.Duration(n))
}

// Elapsed is the simulated time since the run began.
func (s *Sim) Elapsed() time.Duration { return time.Since(s.Start) }

// Runnable lists the tasks that could run now, by name. Only the root may call it.
func (s *Sim) Runnable() []*Task {
	synctest.Wait()
	s.mu.Lock()
	ps := append([]*Task(nil), s.parked...)
	s.mu.Unlock()
	rv := ps[:0]
	for _, t := range ps {
		if t.dead() {
			continue
		}
		if t.pred == nil || t.pred() {
			rv = append(rv, t)
		}
	}
	sort.Slice(rv, func(i, j int) bool { return rv[i].Name < rv[j].Name })
	return rv
}

// ParkedAt says whether a task of a living process is at the scheduling point.
func (s *Sim) ParkedAt(point string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.parked {
		if t.point == point && !t.dead() {
			return true
		}
	}
	return false
}

// Release lets one parked task run until it parks, blocks or ends.
func (s *Sim) Release(t *Task) {
	s.mu.Lock()
	for i, x := range s.parked {
		if x == t {
			s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
			break
		}
	}
	t.parked = false
	s.Step++
	fmt.Fprintf(s.schedHash, "%s@%s;", t.Name, t.point)
	s.last = t
	s.mu.Unlock()
	t.wake <- struct{}{}
	synctest.Wait()
}

// Pick chooses among runnable tasks: 0 in the stream means "stay with the last one".
func (s *Sim) Pick(rs []*Task) *Task {
	if len(rs) == 0 {
		return nil
	}
	li := -1
	for i, t := range rs {
		if t == s.last {
			li = i
		}
	}
	if li > 0 { // put the last one first
		l := rs[li]
		copy(rs[1:li+1], rs[:li])
		rs[0] = l
	}
	if len(rs) == 1 {
		return rs[0]
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	st := s.stream("sched")
	if !st.isR && s.Prio > 0 {
		// Tasks have random priorities, which change now and then: some tasks stand still for long
		// while others run on.
		r := st.rng.next() >> 11
		if r%64 == 0 {
			rs[r>>6%uint64(len(rs))].prio = 0
		}
		if int(r>>16%100) < s.Prio {
			best := 0
			for i, t := range rs {
				if t.prio == 0 {
					t.prio = st.rng.next() | 1
				}
				if t.prio > rs[best].prio {
					best = i
				}
			}
			st.pos++
			st.vals = append(st.vals, uint32(best))
			return rs[best]
		}
		return rs[s.choose("sched", len(rs))]
	}
	if !st.isR && s.Sticky > 0 && li >= 0 && int(st.rng.next()>>11%100) < s.Sticky {
		st.pos++
		st.vals = append(st.vals, 0)
		return rs[0]
	}
	return rs[s.choose("sched", len(rs))]
}

// Sleep advances the simulated clock; timers due in between fire.
func (s *Sim) Sleep(d time.Duration) {
	s.mu.Lock()
	s.Step++
	s.mu.Unlock()
	time.Sleep(d)
	synctest.Wait()
	s.mu.Lock()
	s.Step++
	s.mu.Unlock()
}

// WaitEvent lets simulated time pass until a task reaches a scheduling point, but at most max.
// It reports whether one did.
func (s *Sim) WaitEvent(max time.Duration) bool {
	select {
	case <-s.notify:
	default:
	}
	s.mu.Lock()
	s.Step++
	s.mu.Unlock()
	tm := time.NewTimer(max)
	ok := false
	select {
	case <-s.notify:
		ok = true
	case <-tm.C:
	}
	tm.Stop()
	synctest.Wait()
	select { // both at the same instant
	case <-s.notify:
		ok = true
	default:
	}
	s.mu.Lock()
	s.Step++
	s.mu.Unlock()
	return ok
}

// Points describes every parked task, for reports of stuck runs.
func (s *Sim) Points() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var rv []string
	for _, t := range s.parked {
		d := ""
		if t.dead() {
			d = " (dead)"
		}
		rv = append(rv, t.Name+"@"+t.point+d)
	}
	sort.Strings(rv)
	return rv
}

// Fault records an injected fault on the calling task and in the statistics.
func (s *Sim) Fault(kind string) {
	t := Self()
	s.mu.Lock()
	s.Stats["fault."+kind]++
	if t != nil {
		t.Faults = append(t.Faults, kind)
	}
	s.mu.Unlock()
	s.Logf("FAULT %s", kind)
}

//go:linkname nanotime runtime.nanotime
func nanotime() int64

// RealNow reads the real monotonic clock, also under the simulator.
func RealNow() int64 { return nanotime() }

// selectMode is the runtime's (overlaid) select order: 0 random, 1 source order, 2 last first.
//
//go:linkname selectMode runtime.verifSelectMode
var selectMode uint32

// SetSelectMode fixes how select statements with several ready cases decide.
func SetSelectMode(m uint32) { atomic.StoreUint32(&selectMode, m) }

// mapOrder is the runtime's (overlaid) starting point of iterations over maps: 0 random. Small maps
// are walked in the order of insertion from there, so it decides their order altogether.
//
//go:linkname mapOrder internal/runtime/maps.verifMapOrder
var mapOrder uint64

// SetMapOrder fixes where iterations over maps begin.
func SetMapOrder(m uint64) { atomic.StoreUint64(&mapOrder, m) }

// GoFunc replaces the go statement of the code under test: the new goroutine is a task,
// and a panic in it is the end of its (simulated) process.
func GoFunc(f func()) {
	t := Self()
	if t == nil {
		go f()
		return
	}
	s := t.sim
	taskMu.Lock()
	t.kids++
	n := t.kids
	taskMu.Unlock()
	s.Go(fmt.Sprintf("%s/%d", t.Name, n), t.Proc, func(c *Task) {
		c.Ambient = t.Ambient
		f()
	})
}
