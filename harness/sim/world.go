// Package sim runs the real code of /repo under the simulator: server nodes, their storage,
// transports and clients in one process, every interleaving and fault drawn from one seed.
package sim

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"verifsim/rt"
	"verifsim/rt/disk"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// Cfg is what one run is about; all of it comes from the "cfg" choice stream.
type Cfg struct {
	Storage  string
	Nodes    int
	Clients  int
	Ops      int
	Trans    []string // per client: direct, rest, grpc
	Objs     []Obj
	Alpha    int // size of the common value alphabet
	Huge     int // some values have so many bytes
	Keys     [][]byte
	Weights  map[string]int
	ReadOnly bool // service without mutator on node 1 and up

	Batch        bool
	BatchTimeout time.Duration
	BatchSize    int
	BufferSize   int

	// rates per 10000
	StErr, StErrIn                         int
	NetDrop, NetDup, NetLost, NetDelay     int
	NetEarly, NetGarble                    int
	StDirty                                bool // accesses fail inside updates, which start over without being undone
	Crash                                  int
	CrashPower                             bool
	CrashMix                               bool // some crashes are of the process only although CrashPower
	CrashSync                              bool // crashes prefer moments before a sync
	CrashKeep                              int  // 0..2, 3: chosen at each crash
	DiskWriteErr, DiskSyncErr, DiskOpenErr int
	DiskReadErr                            int
	Preload                                int // so many entries in each object to begin with
	DiskFull                               int64
	SmallTables                            bool // badger with tables and logs that fill up fast
	PgErr, PgDrop                          int  // of the simulated database server
	Cancel                                 int  // requests are cancelled by their clients
	Lag                                    bool
	Skew                                   bool
	Retry                                  bool
	FinalCrash                             bool
	FineYield                              bool
	Think                                  int
	Watch                                  bool // record when sizes become visible (holding-time check)
	Policy                                 []*pb.ResourceAccount
	ClientKeys                             []string
	JSON                                   bool // values are redactable JSON documents
	VaryExtra                              bool
	VaryMap                                bool // map values of equal leaf input but different data
	Hostile                                bool // mutation-entry look-alike values etc.
	Sizes                                  bool // thorough final sweep over all sizes
	MaxFinal                               int64
}

// Obj is one log or map.
type Obj struct {
	Acc, Name string
	Map       bool
}

func (o Obj) String() string {
	k := "log"
	if o.Map {
		k = "map"
	}
	return k + ":" + o.Acc + "/" + o.Name
}

// Call is one request as its client saw it.
type Call struct {
	Dups       int // copies the network made
	ID         int
	Client     *Client
	Node       *Node
	Method     string
	Req, Resp  proto.Message
	Err        error
	Start, End int64
	Done       bool
	Net        []string // what the simulated network did to it
	Execs      []*Exec
	Macro      *Macro
	Raw        bool // an HTTP request made by hand
	raw        *rawReq
	arrived    int
	status     int
	hdr        http.Header
	body       []byte
}

func (c *Call) net(k string) {
	c.Net = append(c.Net, k)
	c.Client.w.S.Fault("net." + k)
}

// Exec is one request as a server executed it.
type Exec struct {
	ID           int
	Node         *Node
	Proc         *rt.Proc
	Method       string
	Req, Resp    proto.Message
	Err          error
	Start, End   int64
	StartT, EndT time.Duration
	Done         bool
	Faults       []string
	Stale        bool
	Final        bool
	Panicked     bool
	Call         *Call
	cancel       func()
}

// Macro is one high-level client operation (many calls).
type Macro struct {
	Kind       string
	Obj        Obj
	Start, End int64
	Done       bool
	Err        error
	Calls      []*Call
}

// Faulted says whether anything went wrong underneath.
func (m *Macro) Faulted() bool {
	for _, c := range m.Calls {
		if c.Faulted() {
			return true
		}
	}
	return false
}

// Stale says whether any answer came from a lagging replica.
func (m *Macro) Stale() bool {
	for _, c := range m.Calls {
		for _, e := range c.Execs {
			if e.Stale {
				return true
			}
		}
	}
	return false
}

// Faulted says whether a fault touched the call.
func (c *Call) Faulted() bool {
	if len(c.Net) > 0 || !c.Done {
		return true
	}
	for _, e := range c.Execs {
		if len(e.Faults) > 0 || !e.Done || e.Panicked {
			return true
		}
	}
	return false
}

// Node is one server.
type Node struct {
	w       *World
	Idx     int
	Proc    *rt.Proc
	Gen     int
	Up      bool
	Svc     pb.VerifiableDataStructuresServiceServer // recorded
	store   verifiable.StorageWriter
	sick    bool
	upAt    int64
	closers []func()
	Extra   map[string]any
}

// World is one run.
type World struct {
	S       *rt.Sim
	C       Cfg
	Prop    string
	Nodes   []*Node
	Clients []*Client
	KV      *KV
	Mem     *memory.TransientStorage
	Disk    *disk.Disk
	Execs   []*Exec

	Calls     []*Call
	Viol      []Violation
	After     []func(*Judge)
	FaultsOn  bool
	Quiet     bool
	seq       int64
	hint      map[string]int64
	huge      int
	Panics    []string
	Commits   []Commit
	Exits     int
	Crashes   int
	killed    map[*rt.Proc]int64 // when processes died
	powerLost []int64
	execs     int
	End       []func()
	Probe     map[string]int64
	docs      []*pb.LeafData
	leafs     map[string][][]byte
	Extra     map[string]any // of optional packages
}

// Commit says when a size became visible.
type Commit struct {
	Obj  Obj
	Size int64
	T    time.Duration
	Seq  int64
	Node int
}

// Violation is a broken property, as found.
type Violation struct {
	Kind string
	Msg  string
}

// Fail records a violation.
func (w *World) Fail(kind, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, v := range w.Viol {
		if v.Kind == kind {
			if len(w.Viol) > 40 {
				return
			}
			break
		}
	}
	w.Viol = append(w.Viol, Violation{kind, m})
}

func (w *World) tick() int64 { w.seq++; return w.seq }

// StoreFactory opens a storage back end for a node; registered by optional packages.
type StoreFactory func(w *World, n *Node) (st verifiable.StorageWriter, atomic bool)

// Stores has the optional storage back ends.
var Stores = map[string]StoreFactory{}

// Transports has the optional transports.
var Transports = map[string]func(c *Client) pb.VerifiableDataStructuresServiceServer{}

func (w *World) setup() {
	c := &w.C
	w.hint = map[string]int64{}
	w.Probe = map[string]int64{}
	w.leafs = map[string][][]byte{}
	w.Extra = map[string]any{}
	w.KV = NewKV()
	w.Mem = &memory.TransientStorage{}
	w.Disk = disk.New()
	disk.Use(w.Disk)
	w.Disk.Torn = true
	w.FaultsOn = true
	w.armDisk()
	for i := 0; i < c.Nodes; i++ {
		n := &Node{w: w, Idx: i, Extra: map[string]any{}}
		w.Nodes = append(w.Nodes, n)
		n.start()
	}
	for i := 0; i < c.Clients; i++ {
		cl := &Client{w: w, Idx: i, Name: fmt.Sprintf("c%d", i), Node: i % c.Nodes, prevLog: map[string]*pb.LogTreeHashResponse{}, prevMap: map[string]*verifiable.MapTreeState{}}
		if i < len(c.ClientKeys) {
			cl.Key = c.ClientKeys[i]
		}
		tr := "direct"
		if i < len(c.Trans) {
			tr = c.Trans[i]
		}
		cl.Trans = tr
		switch tr {
		case "direct":
			cl.Svc = &directSvc{c: cl}
		case "rest":
			cl.Svc = newREST(cl)
		default:
			cl.Svc = Transports[tr](cl)
		}
		w.Clients = append(w.Clients, cl)
	}
}

func (w *World) armDisk() {
	c := &w.C
	w.Disk.Yield = !w.Quiet
	w.Disk.ReadErr = c.DiskReadErr
	w.Disk.Split = c.Crash > 0
	w.Disk.SpareHeader = c.Storage == "bolt"
	w.Disk.WriteErr, w.Disk.SyncErr, w.Disk.OpenErr, w.Disk.FullAt = c.DiskWriteErr, c.DiskSyncErr, c.DiskOpenErr, c.DiskFull
}

func (n *Node) openStore(quiet bool) (verifiable.StorageWriter, bool) {
	w := n.w
	switch w.C.Storage {
	case "mem":
		return w.Mem, false
	case "kv":
		v := &View{KV: w.KV}
		return v, true
	case "bolt":
		st := &bolt.Storage{Path: "/d"}
		return st, true
	}
	return Stores[w.C.Storage](w, n)
}

func (n *Node) start() {
	w := n.w
	n.Gen++
	p := &rt.Proc{Name: fmt.Sprintf("n%d.%d", n.Idx, n.Gen)}
	n.Proc = p
	if w.C.Skew && !w.Quiet {
		p.Skew = time.Duration(w.S.Choose("skew", 7)-3) * 17 * time.Minute
	}
	p.OnFatal = func(kind, msg string) { n.fatal(p, kind, msg) }
	_, done := w.S.Adopt(p.Name+".main", p)
	// goroutines that a store starts are adopted as children of this task
	// only if they get that far while it is there
	defer func() {
		synctest.Wait()
		done()
	}()
	st, atomic := n.openStore(false)
	f := &faulty{w: w, node: n, inner: st, atomic: atomic, fine: w.C.FineYield}
	n.store = st
	var reader verifiable.StorageReader = f
	if w.C.Lag {
		rv := &View{KV: w.KV}
		rv.Lag = func(ns string, have, newest int) int {
			if !w.FaultsOn {
				return newest
			}
			return have + w.S.Choose("lag", newest-have+1)
		}
		rv.Stale = func() {
			if t := rt.Self(); t != nil {
				if e, ok := t.Data.(*Exec); ok {
					e.Stale = true
				}
			}
			w.S.Count("fault.replica.lag")
		}
		reader = &faulty{w: w, node: n, inner: rv, atomic: true, fine: w.C.FineYield}
	}
	svc := &verifiable.Service{Reader: reader, AccessPolicy: w.policy()}
	if w.C.ReadOnly && n.Idx > 0 {
		// a read-only server
	} else if w.C.Batch {
		svc.Mutator = (&batch.Mutator{Writer: &watch{f, w, n}, Timeout: w.C.BatchTimeout, BatchSize: w.C.BatchSize, BufferSize: w.C.BufferSize}).MustCreate()
	} else {
		svc.Mutator = &instant.Mutator{Writer: &watch{f, w, n}}
	}
	n.Svc = &recorder{w: w, n: n, p: p, inner: svc.MustCreate()}
	n.Up = true
	for _, f := range nodeStarted {
		f(n)
	}
	n.sick = w.C.StErr > 0 && w.S.Choose("st", 8) == 7
}

func (w *World) policy() verifiable.AuthorizationOracle {
	if w.C.Policy == nil {
		return policy.Open
	}
	return &policy.Static{Policy: w.C.Policy}
}

// watch notes the sizes that became visible after each commit, when asked to.
type watch struct {
	*faulty
	w *World
	n *Node
}

func (x *watch) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	err := x.faulty.ExecuteUpdate(ctx, ns, f)
	if x.w.C.Watch {
		x.w.noteSizes(x.n)
	}
	return err
}

func (w *World) noteSizes(n *Node) {
	svc := (&verifiable.Service{Reader: n.store, AccessPolicy: policy.Open}).MustCreate()
	for _, o := range w.C.Objs {
		r, err := svc.LogTreeHash(context.Background(), &pb.LogTreeHashRequest{Log: logRef(o, o.lt(), "")})
		if err != nil || r == nil {
			continue
		}
		last := int64(0)
		for i := len(w.Commits) - 1; i >= 0; i-- {
			if w.Commits[i].Obj == o {
				last = w.Commits[i].Size
				break
			}
		}
		if r.TreeSize > last {
			w.Commits = append(w.Commits, Commit{o, r.TreeSize, w.S.Elapsed(), w.tick(), n.Idx})
		}
	}
}

func (o Obj) lt() pb.LogType {
	if o.Map {
		return pb.LogType_STRUCT_TYPE_MUTATION_LOG
	}
	return pb.LogType_STRUCT_TYPE_LOG
}

func logRef(o Obj, lt pb.LogType, key string) *pb.LogRef {
	return &pb.LogRef{Account: &pb.AccountRef{Id: o.Acc, ApiKey: key}, Name: o.Name, LogType: lt}
}

func mapRef(o Obj, key string) *pb.MapRef {
	return &pb.MapRef{Account: &pb.AccountRef{Id: o.Acc, ApiKey: key}, Name: o.Name}
}

// fatal is called when code of the node exits or panics.
func (n *Node) fatal(p *rt.Proc, kind, msg string) {
	w := n.w
	if p.Dead {
		return
	}
	t := rt.Self()
	faulted := t != nil && len(t.Faults) > 0
	if t != nil {
		if e, ok := t.Data.(*Exec); ok && !e.Done {
			e.Panicked = kind == "panic"
		}
	}
	w.S.Logf("%s of %s: %s", kind, p.Name, firstLine(msg))
	if kind == "exit" && faulted && w.C.Batch {
		w.Exits++
		w.S.Count("batch.exit-on-storage-error")
	} else {
		w.Panics = append(w.Panics, fmt.Sprintf("%s in %s (fault=%v): %s", kind, p.Name, faulted, msg))
	}
	n.kill(false, 0)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// kill ends the node's process; with power, un-synced disk writes may be lost.
func (n *Node) kill(power bool, keep int) {
	w := n.w
	n.Up = false
	n.Proc.Dead = true
	w.Disk.KillProcess(n.Proc)
	if w.killed == nil {
		w.killed = map[*rt.Proc]int64{}
	}
	w.killed[n.Proc] = w.S.Step
	if power {
		w.powerLost = append(w.powerLost, w.S.Step)
		w.Disk.Crash(w.S, keep)
		w.S.Count(fmt.Sprintf("fault.crash.power-loss-keep%d", keep))
	} else {
		w.S.Count("fault.crash.process")
		if w.C.Storage == "badger" {
			// Badger reads, and acts upon, what it finds in its logs after a crash without a sync
			// first. Power losses before the operating system has written that back are out.
			w.Disk.WriteBack()
		}
	}
	w.Crashes++
	n.upAt = w.S.Step + int64(w.S.Choose("restart", 30))
	for _, f := range n.closers {
		f()
	}
	n.closers = nil
	w.S.Logf("CRASH %s power=%v keep=%d", n.Proc.Name, power, keep)
}

// OnKill has f called when the node's process ends.
func (n *Node) OnKill(f func()) { n.closers = append(n.closers, f) }

func (w *World) crashPoint() bool {
	if !w.FaultsOn || w.C.Crash == 0 {
		return false
	}
	pct := w.C.Crash
	if w.C.CrashSync {
		pct /= 2
		if w.S.ParkedAt("disk.sync") || w.S.ParkedAt("disk.write-mid") || w.S.ParkedAt("disk.write-sync") {
			pct *= 8
		}
	}
	if w.S.Chance("crash", pct) {
		n := w.Nodes[w.S.Choose("crash", len(w.Nodes))]
		if n.Up {
			keep := w.C.CrashKeep
			if keep == 3 {
				keep = w.S.Choose("crash", 3)
			}
			n.kill(w.C.CrashPower && (!w.C.CrashMix || w.S.Choose("crash", 2) == 0), keep)
			return true
		}
	}
	return false
}

func (w *World) restartDue(all bool) bool {
	did := false
	for _, n := range w.Nodes {
		if !n.Up && (all || w.S.Step >= n.upAt) {
			n.start()
			w.S.Logf("RESTART %s", n.Proc.Name)
			did = true
		}
	}
	return did
}

// Limit bounds one run.
type Limit struct {
	Steps int64
	Time  time.Duration
}

// loop runs tasks until done() holds or nothing can happen any more. It returns what ended it.
func (w *World) loop(lim Limit, done func() bool) string {
	s := w.S
	endStep := s.Step + lim.Steps
	endTime := s.Elapsed() + lim.Time
	for {
		if done() {
			return "done"
		}
		if s.Step > endStep {
			return "steps"
		}
		rs := s.Runnable()
		c, r := w.crashPoint(), w.restartDue(false)
		if c || r {
			rs = s.Runnable() // what noticed it has come to rest
		}
		live := rs[:0]
		for _, t := range rs {
			if !t.Dead() {
				live = append(live, t)
			}
		}
		if len(live) > 0 {
			s.Release(s.Pick(live))
			continue
		}
		left := endTime - s.Elapsed()
		if left <= 0 {
			return "time"
		}
		if !s.WaitEvent(left) {
			down := false
			for _, n := range w.Nodes {
				down = down || !n.Up
			}
			if down {
				w.restartDue(true)
				if len(s.Runnable()) > 0 {
					endTime = s.Elapsed() + lim.Time
					continue
				}
			}
			return "idle"
		}
	}
}

func (w *World) clientsDone() bool {
	for _, c := range w.Clients {
		if !c.done {
			return false
		}
	}
	return true
}

// preload fills the objects before anything else happens.
func (w *World) preload() {
	if w.C.Preload == 0 {
		return
	}
	w.FaultsOn = false
	w.S.MaxSteps += int64(w.C.Preload) * 200
	n := w.Nodes[0]
	done := false
	w.S.Go("preload", n.Proc, func(*rt.Task) {
		r := newRng(w.S.Draw("preload"))
		for _, o := range w.C.Objs {
			for i := 0; i < w.C.Preload; i++ {
				d := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("p%d", i))}
				if i%7 == 0 {
					d.ExtraData = []byte(fmt.Sprintf("x%d", i))
				}
				if o.Map {
					m := &pb.MapMutation{Action: "set", Key: w.C.Keys[r.n(len(w.C.Keys))], Value: d}
					if r.pct(30) {
						m.Key = []byte(fmt.Sprintf("pk%d", r.n(w.C.Preload)))
					}
					if r.pct(10) {
						m.Action, m.Value = "delete", nil
					}
					n.Svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef(o, ""), Mutation: m})
				} else {
					n.Svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef(o, 0, ""), Value: d})
				}
			}
		}
		done = true
	})
	w.loop(Limit{Steps: int64(w.C.Preload) * 200, Time: 2000 * time.Hour}, func() bool { return done })
	w.FaultsOn = true
}

// Run executes the run and judges it.
func (w *World) Run() {
	s := w.S
	w.setup()
	w.preload()
	for _, c := range w.Clients {
		c.spawn()
	}
	w.loop(Limit{Steps: 40000, Time: 2000 * time.Hour}, w.clientsDone)
	// Faults stop.
	w.S.Prio = 0
	w.FaultsOn = false
	w.Disk.Off = true
	for _, n := range w.Nodes {
		n.sick = false
	}
	w.restartDue(true)
	el := s.Elapsed()
	why := w.loop(Limit{Steps: 60000, Time: 4*el + 2000*time.Hour}, w.clientsDone)
	if !w.clientsDone() {
		for _, c := range w.Clients {
			if !c.done {
				w.Fail("stuck", "client %s never finished %s after faults stopped (%s); parked: %s", c.Name, c.cur, why, strings.Join(s.Points(), " "))
				break
			}
		}
	}
	// Background work drains.
	settle := w.C.BatchTimeout*4 + time.Minute
	for i := 0; i < 4; i++ {
		r := w.loop(Limit{Steps: 40000, Time: settle}, func() bool { return false })
		if r == "idle" || r == "time" {
			break
		}
	}
	if w.C.FinalCrash && (w.C.Storage == "bolt" || w.C.Storage == "badger") {
		n := w.Nodes[0]
		n.kill(true, s.Choose("crash", 3))
	}
	w.restartDue(true)
	w.Quiet = true
	w.Disk.Yield = false
	fin := false
	j := &Judge{w: w}
	s.Go("final", w.Nodes[0].Proc, func(*rt.Task) {
		j.read()
		fin = true
	})
	w.loop(Limit{Steps: 20000, Time: 2000 * time.Hour}, func() bool { return fin })
	if !fin {
		w.Fail("stuck", "final reader never finished; parked: %s; panics: %v", strings.Join(s.Points(), " "), w.Panics)
	}
	if fin {
		j.judge()
	}
	for _, p := range w.Panics {
		k := "panic"
		if strings.Contains(p, "(fault=true)") {
			k = "panic-fault"
		}
		w.Fail(k, "%s", p)
	}
	for _, f := range s.Fatals {
		w.Fail("client-panic", "%s", f)
	}
	sort.SliceStable(w.Viol, func(i, k int) bool { return w.Viol[i].Kind < w.Viol[k].Kind })
	for _, v := range w.Viol {
		s.Logf("VIOLATION %s: %s", v.Kind, firstLine(v.Msg))
	}
	for _, n := range w.Nodes {
		n.Proc.Dead = true
		for _, f := range n.closers {
			f()
		}
	}
	for _, f := range w.End {
		f()
	}
}
