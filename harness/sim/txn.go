package sim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// Txns is the world in which clients run transactions on a storage back end directly.
//
// Every update reads the key "version" of its namespace, in which it finds who wrote it, and
// puts itself there instead. So the version that a transaction read says which state the rest
// of what it read must be of, and what each update followed.
type Txns struct {
	*World
	T   TxnCfg
	Txs []*Txn
	own map[string]bool
	log map[string][]*Txn // of a namespace: the updates that took place, in their order
}

// TxnCfg is what a run of transactions is about.
type TxnCfg struct {
	Phases   int
	Per      int // transactions of a client in a phase
	NS       [][]byte
	Keys     [][]byte
	Ops      int
	ReadPct  int
	FailPct  int
	Pause    int // per cent of operations with a long pause before
	Between  [4]int
	LastLoss bool
	Big      bool // most values are large
}

func (c *TxnCfg) String() string {
	return fmt.Sprintf("%d phases x %d transactions of up to %d operations; %d namespaces, %d keys; %d%% reads, %d%% failing", c.Phases, c.Per, c.Ops, len(c.NS), len(c.Keys), c.ReadPct, c.FailPct)
}

// Txn is one transaction as its client saw it.
type Txn struct {
	ID         int
	Node       *Node
	NS         []byte
	Update     bool
	Start, End int64
	Done       bool
	Err        error
	Want       error // what its function returned
	Ran        int
	Faults     []string
	Reads      []txnRead
	Writes     []txnWrite
	Pred       int // -1: not read
	n          int
	Stray      error // Set or Get failed
	died       bool
	proc       *rt.Proc
	step       int64
}

type txnRead struct {
	Key []byte
	Val []byte // nil: not there
	at  int    // how many writes had been made
}

type txnWrite struct {
	Key []byte
	Val []byte
}

var verKey = []byte("version")

var errTxn = errors.New("the function of the transaction failed")

func (t *Txn) String() string {
	k := "read"
	if t.Update {
		k = "update"
	}
	return fmt.Sprintf("%s %d of namespace %x", k, t.ID, t.NS)
}

func (w *Txns) say(x *Txn, f string, a ...any) { w.S.Logf("txn %d "+f, append([]any{x.ID}, a...)...) }

type txnOp struct {
	kind  int // 0 get, 1 set, 2 delete, 3 get version, 4 set version
	key   []byte
	val   []byte
	pause bool
}

// plan draws what a transaction does.
func (w *Txns) plan(s string, x *Txn) []txnOp {
	c := func(n int) int { return w.S.Choose(s, n) }
	key := func() []byte { return w.T.Keys[c(len(w.T.Keys))] }
	var ops []txnOp
	n := c(w.T.Ops + 1)
	for i := 0; i < n; i++ {
		o := txnOp{key: key()}
		if x.Update {
			switch c(5) {
			case 2, 3:
				o.kind = 1
				switch v := c(6); {
				case v == 5: // a message without content is a value too
				case v == 4, v > 0 && w.T.Big:
					n := 40 + c(3000)
					if big := c(2) == 1; big && !(w.C.Storage == "badger" && w.C.SmallTables) {
						n *= 4
					}
					o.val = bytes.Repeat([]byte{byte(x.ID)}, n)
				default:
					o.val = []byte(fmt.Sprintf("t%d.%d", x.ID, i))
				}
			case 4:
				o.kind = 2
			}
		}
		ops = append(ops, o)
	}
	at := func(lo, hi int, o txnOp) int {
		i := lo + c(hi-lo+1)
		ops = append(ops[:i:i], append([]txnOp{o}, ops[i:]...)...)
		return i
	}
	i := at(0, len(ops), txnOp{kind: 3, key: verKey})
	if x.Update {
		at(i+1, len(ops), txnOp{kind: 4, key: verKey})
	} else if c(3) == 2 {
		at(0, len(ops), txnOp{kind: 3, key: verKey})
	}
	for i := range ops {
		ops[i].pause = w.T.Pause > 0 && c(100) >= 100-w.T.Pause
	}
	return ops
}

func (w *Txns) point(o *txnOp) {
	if w.Quiet {
		return
	}
	if o.pause {
		for i := 0; i < 12; i++ {
			rt.Yield("txn.long")
		}
	}
	rt.Yield("txn.op")
}

// get reads a key; the message is then scribbled over, as it is the caller's.
func (w *Txns) get(ctx context.Context, x *Txn, kr verifiable.KeyReader, key []byte) ([]byte, error) {
	var m pb.LeafData
	k := append([]byte(nil), key...)
	err := kr.Get(ctx, k, &m)
	switch {
	case err == verifiable.ErrNoSuchKey:
		x.Reads = append(x.Reads, txnRead{key, nil, len(x.Writes)})
		return nil, nil
	case err != nil:
		x.Stray = err
		return nil, err
	}
	v := append([]byte{}, m.LeafInput...)
	x.Reads = append(x.Reads, txnRead{key, v, len(x.Writes)})
	scribble(m.LeafInput)
	return v, nil
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// run executes a transaction; the calling task belongs to the server's process.
func (w *Txns) run(x *Txn, st verifiable.StorageWriter, ops []txnOp, failAt int, ferr error) {
	t := rt.Self()
	t.Faults = nil
	ctx := context.Context(context.Background())
	if w.C.Cancel > 0 && !w.Quiet {
		var cancel func()
		ctx, cancel = context.WithCancel(ctx)
		defer cancel()
		t.Data = &Exec{cancel: cancel}
	}
	x.Start = w.tick()
	x.proc, x.step = x.Node.Proc, w.S.Step
	ns := append([]byte(nil), x.NS...)
	var junk [][]byte
	begin := func() {
		x.Ran++
		x.Reads, x.Writes, x.Pred, x.Want, x.Stray = nil, nil, -1, nil, nil
	}
	step := func(i int, kr verifiable.KeyReader, kw verifiable.KeyWriter) error {
		o := &ops[i]
		w.point(o)
		if failAt == i {
			return ferr
		}
		set := func(v []byte) error {
			k := append([]byte(nil), o.key...)
			junk = append(junk, k)
			if v == nil && o.kind == 2 {
				x.Writes = append(x.Writes, txnWrite{o.key, nil})
				return kw.Set(ctx, k, nil)
			}
			m := &pb.LeafData{LeafInput: append([]byte(nil), v...)}
			junk = append(junk, m.LeafInput)
			x.Writes = append(x.Writes, txnWrite{o.key, append([]byte{}, v...)})
			return kw.Set(ctx, k, m)
		}
		switch o.kind {
		case 0:
			_, err := w.get(ctx, x, kr, o.key)
			return err
		case 3:
			v, err := w.get(ctx, x, kr, verKey)
			if err != nil {
				return err
			}
			x.n, x.Pred = 0, 0
			if v != nil {
				if _, err := fmt.Sscanf(string(v), "%d/%d", &x.n, &x.Pred); err != nil {
					x.Pred = -2
				}
			}
			return nil
		case 4:
			if err := set([]byte(fmt.Sprintf("%d/%d", x.n+1, x.ID))); err != nil {
				x.Stray = err
				return err
			}
			return nil
		}
		err := set(o.val)
		if err != nil {
			x.Stray = err
		}
		return err
	}
	all := func(kr verifiable.KeyReader, kw verifiable.KeyWriter) (err error) {
		begin()
		defer func() { x.Want = err }()
		for i := range ops {
			if err := step(i, kr, kw); err != nil {
				return err
			}
		}
		if failAt == len(ops) {
			return ferr
		}
		return nil
	}
	var err error
	if x.Update {
		err = st.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw verifiable.KeyWriter) error { return all(kw, kw) })
	} else {
		err = st.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr verifiable.KeyReader) error { return all(kr, nil) })
	}
	// What was handed over is the caller's again.
	scribble(ns)
	for _, j := range junk {
		scribble(j)
	}
	x.Err = err
	x.Faults = append([]string{}, t.Faults...)
	t.Faults, t.Data = nil, nil
	x.End = w.tick()
	x.Done = true
	w.say(x, "-> reads %d writes %d after %d err=%v faults=%v", len(x.Reads), len(x.Writes), x.Pred, err, x.Faults)
}

func (w *Txns) client(name string, ph, idx int, done *int) {
	s := w.S
	str := fmt.Sprintf("ops.%s.%d", name, ph)
	s.Go(fmt.Sprintf("%s.%d", name, ph), nil, func(*rt.Task) {
		defer func() { *done++ }()
		for i := 0; i < w.T.Per; i++ {
			rt.Yield("client")
			n := w.Nodes[idx%len(w.Nodes)]
			if len(w.Nodes) > 1 {
				n = w.Nodes[(idx+s.Choose(str, len(w.Nodes)))%len(w.Nodes)]
			}
			rt.Block("client.wait-node", func() bool { return n.Up })
			x := &Txn{ID: len(w.Txs) + 1, Node: n, Pred: -1}
			w.Txs = append(w.Txs, x)
			x.NS = w.T.NS[s.Choose(str, len(w.T.NS))]
			x.Update = s.Choose(str, 100) < 100-w.T.ReadPct
			ops := w.plan(str, x)
			failAt, ferr := -1, error(nil)
			if w.T.FailPct > 0 && s.Choose(str, 100) >= 100-w.T.FailPct {
				failAt = s.Choose(str, len(ops)+1)
				if s.Choose(str, 3) == 2 {
					ferr = verifiable.ErrNoSuchKey
				} else {
					ferr = errTxn
				}
				if x.Update && w.C.Storage == "mem" {
					// This back end does not undo; its users check before they write.
					for i, o := range ops {
						if o.kind == 1 || o.kind == 2 || o.kind == 4 {
							if failAt > i {
								failAt = i
							}
							break
						}
					}
				}
			}
			p, st := n.Proc, n.store
			w.say(x, "%s on %s", x, p.Name)
			s.Go(fmt.Sprintf("%s:t%d", p.Name, x.ID), p, func(*rt.Task) { w.run(x, st, ops, failAt, ferr) })
			rt.Block("client.wait", func() bool { return x.Done || p.Dead })
			x.died = !x.Done
		}
	})
}

type closer interface{ Close() }

// between is what happens when no transaction is running.
func (w *Txns) between(last bool) {
	s := w.S
	for _, n := range w.Nodes {
		k := 0
		x := s.Choose("between", 100)
		for ; k < 3 && x >= w.T.Between[k]; k++ {
			x -= w.T.Between[k]
		}
		if k == 0 {
			continue
		}
		if k == 1 { // an orderly end
			st, ok := n.store.(closer)
			if !ok {
				continue
			}
			p, done := n.Proc, false
			s.Go(p.Name+".close", p, func(*rt.Task) {
				st.Close()
				done = true
			})
			w.loop(Limit{Steps: 5000, Time: 10 * time.Minute}, func() bool { return done || p.Dead })
			if !done && !p.Dead {
				w.Fail("stuck", "closing the storage never ended; parked: %s", strings.Join(s.Points(), " "))
			}
			s.Count("closed")
			if n.Up {
				n.kill(w.lossy() && s.Choose("between", 3) == 2, s.Choose("between", 3))
			}
		} else if n.Up {
			n.kill(k == 3 && w.lossy(), s.Choose("between", 3))
		}
	}
	w.restartDue(true)
}

func (w *Txns) lossy() bool { return w.C.Storage == "bolt" || w.C.Storage == "badger" }

// RunTxns makes the run.
func RunTxns(s *rt.Sim, c Cfg, t TxnCfg) *Txns {
	w := &Txns{World: &World{S: s, C: c}, T: t, own: map[string]bool{}, log: map[string][]*Txn{}}
	w.setup()
	for ph := 0; ph < t.Phases; ph++ {
		if ph == t.Phases-1 {
			s.Prio = 0
			w.FaultsOn = false
			w.Disk.Off = true
			w.restartDue(true)
		}
		done := 0
		for i := 0; i < c.Clients; i++ {
			w.client(fmt.Sprintf("c%d", i), ph, i, &done)
		}
		why := w.loop(Limit{Steps: 60000, Time: time.Minute}, func() bool { return done == c.Clients })
		if done != c.Clients {
			w.restartDue(true)
			s.Prio = 0
			w.FaultsOn = false
			w.Disk.Off = true
			if why = w.loop(Limit{Steps: 60000, Time: time.Minute}, func() bool { return done == c.Clients }); done != c.Clients {
				w.Fail("stuck", "transactions never ended in phase %d (%s); parked: %s", ph, why, strings.Join(s.Points(), " "))
				break
			}
		}
		w.between(ph == t.Phases-1)
	}
	w.loop(Limit{Steps: 20000, Time: time.Minute}, func() bool { return false })
	w.restartDue(true)
	w.Quiet = true
	w.Disk.Yield = false
	final := map[string]map[string][]byte{}
	fin := 0
	for _, n := range w.Nodes {
		n := n
		s.Go("final."+n.Proc.Name, n.Proc, func(*rt.Task) {
			for _, ns := range t.NS {
				w.final(n, ns, final)
			}
			fin++
		})
		w.loop(Limit{Steps: 20000, Time: time.Hour}, func() bool { return fin == n.Idx+1 })
	}
	if fin != len(w.Nodes) {
		w.Fail("stuck", "the final reader never ended; parked: %s; panics: %v", strings.Join(s.Points(), " "), w.Panics)
	} else {
		for _, ns := range t.NS {
			w.judgeNS(ns, final[string(ns)])
		}
		w.judgeEach()
	}
	for _, p := range w.Panics {
		k := "panic"
		if strings.Contains(p, "(fault=true)") {
			k = "panic-fault"
		}
		w.Fail(k, "%s", p)
	}
	for _, f := range s.Fatals {
		w.Fail("client-panic", "%s", f)
	}
	sort.SliceStable(w.Viol, func(i, k int) bool { return w.Viol[i].Kind < w.Viol[k].Kind })
	for _, v := range w.Viol {
		s.Logf("VIOLATION %s: %s", v.Kind, firstLine(v.Msg))
	}
	for _, n := range w.Nodes {
		n.Proc.Dead = true
		for _, f := range n.closers {
			f()
		}
	}
	for _, f := range w.End {
		f()
	}
	return w
}

// final reads what a namespace has in the end.
func (w *Txns) final(n *Node, ns []byte, into map[string]map[string][]byte) {
	got := map[string][]byte{}
	var err error
	for try := 0; try < 9; try++ {
		rt.Self().Faults = nil
		err = n.store.ExecuteReadOnly(context.Background(), ns, func(ctx context.Context, kr verifiable.KeyReader) error {
			for _, k := range append([][]byte{verKey}, w.T.Keys...) {
				var m pb.LeafData
				switch err := kr.Get(ctx, k, &m); err {
				case nil:
					got[string(k)] = append([]byte{}, m.LeafInput...)
				case verifiable.ErrNoSuchKey:
					delete(got, string(k))
				default:
					return err
				}
			}
			return nil
		})
		if err == nil || len(rt.Self().Faults) == 0 {
			break
		}
	}
	if err != nil {
		w.Fail("txn-error", "reading namespace %x in the end on %s: %v", ns, n.Proc.Name, err)
		return
	}
	if old, ok := into[string(ns)]; ok {
		if d := diff(old, got); d != "" {
			w.Fail("txn-read", "namespace %x in the end: %s shows other content than the server before: %s", ns, n.Proc.Name, d)
		}
		return
	}
	into[string(ns)] = got
}

func diff(a, b map[string][]byte) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, xo := a[k]
		y, yo := b[k]
		if xo != yo || !bytes.Equal(x, y) {
			return fmt.Sprintf("key %q: %s against %s", k, showVal(x, xo), showVal(y, yo))
		}
	}
	return ""
}

func showVal(v []byte, ok bool) string {
	if !ok {
		return "nothing"
	}
	if len(v) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", v[:12], len(v))
	}
	return fmt.Sprintf("%q", v)
}

func (x *Txn) apply(st map[string][]byte) map[string][]byte {
	rv := map[string][]byte{}
	for k, v := range st {
		rv[k] = v
	}
	for _, wr := range x.Writes {
		if wr.Val == nil {
			delete(rv, string(wr.Key))
		} else {
			rv[string(wr.Key)] = wr.Val
		}
	}
	return rv
}

func (w *Txns) tx(id int) *Txn {
	if id < 1 || id > len(w.Txs) {
		return nil
	}
	return w.Txs[id-1]
}

// judgeNS decides which updates of a namespace took place, and whether everything fits them.
func (w *Txns) judgeNS(ns []byte, final map[string][]byte) {
	if final == nil {
		return
	}
	n, id := 0, 0
	if v, ok := final[string(verKey)]; ok {
		if _, err := fmt.Sscanf(string(v), "%d/%d", &n, &id); err != nil {
			w.Fail("txn-read", "namespace %x in the end: version %q was never written", ns, v)
			return
		}
	}
	// The chain of updates, from the last one back.
	var chain []*Txn
	in := map[int]int{0: 0} // transaction -> its place, 0 is the empty namespace
	for id != 0 {
		x := w.tx(id)
		if x == nil || !bytes.Equal(x.NS, ns) || !x.Update || len(chain) > len(w.Txs) {
			w.Fail("txn-read", "namespace %x: its history has transaction %d, which never wrote there", ns, id)
			return
		}
		chain = append([]*Txn{x}, chain...)
		if x.Pred < 0 {
			w.Fail("txn-read", "namespace %x: %s took place but never read the version", ns, x)
			return
		}
		id = x.Pred
	}
	states := []map[string][]byte{{}}
	for i, x := range chain {
		in[x.ID] = i + 1
		states = append(states, x.apply(states[i]))
		if x.n != i {
			w.Fail("txn-lost", "%s wrote version %d as the %dth update of the namespace", x, x.n+1, i+1)
		}
	}
	if d := diff(states[len(chain)], final); d != "" {
		w.Fail("txn-lost", "namespace %x in the end has not what its %d updates made: %s", ns, len(chain), d)
	}
	w.log[string(ns)] = chain
	w.Probe["updates"] += int64(len(chain))
	type seen struct {
		end int64
		idx int
		x   *Txn
	}
	var see []seen
	for _, x := range w.Txs {
		if !bytes.Equal(x.NS, ns) {
			continue
		}
		i, took := in[x.ID]
		acked := x.Done && x.Err == nil
		if x.Update && acked && !took {
			w.Fail("txn-lost", "%s succeeded but has no effect: it is not among the %d updates of the namespace", x, len(chain))
		}
		if x.Update && took && x.Done && x.Want != nil {
			w.Fail("txn-failed", "%s took place although its function failed", x)
		}
		// Reads are of the state that the version names, and of what the transaction itself wrote.
		if x.Pred >= 0 {
			p, ok := in[x.Pred]
			if !ok {
				if y := w.tx(x.Pred); y == nil {
					w.Fail("txn-read", "%s read a version that was never written", x)
				} else if !w.leftover(y, x) {
					w.Fail("txn-dirty", "%s read what %s wrote, which did not take place", x, y)
				}
				continue
			}
			base := states[p]
			for _, r := range x.Reads {
				y := Txn{Writes: x.Writes[:r.at]}
				want, wok := y.apply(base)[string(r.Key)]
				if wok != (r.Val != nil) || !bytes.Equal(want, r.Val) {
					w.Fail("txn-read", "%s at version %d (by %d) read key %q: %s, but it was %s", x, p, x.Pred, r.Key, showVal(r.Val, r.Val != nil), showVal(want, wok))
					break
				}
			}
			if x.Done {
				see = append(see, seen{x.End, p, x})
			}
		} else if x.Pred == -2 {
			w.Fail("txn-read", "%s read a version that was never written", x)
		}
		if acked && took && x.Update {
			see = append(see, seen{x.End, i, x})
		}
	}
	sort.SliceStable(see, func(i, j int) bool { return see[i].end < see[j].end })
	max := 0
	for i := range see {
		if see[i].idx > see[max].idx {
			max = i
		}
		see[i] = seen{see[i].end, see[max].idx, see[max].x}
	}
	for _, x := range w.Txs {
		if !bytes.Equal(x.NS, ns) || x.Pred < 0 {
			continue
		}
		p, ok := in[x.Pred]
		k := sort.Search(len(see), func(i int) bool { return see[i].end >= x.Start }) - 1
		if ok && k >= 0 && see[k].idx > p {
			w.Fail("txn-stale", "%s started after %s had ended, which saw or made version %d, but read version %d", x, see[k].x, see[k].idx, p)
		}
	}
}

// leftover says that, with badger, y never returned since its process died, or failed in a sync, that
// x read what y had left in files, not yet made durable, and that this was lost with the next power
// failure. A file-based store that does not sync what it finds when it is opened can do no better.
func (w *Txns) leftover(y, x *Txn) bool {
	if w.C.Storage != "badger" {
		return false
	}
	if y.Done {
		ok := false
		for _, f := range y.Faults {
			ok = ok || f == "disk.sync"
		}
		if y.Err == nil || !ok {
			return false
		}
	} else if k, dead := w.killed[y.proc]; !dead || k > x.step {
		return false
	}
	for _, l := range w.powerLost {
		if l >= x.step {
			return true
		}
	}
	return false
}

// judgeEach judges what each transaction returned.
func (w *Txns) judgeEach() {
	for _, x := range w.Txs {
		if !x.Done {
			if !x.Node.Proc.Dead && !x.died {
				w.Fail("stuck", "%s never ended", x)
			}
			continue
		}
		w.Probe["transactions"]++
		if len(x.Faults) > 0 {
			w.Probe["transactions.faulted"]++
			if x.Err == nil && x.Want != nil {
				w.Fail("txn-swallowed", "%s succeeded although its function returned %v", x, x.Want)
			}
			continue
		}
		switch {
		case x.Stray != nil:
			w.Fail("txn-error", "%s: an access failed for no reason: %v", x, x.Stray)
		case x.Want != nil && x.Err == nil:
			w.Fail("txn-swallowed", "%s succeeded although its function returned %v", x, x.Want)
		case x.Want != nil && !errors.Is(x.Err, x.Want):
			w.Fail("txn-swallowed", "%s returned %v although its function returned %v", x, x.Err, x.Want)
		case x.Want == nil && x.Err != nil:
			w.Fail("txn-error", "%s failed for no reason: %v", x, x.Err)
		case x.Want == nil && x.Ran == 0:
			w.Fail("txn-swallowed", "%s succeeded without running its function", x)
		}
	}
}
