package sim

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"time"

	"verifsim/ref"
	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

var bg = context.Background()

// OpKinds are all client operations by name.
var OpKinds = map[string]func(c *Client, r *rng){}

func init() {
	OpKinds["add"] = (*Client).opAdd
	OpKinds["head"] = (*Client).opHead
	OpKinds["fetch"] = (*Client).opFetch
	OpKinds["incl"] = (*Client).opIncl
	OpKinds["cons"] = (*Client).opCons
	OpKinds["set"] = func(c *Client, r *rng) { c.opMutate(r, "set") }
	OpKinds["del"] = func(c *Client, r *rng) { c.opMutate(r, "delete") }
	OpKinds["upd"] = func(c *Client, r *rng) { c.opMutate(r, "update") }
	OpKinds["cas"] = (*Client).opReadUpdate
	OpKinds["get"] = (*Client).opGet
	OpKinds["mhead"] = (*Client).opMapHead
	OpKinds["wait"] = (*Client).opWait
	OpKinds["follow"] = (*Client).opFollow
	OpKinds["mfollow"] = (*Client).opFollowMap
	OpKinds["audit"] = (*Client).opAudit
	OpKinds["maudit"] = (*Client).opAuditMap
	OpKinds["vget"] = (*Client).opVerifiedGet
	OpKinds["vincl"] = (*Client).opVerifyInclusion
	OpKinds["think"] = func(c *Client, r *rng) { rt.Sleep(time.Duration(1+r.n(3000)) * time.Millisecond) }
}

func (c *Client) op(r *rng) {
	w := c.w
	names := make([]string, 0, len(w.C.Weights))
	tot := 0
	for k, v := range w.C.Weights {
		names = append(names, k)
		tot += v
	}
	sort.Strings(names)
	x := r.n(tot)
	for _, k := range names {
		if x -= w.C.Weights[k]; x < 0 {
			c.cur = k
			OpKinds[k](c, r)
			w.Probe["op."+k]++
			break
		}
	}
	if w.C.Think > 0 && r.pct(w.C.Think) {
		rt.Sleep(time.Duration(1+r.n(1500)) * time.Millisecond)
	}
}

func (c *Client) obj(r *rng, m bool) (Obj, bool) {
	var os []Obj
	for _, o := range c.w.C.Objs {
		if o.Map == m {
			os = append(os, o)
		}
	}
	if len(os) == 0 {
		return Obj{}, false
	}
	// The first is used most.
	if r.pct(50) {
		return os[0], true
	}
	return os[r.n(len(os))], true
}

// anyLog picks a log of any type.
func (c *Client) anyLog(r *rng) (*pb.LogRef, Obj) {
	o := c.w.C.Objs[r.n(len(c.w.C.Objs))]
	lt := pb.LogType_STRUCT_TYPE_LOG
	if o.Map {
		lt = pb.LogType_STRUCT_TYPE_MUTATION_LOG
		if r.pct(50) {
			lt = pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
		}
	}
	return logRef(o, lt, c.Key), o
}

func (c *Client) size(r *rng, o Obj) int64 {
	h := c.w.hint[o.String()]
	switch x := r.n(20); {
	case x < 5:
		return 0
	case x < 8:
		return h
	case x < 10:
		return h + 1
	case x == 10:
		return h + 2 + int64(r.n(6))
	case x == 11:
		return h - 1
	case x == 12 && r.pct(20):
		return -1 - int64(r.n(3))
	case x == 13 && r.pct(20):
		return int64(1) << uint(20+r.n(42))
	default:
		return 1 + int64(r.n(int(h)+1))
	}
}

// leaf makes the data of one value.
func (c *Client) leaf(r *rng, forMap bool) *pb.LeafData {
	w := c.w
	if w.C.Huge > 0 && w.C.Storage != "badger" && w.huge < 1200000 && r.pct(8) {
		// Much bigger than what is usual, and within what a gRPC message may hold.
		w.huge += w.C.Huge
		in := bytes.Repeat([]byte(fmt.Sprintf("%s.%d;", c.Name, c.opNo)), w.C.Huge/4)[:w.C.Huge]
		return &pb.LeafData{LeafInput: in}
	}
	if w.C.JSON {
		k := r.n(w.C.Alpha + 2)
		return proto.Clone(w.doc(k)).(*pb.LeafData)
	}
	var in []byte
	switch {
	case r.pct(55):
		in = []byte(fmt.Sprintf("v%d", r.n(w.C.Alpha)))
	case w.C.Hostile && r.pct(30):
		switch r.n(5) {
		case 0:
			in = []byte{}
		case 1:
			in = bytes.Repeat([]byte{byte(r.n(256))}, 1+r.n(3000))
		case 2:
			in = []byte{0, 1, 2, 0xff, '"', '\\', '/', '%'}
		case 3:
			in = []byte(fmt.Sprintf("{\"json\":%d}", r.n(3)))
		default:
			in = append([]byte{1}, bytes.Repeat([]byte{byte(r.n(3))}, 64)...)
		}
	default:
		in = []byte(fmt.Sprintf("u%s.%d", c.Name, c.opNo))
	}
	d := &pb.LeafData{LeafInput: in}
	if len(in)%2 == 0 {
		d.ExtraData = append([]byte("x:"), in...)
	}
	if w.C.VaryExtra && !forMap || w.C.VaryMap && forMap {
		d.ExtraData = []byte(fmt.Sprintf("y%d:%s", r.n(3), in))
	}
	return d
}

func (w *World) doc(k int) *pb.LeafData {
	if w.docs == nil {
		w.docs = make([]*pb.LeafData, 64)
	}
	if w.docs[k] == nil {
		src := fmt.Sprintf(`{"name":"n%d","secret":"hidden-%d-hidden","num":%d,"nested":{"a":"hidden-%d-nested","b":[1,2,"x"]},"none":null}`, k, k, k, k)
		d, err := verifiable.CreateRedactableJSONLeafData([]byte(src))
		if err != nil {
			w.Fail("redaction", "CreateRedactableJSONLeafData(%s): %v", src, err)
			d = &pb.LeafData{LeafInput: []byte("x"), ExtraData: []byte("{}"), Format: pb.DataFormat_JSON}
		}
		w.docs[k] = d
	}
	return w.docs[k]
}

func (c *Client) key(r *rng) []byte { return c.w.C.Keys[r.n(len(c.w.C.Keys))] }

// call with retries where the configuration has them.
func (c *Client) try(r *rng, f func() error) {
	for i := 0; ; i++ {
		if f() == nil || !c.w.C.Retry || i >= 2 {
			return
		}
		rt.Sleep(time.Duration(100+r.n(400)) * time.Millisecond)
	}
}

func (c *Client) opAdd(r *rng) {
	o, ok := c.obj(r, false)
	if !ok {
		return
	}
	d := c.leaf(r, false)
	c.try(r, func() error {
		_, err := c.Svc.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef(o, 0, c.Key), Value: d})
		return err
	})
}

func (c *Client) mutation(r *rng, o Obj, action string) *pb.MapMutation {
	m := &pb.MapMutation{Action: action, Key: c.key(r)}
	if action != "delete" {
		m.Value = c.leaf(r, true)
	}
	if action == "update" {
		switch r.n(8) {
		case 0, 1:
			m.PreviousLeafHash = ref.NullLeaf
		case 2, 3, 4:
			m.PreviousLeafHash = ref.LeafHash([]byte(fmt.Sprintf("v%d", r.n(c.w.C.Alpha))))
		case 5:
			if c.Trans != "rest" || r.pct(50) {
				m.PreviousLeafHash = nil
			} else {
				m.PreviousLeafHash = []byte{}
			}
		case 6:
			m.PreviousLeafHash = []byte("not a hash")
		default:
			m.PreviousLeafHash = ref.LeafHash(c.leaf(r, true).LeafInput)
		}
	}
	return m
}

func (c *Client) opMutate(r *rng, action string) {
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	m := c.mutation(r, o, action)
	if c.w.C.Hostile && !c.w.C.JSON && r.pct(12) {
		switch {
		case action == "update" && c.Trans != "rest":
			m.Value = nil // stands for an empty value
		case action == "set":
			// A value with the leaf input of an entry of the mutation log.
			l := logRef(o, pb.LogType_STRUCT_TYPE_MUTATION_LOG, c.Key)
			n := c.size(r, o)
			if g, err := c.Svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l, First: n - 1, Last: n}); err == nil && g != nil && len(g.Values) == 1 {
				m.Value = &pb.LeafData{LeafInput: g.Values[0].GetLeafInput(), ExtraData: []byte("mimic")}
			}
		}
	}
	c.try(r, func() error {
		_, err := c.Svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef(o, c.Key), Mutation: m})
		return err
	})
}

// opReadUpdate reads a key and updates it conditionally on what was read.
func (c *Client) opReadUpdate(r *rng) {
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	k := c.key(r)
	g, err := c.Svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef(o, c.Key), Key: k})
	if err != nil || g == nil {
		return
	}
	m := &pb.MapMutation{Action: "update", Key: k, Value: c.leaf(r, true), PreviousLeafHash: ref.LeafHash(g.Value.GetLeafInput())}
	c.try(r, func() error {
		_, err := c.Svc.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef(o, c.Key), Mutation: m})
		return err
	})
}

func (c *Client) opHead(r *rng) {
	l, o := c.anyLog(r)
	c.Svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: l, TreeSize: c.size(r, o)})
}

func (c *Client) opFetch(r *rng) {
	l, o := c.anyLog(r)
	a, b := c.size(r, o), c.size(r, o)
	if a > b && b > 0 && r.pct(80) {
		a, b = b, a
	}
	if r.pct(30) {
		a = 0
	}
	if r.pct(20) && b > 0 {
		a = b - 1
	}
	if b > 0 && b-a > 1<<16 { // an enormous range is refused, but only after a look at the size
		b = a + 1<<16
	}
	c.Svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l, First: a, Last: b})
}

func (c *Client) opIncl(r *rng) {
	l, o := c.anyLog(r)
	q := &pb.LogInclusionProofRequest{Log: l, TreeSize: c.size(r, o)}
	if r.pct(50) {
		q.LeafIndex = c.size(r, o) - 1
		if q.TreeSize > 0 && r.pct(60) {
			q.LeafIndex = int64(r.u64() % uint64(q.TreeSize))
		}
		if r.pct(10) {
			q.LeafIndex = q.TreeSize
		}
	} else {
		switch r.n(6) {
		case 0:
			q.MtlHash = ref.LeafHash([]byte("never added"))
		case 1:
			q.MtlHash = []byte{1, 2, 3}
		default:
			q.MtlHash = ref.LeafHash(c.leaf(r, o.Map).LeafInput)
			if hs := c.w.leafs[o.String()]; len(hs) > 0 && r.pct(70) {
				q.MtlHash = hs[r.n(len(hs))]
			}
		}
	}
	c.Svc.LogInclusionProof(bg, q)
}

func (c *Client) opCons(r *rng) {
	l, o := c.anyLog(r)
	a, b := c.size(r, o), c.size(r, o)
	if a > b && b > 0 && r.pct(80) {
		a, b = b, a
	}
	if a <= 0 && r.pct(80) {
		a = 1 + int64(r.n(3))
	}
	c.Svc.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: l, FromSize: a, TreeSize: b})
}

func (c *Client) opGet(r *rng) {
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	k := c.key(r)
	if r.pct(8) {
		k = []byte(fmt.Sprintf("other-%d", r.n(50)))
	}
	c.Svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef(o, c.Key), Key: k, TreeSize: c.size(r, o)})
}

func (c *Client) opMapHead(r *rng) {
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	c.Svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mapRef(o, c.Key), TreeSize: c.size(r, o)})
}

// do runs a high-level operation and notes its calls.
func (c *Client) do(kind string, o Obj, f func(m *Macro) error) *Macro {
	m := &Macro{Kind: kind, Obj: o, Start: c.w.tick()}
	c.macro = m
	c.cur = kind + " " + o.String()
	m.Err = f(m)
	c.macro = nil
	m.Done = true
	m.End = c.w.tick()
	c.w.S.Logf("%s %s: err=%v calls=%d", kind, o, m.Err, len(m.Calls))
	return m
}

// opWait adds something and waits for it to be visible.
func (c *Client) opWait(r *rng) {
	w := c.w
	isMap := r.pct(50)
	o, ok := c.obj(r, isMap)
	if !ok {
		isMap = !isMap
		if o, ok = c.obj(r, isMap); !ok {
			return
		}
	}
	if !isMap {
		d := c.leaf(r, false)
		var head *pb.LogTreeHashResponse
		var acked bool
		m := c.do("wait", o, func(m *Macro) error {
			p, err := c.log(o).Add(bg, d)
			if err != nil {
				return err
			}
			acked = true
			if !w.lossless() {
				return nil
			}
			head, err = p.Wait(bg)
			return err
		})
		w.After = append(w.After, func(j *Judge) {
			if m.Err != nil {
				if !m.Faulted() && acked {
					w.Fail("wait", "Add(%q).Wait on %s failed without any fault: %v", d.LeafInput, o, m.Err)
				}
				return
			}
			if head == nil {
				return
			}
			lj := j.log(o, o.lt())
			pos, ok := lj.L.Index[string(ref.LeafHash(d.LeafInput))]
			if !ok || int64(pos) >= head.TreeSize || head.TreeSize > lj.L.Size() || !bytes.Equal(head.RootHash, lj.L.Roots[head.TreeSize]) {
				w.Fail("wait-result", "Add(%q).Wait on %s returned head %s; entry is at %d (%v) of %d", d.LeafInput, o, short(head), pos, ok, lj.L.Size())
			}
		})
		return
	}
	mut := c.mutation(r, o, []string{"set", "delete", "update"}[r.n(3)])
	var head *pb.MapTreeHashResponse
	var lh []byte
	m := c.do("wait", o, func(m *Macro) error {
		var p verifiable.MapUpdatePromise
		var err error
		switch mut.Action {
		case "set":
			p, err = c.vmap(o).Set(bg, mut.Key, mut.Value)
		case "delete":
			p, err = c.vmap(o).Delete(bg, mut.Key)
		default:
			p, err = c.vmap(o).Update(bg, mut.Key, mut.Value, mut.PreviousLeafHash)
		}
		if err != nil {
			return err
		}
		lh = p.LeafHash()
		if !w.lossless() {
			return nil
		}
		head, err = p.Wait(bg)
		return err
	})
	w.After = append(w.After, func(j *Judge) {
		if m.Err != nil {
			if !m.Faulted() && !m.Stale() && lh != nil {
				w.Fail("wait", "%s(%q).Wait on %s failed without any fault: %v", mut.Action, mut.Key, o, m.Err)
			}
			return
		}
		if head == nil {
			if w.lossless() && m.Err == nil {
				w.Fail("wait-result", "%s(%q).Wait on %s returned nothing and no error", mut.Action, mut.Key, o)
			}
			return
		}
		mj := j.objs[o]
		pos, ok := mj.Mut.L.Index[string(lh)]
		n := head.GetMutationLog().GetTreeSize()
		if !ok || int64(pos) >= n || !mj.goodMapHead(head) {
			w.Fail("wait-result", "%s(%q).Wait on %s returned %s; mutation is at %d (%v) of %d", mut.Action, mut.Key, o, short(head), pos, ok, mj.Mut.L.Size())
		}
	})
}

// lossless says whether an acknowledged mutation can be relied on to become visible.
func (w *World) lossless() bool {
	return !w.C.Batch || (w.C.Crash == 0 && w.C.StErr == 0 && w.C.StErrIn == 0 && w.C.PgErr == 0 && w.C.PgDrop == 0 && w.Crashes == 0)
}

func (c *Client) verLog(r *rng) (*verifiable.Log, Obj, pb.LogType) {
	l, o := c.anyLog(r)
	return &verifiable.Log{Log: l, Service: c.Svc}, o, l.LogType
}

// opFollow advances the client's verified head.
func (c *Client) opFollow(r *rng) {
	l, o, lt := c.verLog(r)
	c.follow(l, o, lt)
}

func (c *Client) follow(l *verifiable.Log, o Obj, lt pb.LogType) *pb.LogTreeHashResponse {
	w := c.w
	k := fmt.Sprint(o, lt)
	prev := c.prevLog[k]
	var h *pb.LogTreeHashResponse
	m := c.do("follow", o, func(m *Macro) (err error) {
		h, err = l.VerifiedLatestTreeHead(bg, prev)
		return
	})
	w.After = append(w.After, func(j *Judge) {
		if m.Err != nil {
			if !m.Faulted() && !m.Stale() {
				w.Fail("follow", "VerifiedLatestTreeHead(prev size %d) of %s/%d failed with honest servers: %v", prev.GetTreeSize(), o, lt, m.Err)
			}
			return
		}
		if h == nil {
			w.Fail("follow-result", "VerifiedLatestTreeHead of %s returned nothing", o)
			return
		}
		lj := j.log(o, lt)
		if h.TreeSize < prev.GetTreeSize() || h.TreeSize > lj.L.Size() || !rootEq(h.RootHash, lj.L.Roots[h.TreeSize]) {
			w.Fail("follow-result", "VerifiedLatestTreeHead(prev size %d) of %s/%d returned %s", prev.GetTreeSize(), o, lt, short(h))
		}
	})
	if m.Err == nil && h != nil && h.TreeSize > 0 {
		c.prevLog[k] = h
	}
	if m.Err != nil {
		return nil
	}
	return h
}

func (c *Client) opFollowMap(r *rng) {
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	c.followMap(o, r)
}

func (c *Client) followMap(o Obj, r *rng) *verifiable.MapTreeState {
	w := c.w
	prev := c.prevMap[o.String()]
	var st *verifiable.MapTreeState
	at := int64(0)
	if r != nil && r.pct(25) {
		if at = c.size(r, o); at <= 0 || at > 1<<20 {
			at = 1
		}
	}
	m := c.do("mfollow", o, func(m *Macro) (err error) {
		if at != 0 {
			st, err = c.vmap(o).VerifiedMapState(bg, prev, at)
		} else {
			st, err = c.vmap(o).VerifiedLatestMapState(bg, prev)
		}
		return
	})
	w.After = append(w.After, func(j *Judge) {
		mj := j.objs[o]
		if m.Err != nil {
			if !m.Faulted() && !m.Stale() && at == 0 {
				w.Fail("follow", "VerifiedLatestMapState(prev size %d) of %s failed with honest servers: %v", sizeOf(prev), o, m.Err)
			}
			if !m.Faulted() && !m.Stale() && at != 0 && mj.sizeSurely(m.Start) >= at {
				w.Fail("follow", "VerifiedMapState(prev size %d, %d) of %s failed with honest servers: %v", sizeOf(prev), at, o, m.Err)
			}
			return
		}
		if st == nil {
			if mj.sizeSurely(m.Start) > 0 && !m.Stale() {
				w.Fail("follow-result", "VerifiedMapState of %s returned nothing for a map that has mutations", o)
			}
			return
		}
		th := st.TreeHeadLogTreeHead
		bad := !mj.goodMapHead(st.MapTreeHead) || th == nil || th.TreeSize > mj.Head.L.Size() || th.TreeSize < st.TreeSize() || !rootEq(th.RootHash, mj.Head.L.Roots[th.TreeSize])
		if at == 0 && prev != nil && st.TreeSize() < prev.TreeSize() || at != 0 && st.TreeSize() != at {
			bad = true
		}
		if bad {
			w.Fail("follow-result", "verified map state of %s (prev size %d, asked %d) is wrong: %s / %s", o, sizeOf(prev), at, short(st.MapTreeHead), short(th))
		}
	})
	if m.Err == nil && st != nil && at == 0 {
		c.prevMap[o.String()] = st
	}
	if m.Err != nil {
		return nil
	}
	return st
}

func sizeOf(s *verifiable.MapTreeState) int64 {
	if s == nil || s.MapTreeHead == nil {
		return -1
	}
	return s.TreeSize()
}

func rootEq(a, b []byte) bool { return bytes.Equal(a, b) }

// opAudit audits a log between two of its states.
func (c *Client) opAudit(r *rng) {
	w := c.w
	l, o, lt := c.verLog(r)
	h := c.follow(l, o, lt)
	if h == nil || h.TreeSize == 0 {
		return
	}
	var prev *pb.LogTreeHashResponse
	type seen struct {
		idx int64
		d   *pb.LeafData
	}
	var got []seen
	pm := int64(0)
	if r.pct(75) {
		pm = 1 + int64(r.n(int(h.TreeSize)))
	}
	m := c.do("audit", o, func(m *Macro) (err error) {
		if pm > 0 {
			if prev, err = l.TreeHead(bg, pm); err != nil {
				return err
			}
		}
		return l.VerifyEntries(bg, prev, h, func(ctx context.Context, idx int64, e *pb.LeafData) error {
			got = append(got, seen{idx, proto.Clone(e).(*pb.LeafData)})
			return nil
		})
	})
	w.After = append(w.After, func(j *Judge) {
		lj := j.log(o, lt)
		if m.Err != nil {
			if !m.Faulted() && !m.Stale() {
				w.Fail("audit", "audit of %s/%d from %d to %d failed on an honest server: %v", o, lt, pm, h.TreeSize, m.Err)
			}
			return
		}
		want := h.TreeSize - pm
		if int64(len(got)) != want {
			w.Fail("audit-calls", "audit of %s/%d from %d to %d called back %d times", o, lt, pm, h.TreeSize, len(got))
			return
		}
		for i, g := range got {
			at := pm + int64(i)
			if g.idx != at || at >= int64(len(lj.E)) || !j.sameEntry(c.Key, o, lt, g.d, lj.E[at]) {
				w.Fail("audit-calls", "audit of %s/%d from %d to %d: call %d is index %d entry %q, want %d", o, lt, pm, h.TreeSize, i, g.idx, g.d.LeafInput, at)
				return
			}
		}
	})
}

// opAuditMap audits a whole map.
func (c *Client) opAuditMap(r *rng) {
	w := c.w
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	var prev *verifiable.MapTreeState
	if r.pct(40) {
		prev = c.prevMap[o.String()]
	}
	st := c.followMap(o, nil)
	if st == nil {
		return
	}
	type seen struct {
		idx int64
		key []byte
		val *pb.LeafData
	}
	var got []seen
	var vals []*pb.LeafData
	m := c.do("maudit", o, func(m *Macro) error {
		return c.vmap(o).VerifyMap(bg, prev, st, func(ctx context.Context, d *pb.LeafData) error {
			vals = append(vals, clone(d).(*pb.LeafData))
			if w.C.JSON && !w.C.Hostile {
				return verifiable.ValidateJSONLeafData(ctx, d)
			}
			return nil
		}, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
			got = append(got, seen{idx, append([]byte(nil), key...), clone(v).(*pb.LeafData)})
			return nil
		})
	})
	ps := int64(0)
	if prev != nil {
		ps = prev.TreeHeadLogTreeHead.TreeSize
	}
	w.After = append(w.After, func(j *Judge) {
		mj := j.objs[o]
		if m.Err != nil {
			if !m.Faulted() && !m.Stale() {
				w.Fail("maudit", "audit of %s (prev %d) at size %d failed on an honest server: %v", o, ps, st.TreeSize(), m.Err)
			}
			return
		}
		n := st.TreeHeadLogTreeHead.TreeSize
		if n <= ps {
			return // nothing to do
		}
		// The audit may have gone further than asked for.
		leafs, k := 0, 0
		for i := 0; leafs < len(vals) || int64(i) < n || k < len(got); i++ {
			if i >= len(mj.Muts) {
				w.Fail("maudit-calls", "audit of %s at size %d reported %d values and %d changes, more than there are", o, n, len(vals), len(got))
				return
			}
			mu := mj.Muts[i]
			if mu.Value != nil {
				if leafs >= len(vals) && int64(i) >= n {
					break
				}
				if leafs >= len(vals) || !bytes.Equal(vals[leafs].GetLeafInput(), mu.Value.GetLeafInput()) {
					w.Fail("maudit-calls", "audit of %s at size %d: value %d is not that of mutation %d", o, n, leafs, i)
					return
				}
				leafs++
			}
			if !mj.States[i+1].Took {
				continue
			}
			if k >= len(got) {
				if int64(i) >= n {
					break
				}
				w.Fail("maudit-calls", "audit of %s: mutation %d changed the map but was not reported", o, i)
				return
			}
			g := got[k]
			if g.idx != int64(i) || !bytes.Equal(g.key, mu.Key) || !bytes.Equal(g.val.GetLeafInput(), mu.Value.GetLeafInput()) {
				w.Fail("maudit-calls", "audit of %s reported index %d key %q value %q; the next change is %d key %q value %q", o, g.idx, g.key, g.val.GetLeafInput(), i, mu.Key, mu.Value.GetLeafInput())
				return
			}
			k++
		}
		if k != len(got) {
			w.Fail("maudit-calls", "audit of %s reported a change at index %d which changed nothing", o, got[k].idx)
		}
	})
}

func (c *Client) opVerifiedGet(r *rng) {
	w := c.w
	o, ok := c.obj(r, true)
	if !ok {
		return
	}
	st := c.prevMap[o.String()]
	if st == nil {
		if st = c.followMap(o, nil); st == nil {
			return
		}
	}
	k := c.key(r)
	var v *pb.LeafData
	m := c.do("vget", o, func(m *Macro) (err error) {
		v, err = c.vmap(o).VerifiedGet(bg, k, st)
		return
	})
	w.After = append(w.After, func(j *Judge) {
		mj := j.objs[o]
		if m.Err != nil {
			if !m.Faulted() && !m.Stale() {
				w.Fail("vget", "VerifiedGet(%q) of %s at size %d failed: %v", k, o, st.TreeSize(), m.Err)
			}
			return
		}
		n := st.TreeSize()
		if n <= 0 || n >= int64(len(mj.States)) {
			w.Fail("vget-result", "VerifiedGet(%q) of %s at size %d returned %q", k, o, n, v.GetLeafInput())
		} else if !j.sameValue(c.Key, o, mj.States[n], k, v) && !j.otherData(mj, mj.States[n], ref.KeyHash(k), v) {
			// (That the data may be another mutation's is reported of the plain gets.)
			w.Fail("vget-result", "VerifiedGet(%q) of %s at size %d returned %q", k, o, n, v.GetLeafInput())
		}
	})
}

func (c *Client) opVerifyInclusion(r *rng) {
	w := c.w
	l, o, lt := c.verLog(r)
	h := c.prevLog[fmt.Sprint(o, lt)]
	if h == nil || h.TreeSize == 0 {
		if h = c.follow(l, o, lt); h == nil || h.TreeSize == 0 {
			return
		}
	}
	leaf := ref.LeafHash(c.leaf(r, o.Map).LeafInput)
	if hs := c.w.leafs[o.String()]; len(hs) > 0 && r.pct(70) {
		leaf = hs[r.n(len(hs))]
	}
	m := c.do("vincl", o, func(m *Macro) error { return l.VerifyInclusion(bg, h, leaf) })
	w.After = append(w.After, func(j *Judge) {
		lj := j.log(o, lt)
		pos, ok := lj.L.Index[string(leaf)]
		in := ok && int64(pos) < h.TreeSize
		if m.Err == nil && !in {
			w.Fail("vincl-accept", "VerifyInclusion of an entry that is not in the first %d of %s/%d succeeded", h.TreeSize, o, lt)
		}
		if m.Err != nil && in && !m.Faulted() && !m.Stale() {
			w.Fail("vincl", "VerifyInclusion of entry %d in %s/%d at size %d failed: %v", pos, o, lt, h.TreeSize, m.Err)
		}
	})
}
