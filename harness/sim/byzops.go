package sim

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"verifsim/ref"
	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// ByzProfile draws a configuration.
func ByzProfile(g *Gen, onlyMaps bool) ByzCfg {
	c := ByzCfg{Map: onlyMaps, Forks: 1 + g.N(4), Clients: 1 + g.N(3), Ops: 6 + g.N(14), Pool: 2 + g.N(6)}
	c.Size = Pick(g, 3, 5, 1, 2, 4, 7, 8, 9, 12, 16, 17, 25)
	if !onlyMaps && g.Pct(4) {
		c.Size = Pick(g, 64, 130, 257, 501, 600, 1003)
	}
	c.REST = Pick(g, 0, 100, 30)
	c.Lie = Pick(g, 1500, 0, 300, 700, 3000, 6000)
	c.Heavy = g.Pct(25)
	if c.Lie > 0 {
		c.Wire = Pick(g, 0, 500, 2000)
	}
	if g.Pct(30) {
		c.Drop = 300
	}
	if g.Pct(40) {
		c.Delay = 2000
	}
	c.Cheat = g.Pct(50)
	return c
}

func (c *ByzCfg) String() string {
	return fmt.Sprintf("lying server: %d versions of %d entries, %d client(s) x %d ops (%d%% REST), maps %v, lies %d, http damage %d, loss %d per 10000", c.Forks, c.Size, c.Clients, c.Ops, c.REST, c.Map, c.Lie, c.Wire, c.Drop)
}

// Run executes the run.
func (w *Byz) Run() {
	s := w.S
	w.Probe = map[string]int64{}
	w.claimed = map[int64][][]byte{}
	w.old = map[string][]proto.Message{}
	w.heads = map[string][]*pb.LogTreeHashResponse{}
	w.makeContent()
	w.pubLog = int64(s.Choose("cfg", w.C.Size+1))
	w.pubMap = int64(s.Choose("cfg", len(w.Maps[0].Muts)+1))
	for i := 0; i < w.C.Clients; i++ {
		c := &byzClient{w: w, name: fmt.Sprintf("c%d", i), logs: map[string]*pb.LogTreeHashResponse{}}
		c.rest = s.Choose("cfg", 100) < w.C.REST
		if c.rest {
			c.svc = (&httprest.Client{BaseURL: "http://server", HTTPClient: &http.Client{Transport: c}}).MustDial()
		} else {
			c.svc = &serviceFunc{f: c.call}
		}
		w.clients = append(w.clients, c)
		s.Go(c.name, nil, func(t *rt.Task) {
			for k := 0; k < w.C.Ops; k++ {
				v := s.Draw("ops." + c.name)
				if v == 0 {
					continue
				}
				c.op(newRng(v))
			}
			c.done = true
		})
	}
	done := func() bool {
		for _, c := range w.clients {
			if !c.done {
				return false
			}
		}
		return true
	}
	start := s.Step
	for !done() && s.Step-start < 60000 && s.Elapsed() < 1000000*time.Hour {
		if rs := s.Runnable(); len(rs) > 0 {
			s.Release(s.Pick(rs))
			continue
		}
		if done() || len(s.Fatals) > 0 {
			break
		}
		if !s.WaitEvent(2000 * time.Hour) {
			break
		}
	}
	for _, f := range s.Fatals {
		w.fail("client-panic", "%s", f)
	}
	if !done() && len(s.Fatals) == 0 {
		for _, c := range w.clients {
			if !c.done && !strings.HasPrefix(c.cur, "block") {
				w.fail("byz-stuck", "client %s never finished %s; parked: %s", c.name, c.cur, strings.Join(s.Points(), " "))
				break
			}
		}
	}
	for _, v := range w.Viol {
		s.Logf("VIOLATION %s: %s", v.Kind, firstLine(v.Msg))
	}
}

func (c *byzClient) begin(f string, a ...any) {
	c.cur = fmt.Sprintf(f, a...)
	c.lied = false
	c.gen = c.w.gen
	c.w.S.Logf("op %s", c.cur)
	c.w.Probe["byz."+strings.Fields(c.cur)[0]]++
}

func (c *byzClient) end(err error) {
	k := "accepted"
	if err != nil {
		k = "refused"
	}
	if c.lied {
		k += ".lied"
	}
	c.w.Probe["byz."+strings.Fields(c.cur)[0]+"."+k]++
	c.w.S.Logf("%s: err=%v lied=%v", c.cur, err, c.lied)
}

func hd(h *pb.LogTreeHashResponse) string {
	if h == nil {
		return "none"
	}
	return fmt.Sprintf("%d/%.8x", h.TreeSize, h.RootHash)
}

func (c *byzClient) acct() *verifiable.Account {
	return (&verifiable.Client{Service: c.svc}).Account("1", "")
}
func (c *byzClient) vmap() *verifiable.Map { return c.acct().VerifiableMap("m") }

// object picks one of the logs.
func (c *byzClient) object(r *rng) (string, *verifiable.Log, func(f int) *blog) {
	w := c.w
	k := r.n(6)
	if w.C.Map {
		k = 4 + r.n(2)
	}
	switch k {
	case 4:
		return "mutlog", c.vmap().MutationLog(), func(f int) *blog { return w.Maps[f%len(w.Maps)].Mut }
	case 5:
		return "thlog", c.vmap().TreeHeadLog(), func(f int) *blog { return w.Maps[f%len(w.Maps)].TH }
	}
	return "log", c.acct().VerifiableLog("l"), func(f int) *blog { return w.Logs[f%len(w.Logs)] }
}

func (c *byzClient) pub(o string) int64 {
	if o == "log" {
		return c.w.pubLog
	}
	return c.w.pubMap
}

func (c *byzClient) fork(o string) int {
	if o == "log" {
		return c.w.curLog
	}
	return c.w.curMap
}

// of says whether a head belongs to a version of the log, and to what it publishes.
func (c *byzClient) of(o string, b *blog, h *pb.LogTreeHashResponse) bool {
	return h == nil || h.TreeSize >= 1 && h.TreeSize <= min(c.pub(o), b.L.Size()) && bytes.Equal(h.RootHash, b.L.Roots[h.TreeSize])
}

// aHead picks a head the client trusts, perhaps one that another client told it.
func (c *byzClient) aHead(r *rng, o string) *pb.LogTreeHashResponse {
	w := c.w
	hs := w.heads[o]
	if r.pct(30) && len(hs) > 0 {
		return hs[r.n(len(hs))]
	}
	return c.logs[o]
}

func (c *byzClient) learn(o string, h *pb.LogTreeHashResponse) {
	if h == nil {
		return
	}
	if len(c.w.heads[o]) < 40 {
		c.w.heads[o] = append(c.w.heads[o], clone(h).(*pb.LogTreeHashResponse))
	}
}

func (c *byzClient) op(r *rng) {
	k := r.n(100)
	if c.w.C.Map {
		switch {
		case k < 25:
			c.opMapState(r)
		case k < 60:
			c.opMapGet(r)
		case k < 85:
			c.opMapAudit(r)
		default:
			c.opLog(r)
		}
		return
	}
	switch {
	case k < 6:
		c.opMapState(r)
	case k < 10:
		c.opMapGet(r)
	default:
		c.opLog(r)
	}
}

func (c *byzClient) opLog(r *rng) {
	switch k := r.n(100); {
	case k < 25:
		c.opHead(r)
	case k < 55:
		c.opIncl(r)
	case k < 67:
		c.opCons(r)
	case k < 77:
		c.opSupplied(r)
	case k < 96:
		c.opEntries(r)
	case k < 98:
		c.opBlock(r)
	default:
		c.opPlain(r)
	}
}

// goodHead judges a head that the client accepted.
func (c *byzClient) goodHead(o string, prev, h *pb.LogTreeHashResponse, want int64) {
	w := c.w
	switch {
	case h == nil:
		w.fail("byz-head", "%s succeeded without a head", c.cur)
	case want != 0 && h.TreeSize != want:
		w.fail("byz-head", "%s gave a head of size %d, not %d", c.cur, h.TreeSize, want)
	case prev != nil && !w.T.consistent(prev, h):
		w.fail("byz-head", "%s accepted head %s of %s although it contradicts the trusted head %s", c.cur, hd(h), o, hd(prev))
	}
}

func (c *byzClient) opHead(r *rng) {
	w := c.w
	o, l, at := c.object(r)
	prev := c.aHead(r, o)
	if r.pct(15) {
		prev = nil
	}
	want := int64(0)
	switch r.n(4) {
	case 0:
		want = int64(r.n(w.C.Size + 3))
		if want > 0 && r.pct(10) {
			want = -want
		}
	}
	f := c.fork(o)
	pub := min(c.pub(o), at(f).L.Size())
	ours := c.of(o, at(f), prev)
	c.begin("head %s of %s from %s", fmt.Sprint(want), o, hd(prev))
	var h *pb.LogTreeHashResponse
	var err error
	if want == 0 {
		h, err = l.VerifiedLatestTreeHead(bg, clone(prev).(*pb.LogTreeHashResponse))
	} else {
		h, err = l.VerifiedTreeHead(bg, clone(prev).(*pb.LogTreeHashResponse), want)
	}
	c.end(err)
	if err != nil {
		if !c.lied && c.gen == c.w.gen && ours && pub > 0 && want >= 0 && want <= pub {
			w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
		}
		return
	}
	c.goodHead(o, prev, h, want)
	if h != nil && want == 0 && prev != nil && h.TreeSize < prev.TreeSize {
		w.fail("byz-head", "%s went back to %s", c.cur, hd(h))
	}
	if h == nil {
		return
	}
	if want == 0 {
		c.logs[o] = h
	}
	c.learn(o, h)
}

// leafFor picks a leaf hash to ask about.
func (c *byzClient) leafFor(r *rng, at func(int) *blog, h *pb.LogTreeHashResponse) []byte {
	w := c.w
	if h != nil && r.pct(30) {
		// Anything below what the head claims to be the root.
		n := h.RootHash
		for {
			k, ok := w.T.kids[string(n)]
			if !ok || r.pct(5) {
				break
			}
			n = k[r.n(2)]
		}
		return n
	}
	b := at(r.n(w.C.Forks))
	switch r.n(8) {
	case 0:
		return w.T.nodes[r.n(len(w.T.nodes))]
	case 1:
		return ref.LeafHash([]byte("nobody has this"))
	case 2:
		b = at(c.w.curLog)
	}
	if b.L.Size() == 0 {
		return ref.LeafHash(nil)
	}
	return b.L.Hashes[r.n(len(b.L.Hashes))]
}

func (c *byzClient) opIncl(r *rng) {
	w := c.w
	o, l, at := c.object(r)
	h := c.aHead(r, o)
	if h == nil || len(w.T.nodes) == 0 {
		c.opHead(r)
		return
	}
	leaf := c.leafFor(r, at, h)
	f := c.fork(o)
	b := at(f)
	ours := c.of(o, b, h)
	c.begin("inclusion of %.8x in %s %s", leaf, o, hd(h))
	err := l.VerifyInclusion(bg, clone(h).(*pb.LogTreeHashResponse), leaf)
	c.end(err)
	if err == nil && !w.T.has(h, leaf) {
		w.fail("byz-inclusion", "%s succeeded although the head does not commit to it", c.cur)
	}
	if i, ok := b.L.Index[string(leaf)]; err != nil && ok && int64(i) < h.TreeSize && !c.lied && ours && c.gen == c.w.gen {
		w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
	}
}

func (c *byzClient) opCons(r *rng) {
	w := c.w
	o, l, at := c.object(r)
	x, y := c.aHead(r, o), c.aHead(r, o)
	if hs := w.heads[o]; len(hs) > 0 && r.pct(60) {
		y = hs[r.n(len(hs))]
	}
	if x == nil || y == nil {
		c.opHead(r)
		return
	}
	f := c.fork(o)
	b := at(f)
	ours := c.of(o, b, x) && c.of(o, b, y)
	c.begin("consistency of %s %s and %s", o, hd(x), hd(y))
	err := l.VerifyConsistency(bg, x, y)
	c.end(err)
	if err == nil && !w.T.consistent(x, y) {
		w.fail("byz-consistency", "%s succeeded although neither is a prefix of the other", c.cur)
	}
	if err != nil && !c.lied && ours && c.gen == c.w.gen {
		w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
	}
}

func (c *byzClient) opSupplied(r *rng) {
	w := c.w
	o, l, at := c.object(r)
	prev := c.aHead(r, o)
	leaf := c.leafFor(r, at, prev)
	b := at(r.n(w.C.Forks))
	if b.L.Size() == 0 {
		return
	}
	n := int64(1 + r.n(int(b.L.Size())))
	i := int64(r.n(int(n)))
	if k, ok := b.L.Index[string(leaf)]; ok && int64(k) < n {
		i = int64(k)
	}
	p := b.incl(i, n)
	c.begin("supplied %d/%d for %.8x in %s from %s", i, n, leaf, o, hd(prev))
	if r.pct(40) {
		c.lied = true
		p = clone(p).(*pb.LogInclusionProofResponse)
		w.tamper(p, 1+r.n(2))
	}
	ts := p.TreeSize
	h, err := l.VerifySuppliedInclusionProof(bg, clone(prev).(*pb.LogTreeHashResponse), p, leaf)
	c.end(err)
	if err != nil {
		return
	}
	c.goodHead(o, prev, h, ts)
	if h != nil && !w.T.has(h, leaf) {
		w.fail("byz-inclusion", "%s succeeded although head %s does not commit to it", c.cur, hd(h))
	}
	c.learn(o, h)
}

func (c *byzClient) opEntries(r *rng) {
	w := c.w
	o, l, at := c.object(r)
	h := c.aHead(r, o)
	if h == nil {
		c.opHead(r)
		return
	}
	var prev *pb.LogTreeHashResponse
	if hs := w.heads[o]; len(hs) > 0 && r.pct(60) {
		prev = hs[r.n(len(hs))]
	}
	f := c.fork(o)
	b := at(f)
	ours := c.of(o, b, h) && c.of(o, b, prev)
	type seen struct {
		idx int64
		e   *pb.LeafData
	}
	var got []seen
	c.begin("audit of %s from %s to %s", o, hd(prev), hd(h))
	err := l.VerifyEntries(bg, clone(prev).(*pb.LogTreeHashResponse), clone(h).(*pb.LogTreeHashResponse), func(ctx context.Context, idx int64, e *pb.LeafData) error {
		got = append(got, seen{idx, clone(e).(*pb.LeafData)})
		return nil
	})
	c.end(err)
	if err != nil {
		if !c.lied && ours && c.gen == c.w.gen {
			w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
		}
		return
	}
	p := int64(0)
	if prev != nil && prev.TreeSize > 0 {
		p = prev.TreeSize
	}
	if h.TreeSize <= p || prev != nil && h.TreeSize <= prev.TreeSize {
		if len(got) > 0 {
			w.fail("byz-audit", "%s handed over %d entries of none", c.cur, len(got))
		}
		return
	}
	if p > 0 && !w.T.consistent(prev, h) {
		w.fail("byz-audit", "%s succeeded although the heads contradict each other", c.cur)
		return
	}
	vec := w.T.expand(h.RootHash, h.TreeSize)
	if int64(len(got)) != h.TreeSize-p || int64(len(vec)) != h.TreeSize {
		w.fail("byz-audit", "%s succeeded with %d entries", c.cur, len(got))
		return
	}
	for i, g := range got {
		k := p + int64(i)
		if g.idx != k || !bytes.Equal(ref.LeafHash(g.e.GetLeafInput()), vec[k]) {
			w.fail("byz-audit", "%s succeeded with entry %q at index %d, which the head does not commit to at %d", c.cur, g.e.GetLeafInput(), g.idx, k)
			return
		}
	}
}

// opBlock waits for a leaf.
func (c *byzClient) opBlock(r *rng) {
	w := c.w
	o, l, at := c.object(r)
	b := at(0)
	if b.L.Size() == 0 || w.C.Lie > 3000 {
		return
	}
	leaf := b.L.Hashes[0]
	if c.pub(o) < 1 || c.fork(o) != 0 {
		return
	}
	c.begin("block for %.8x in %s", leaf, o)
	h, err := l.BlockUntilPresent(bg, leaf)
	c.end(err)
	if err == nil && (h == nil || !w.T.has(h, leaf)) {
		w.fail("byz-inclusion", "%s returned head %s, which does not commit to it", c.cur, hd(h))
	}
}

// opPlain uses what verifies nothing: it only must not crash.
func (c *byzClient) opPlain(r *rng) {
	_, l, _ := c.object(r)
	c.begin("plain")
	_, err := l.Entry(bg, int64(r.n(c.w.C.Size+1)))
	n := 0
	for range l.Entries(bg, 0, int64(c.w.C.Size)) {
		n++
	}
	l.InclusionProofByIndex(bg, int64(c.w.C.Size), 0)
	l.Add(bg, &pb.LeafData{LeafInput: []byte("x")})
	c.vmap().Set(bg, []byte("k"), &pb.LeafData{LeafInput: []byte("x")})
	c.vmap().Get(bg, []byte("k"), 0)
	c.end(err)
}

// ---- maps

func st(s *verifiable.MapTreeState) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%d/%.8x(mut %s, heads %s)", s.MapTreeHead.GetMutationLog().GetTreeSize(), s.MapTreeHead.GetRootHash(), hd(s.MapTreeHead.GetMutationLog()), hd(s.TreeHeadLogTreeHead))
}

func cloneState(s *verifiable.MapTreeState) *verifiable.MapTreeState {
	if s == nil {
		return nil
	}
	return &verifiable.MapTreeState{MapTreeHead: clone(s.MapTreeHead).(*pb.MapTreeHashResponse), TreeHeadLogTreeHead: clone(s.TreeHeadLogTreeHead).(*pb.LogTreeHashResponse)}
}

// stateOf says whether a map state belongs to a version of the map, as far as it is published.
func (c *byzClient) stateOf(m *bmap, s *verifiable.MapTreeState) bool {
	if s == nil {
		return true
	}
	n := s.MapTreeHead.GetMutationLog().GetTreeSize()
	return n >= 1 && n <= min(c.w.pubMap, m.Mut.L.Size()) && proto.Equal(s.MapTreeHead, m.Heads[n]) && c.of("thlog", m.TH, s.TreeHeadLogTreeHead)
}

func (c *byzClient) aState(r *rng) *verifiable.MapTreeState {
	if ms := c.w.mstates; r.pct(30) && len(ms) > 0 {
		return cloneState(ms[r.n(len(ms))])
	}
	return cloneState(c.mp)
}

// plainTH says whether the version publishes in its tree-head log what it says elsewhere.
func (m *bmap) plainTH() bool {
	switch m.Lies {
	case "root lied about", "mutation log lied about", "head of another size", "two roots":
		return false
	}
	return true
}

func (c *byzClient) opMapState(r *rng) *verifiable.MapTreeState {
	w := c.w
	prev := c.aState(r)
	if r.pct(20) {
		prev = nil
	}
	want := int64(0)
	if r.n(3) == 0 {
		want = int64(r.n(len(w.Maps[0].Muts) + 2))
	}
	latest := want == 0 && r.pct(60)
	f := w.curMap
	m := w.Maps[f]
	pub := min(w.pubMap, m.Mut.L.Size())
	ours := c.stateOf(m, prev)
	c.prev = prev
	defer func() { c.prev = nil }()
	c.begin("mapstate %d from %s", want, st(prev))
	var s *verifiable.MapTreeState
	var err error
	if latest {
		s, err = c.vmap().VerifiedLatestMapState(bg, cloneState(prev))
	} else {
		s, err = c.vmap().VerifiedMapState(bg, cloneState(prev), want)
	}
	c.end(err)
	if err != nil {
		if !c.lied && c.gen == w.gen && ours && pub > 0 && want <= pub && m.plainTH() {
			w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
		}
		return nil
	}
	if s == nil {
		if prev != nil || want != 0 {
			w.fail("byz-state", "%s succeeded without a state", c.cur)
		}
		return nil
	}
	mh, th := s.MapTreeHead, s.TreeHeadLogTreeHead
	ml := mh.GetMutationLog()
	bad := ""
	switch {
	case mh == nil || ml == nil || th == nil:
		bad = "it is incomplete"
	case want != 0 && ml.TreeSize != want:
		bad = "it has another size"
	case !w.T.has(th, ref.LeafHash(docHash(mh))):
		bad = "the tree-head log does not commit to it"
	case prev == nil:
	case latest && ml.TreeSize < prev.TreeSize():
		bad = "it is older"
	case !w.T.consistent(prev.MapTreeHead.MutationLog, ml):
		bad = "the mutation log contradicts the trusted one"
	case ml.TreeSize == prev.TreeSize() && !bytes.Equal(mh.RootHash, prev.MapTreeHead.RootHash):
		bad = "the same mutations have another root"
	case !w.T.consistent(prev.TreeHeadLogTreeHead, th):
		bad = "the tree-head log contradicts the trusted one"
	}
	if bad != "" {
		w.fail("byz-state", "%s accepted %s although %s", c.cur, st(s), bad)
		return nil
	}
	if latest {
		c.mp = s
	}
	if len(w.mstates) < 30 {
		w.mstates = append(w.mstates, cloneState(s))
	}
	return s
}

func (c *byzClient) opMapGet(r *rng) {
	w := c.w
	s := c.aState(r)
	if s == nil {
		if s = c.opMapState(r); s == nil {
			return
		}
	}
	f := w.curMap
	m := w.Maps[f]
	key := []byte("unheard of")
	if x := w.Maps[r.n(len(w.Maps))]; len(x.Muts) > 0 && r.pct(85) {
		key = x.Muts[r.n(len(x.Muts))].Key
	}
	ours := c.stateOf(m, s)
	c.begin("mapget %q at %s", key, st(s))
	v, err := c.vmap().VerifiedGet(bg, key, s)
	c.end(err)
	if err != nil {
		if !c.lied && c.gen == w.gen && ours {
			w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
		}
		return
	}
	kh := ref.KeyHash(key)
	if x := w.T.states[string(s.MapTreeHead.RootHash)]; x == nil || !bytes.Equal(x.Leaf(&kh), ref.LeafHash(v.GetLeafInput())) {
		w.fail("byz-value", "%s returned %q, which the root does not commit to", c.cur, v.GetLeafInput())
	}
}

func (c *byzClient) opMapAudit(r *rng) {
	w := c.w
	s := c.aState(r)
	if s == nil || r.pct(30) {
		if x := c.opMapState(r); x != nil {
			s = x
		}
	}
	if s == nil {
		return
	}
	var prev *verifiable.MapTreeState
	if ms := w.mstates; len(ms) > 0 && r.pct(40) {
		prev = cloneState(ms[r.n(len(ms))])
	}
	f := w.curMap
	m := w.Maps[f]
	ours := c.stateOf(m, s) && c.stateOf(m, prev)
	type seen struct {
		idx      int64
		key, val []byte
	}
	var got []seen
	c.begin("mapaudit from %s to %s", st(prev), st(s))
	err := c.vmap().VerifyMap(bg, cloneState(prev), cloneState(s), func(ctx context.Context, d *pb.LeafData) error { return nil }, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
		got = append(got, seen{idx, append([]byte(nil), key...), append([]byte(nil), v.GetLeafInput()...)})
		return nil
	})
	c.end(err)
	if err != nil {
		if !c.lied && c.gen == w.gen && ours && m.Lies == "" {
			w.fail("byz-refused", "%s failed although the server did not lie: %v", c.cur, err)
		}
		return
	}
	from, to := int64(0), s.TreeHeadLogTreeHead.GetTreeSize()
	if prev != nil {
		from = prev.TreeHeadLogTreeHead.GetTreeSize()
	}
	if from < 0 {
		from = 0
	}
	if to <= from {
		return
	}
	bad := func(f string, a ...any) {
		w.fail("byz-audit", "%s succeeded although "+f, append([]any{c.cur}, a...)...)
	}
	if prev != nil && from > 0 && !w.T.consistent(prev.TreeHeadLogTreeHead, s.TreeHeadLogTreeHead) {
		bad("the tree-head logs contradict each other")
		return
	}
	vec := w.T.expand(s.TreeHeadLogTreeHead.RootHash, to)
	if int64(len(vec)) != to {
		bad("nobody can know the tree-head log")
		return
	}
	var hs []*pb.MapTreeHashResponse
	var big *pb.LogTreeHashResponse
	for i := from; i < to; i++ {
		es := w.T.leaf[string(vec[i])]
		if len(es) == 0 {
			bad("nobody can know entry %d of the tree-head log", i)
			return
		}
		var h pb.MapTreeHashResponse
		if json.Unmarshal(es[0].ExtraData, &h) != nil || h.MutationLog == nil {
			bad("entry %d of the tree-head log is no map head", i)
			return
		}
		hs = append(hs, &h)
		if big == nil || h.MutationLog.TreeSize > big.TreeSize {
			big = h.MutationLog
		}
	}
	mv := w.T.expand(big.RootHash, big.TreeSize)
	if int64(len(mv)) != big.TreeSize {
		bad("nobody can know the mutation log %s", hd(big))
		return
	}
	states := []*ref.State{ref.Empty()}
	var muts []*pb.MapMutation
	for i, x := range mv {
		es := w.T.leaf[string(x)]
		var mu pb.MapMutation
		if len(es) == 0 || json.Unmarshal(es[0].ExtraData, &mu) != nil {
			bad("nobody can know mutation %d", i)
			return
		}
		ns, ok := step(states[i], &mu)
		if !ok {
			bad("mutation %d has action %q", i, mu.Action)
			return
		}
		states = append(states, ns)
		muts = append(muts, &mu)
	}
	for i, h := range hs {
		n := h.MutationLog.TreeSize
		if n < 1 || n > big.TreeSize || !w.T.consistent(h.MutationLog, big) {
			bad("the mutation log of entry %d of the tree-head log, %s, contradicts the one of another", from+int64(i), hd(h.MutationLog))
			return
		}
		if !bytes.Equal(states[n].Root, h.RootHash) {
			bad("entry %d of the tree-head log states root %.8x, not %.8x as the first %d mutations give", from+int64(i), h.RootHash, states[n].Root, n)
			return
		}
	}
	k := 0
	for i, mu := range muts {
		if !states[i+1].Took {
			continue
		}
		if k >= len(got) || got[k].idx != int64(i) || !bytes.Equal(got[k].key, mu.Key) || !bytes.Equal(got[k].val, mu.Value.GetLeafInput()) {
			g := seen{idx: -1}
			if k < len(got) {
				g = got[k]
			}
			bad("change %d of key %q to %q was reported as %d %q %q", i, mu.Key, mu.Value.GetLeafInput(), g.idx, g.key, g.val)
			return
		}
		k++
	}
	for ; k < len(got); k++ {
		if got[k].idx < int64(len(muts)) {
			bad("a change at index %d was reported that is none", got[k].idx)
			return
		}
	}
}
