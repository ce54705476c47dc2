package sim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"verifsim/ref"
	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// ByzCfg configures a world in which real client code talks to a server that lies.
type ByzCfg struct {
	Map     bool // mostly map operations
	Size    int
	Forks   int
	Clients int
	Ops     int
	REST    int // of 100 clients
	Lie     int // per 10000 answers
	Wire    int // damage of REST bodies, per 10000
	Drop    int
	Delay   int
	Pool    int // alphabet of keys and values
	Cheat   bool
	Heavy   bool // several lies per answer
}

// Byz is one such world.
type Byz struct {
	S       *rt.Sim
	C       ByzCfg
	T       *truth
	Logs    []*blog
	Maps    []*bmap
	curLog  int
	curMap  int
	pubLog  int64
	pubMap  int64
	old     map[string][]proto.Message
	claimed map[int64][][]byte
	Viol    []Violation
	Probe   map[string]int64
	clients []*byzClient
	story   int
	victim  *byzClient
	gen     int                                  // how often the server changed its mind
	heads   map[string][]*pb.LogTreeHashResponse // gossip
	mstates []*verifiable.MapTreeState
}

func (w *Byz) fail(kind, f string, a ...any) {
	if len(w.Viol) < 20 {
		w.Viol = append(w.Viol, Violation{kind, fmt.Sprintf(f, a...)})
	}
}

func (w *Byz) n(k int) int {
	if k <= 1 {
		return 0
	}
	k = min(k, 1<<30)
	return w.S.Choose("byz", k)
}

// ---- content

func (w *Byz) makeContent() {
	g := &Gen{S: w.S}
	t := newTruth()
	w.T = t
	c := &w.C
	uniq := 0
	entry := func() *pb.LeafData {
		uniq++
		return &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", uniq)), ExtraData: []byte(fmt.Sprintf("x%d", uniq))}
	}
	var base []*pb.LeafData
	for i := 0; i < c.Size; i++ {
		base = append(base, entry())
	}
	w.Logs = append(w.Logs, t.newLog(base))
	for f := 1; f < c.Forks; f++ {
		from := append([]*pb.LeafData(nil), w.Logs[g.N(len(w.Logs))].E...)
		if len(from) == 0 {
			from = append(from, entry())
		}
		i := g.N(len(from))
		switch g.N(6) {
		case 0: // one entry replaced
			from[i] = entry()
		case 1: // all after it differ
			for k := i; k < len(from); k++ {
				from[k] = entry()
			}
		case 2: // one removed
			from = append(from[:i:i], from[i+1:]...)
		case 3: // two exchanged
			k := g.N(len(from))
			from[i], from[k] = from[k], from[i]
		case 4: // one more
			from = append(from[:i:i], append([]*pb.LeafData{entry()}, from[i:]...)...)
		case 5: // one repeated
			from = append(from, from[i])
		}
		w.Logs = append(w.Logs, t.newLog(from))
	}
	// maps
	keys := []string{"a", "b", "c", "d", "e", "f"}
	if g.Pct(50) {
		keys = minedKeys()[g.N(len(minedKeys()))]
	}
	if len(keys) > c.Pool {
		keys = keys[:c.Pool]
	}
	mut := func(st *ref.State) *pb.MapMutation {
		uniq++
		m := &pb.MapMutation{Key: []byte(keys[g.N(len(keys))]), Timestamp: fmt.Sprintf("2021-03-04T05:06:07.%09dZ", uniq)}
		v := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("v%d", g.N(c.Pool+2)))}
		if g.Pct(30) {
			v.ExtraData = []byte("extra")
		}
		kh := ref.KeyHash(m.Key)
		switch g.N(4) {
		case 0, 1:
			m.Action, m.Value = "set", v
		case 2:
			m.Action = "delete"
		case 3:
			m.Action, m.Value, m.PreviousLeafHash = "update", v, st.Leaf(&kh)
			if g.Pct(40) {
				m.PreviousLeafHash = ref.LeafHash([]byte(fmt.Sprintf("v%d", g.N(c.Pool+2))))
			}
		}
		return m
	}
	var muts []*pb.MapMutation
	st := ref.Empty()
	nm := c.Size
	if nm > 40 {
		nm = 40
	}
	for i := 0; i < nm; i++ {
		m := mut(st)
		muts = append(muts, m)
		st, _ = step(st, m)
	}
	w.Maps = append(w.Maps, t.newMap(muts, "", nil, nil))
	for f := 1; f < c.Forks; f++ {
		ms := append([]*pb.MapMutation(nil), muts...)
		if len(ms) == 0 {
			ms = append(ms, mut(ref.Empty()))
		}
		i := g.N(len(ms))
		kind := g.N(10)
		if c.Cheat {
			kind = 3 + g.N(7)
		}
		switch kind {
		case 0:
			ms[i] = mut(ref.Empty())
			w.Maps = append(w.Maps, t.newMap(ms, "other mutation", nil, nil))
		case 1:
			ms = append(ms[:i:i], ms[i+1:]...)
			w.Maps = append(w.Maps, t.newMap(ms, "mutation missing", nil, nil))
		case 2:
			b := *ms[i]
			ms[i] = &pb.MapMutation{Action: "bogus", Key: b.Key, Value: b.Value, Timestamp: b.Timestamp}
			w.Maps = append(w.Maps, t.newMap(ms, "unknown action", nil, nil))
		case 3: // one mutation ignored
			w.Maps = append(w.Maps, t.newMap(ms, "mutation ignored", func(k int, before, right *ref.State) *ref.State {
				if k == i {
					return &ref.State{Items: before.Items, Vals: before.Vals, Root: before.Root}
				}
				return right
			}, nil))
		case 4: // one mutation does more, or something else
			extra := mut(ref.Empty())
			w.Maps = append(w.Maps, t.newMap(ms, "secret mutation", func(k int, before, right *ref.State) *ref.State {
				if k != i {
					return right
				}
				ns, _ := step(right, extra)
				return ns
			}, nil))
		case 5: // an update is applied though its condition fails
			w.Maps = append(w.Maps, t.newMap(ms, "update forced", func(k int, before, right *ref.State) *ref.State {
				m := ms[k]
				if k >= i && m.Action == "update" && !right.Took {
					ns, _ := step(before, &pb.MapMutation{Action: "set", Key: m.Key, Value: m.Value})
					return ns
				}
				return right
			}, nil))
		case 6: // a wrong root is shown for a moment only
			w.Maps = append(w.Maps, t.newMap(ms, "root lied about", nil, func(k int, h *pb.MapTreeHashResponse) *pb.MapTreeHashResponse {
				if k == i {
					h = clone(h).(*pb.MapTreeHashResponse)
					h.RootHash = w.randHash()
				}
				return h
			}))
		case 7: // the mutation log stated is another one
			w.Maps = append(w.Maps, t.newMap(ms, "mutation log lied about", nil, func(k int, h *pb.MapTreeHashResponse) *pb.MapTreeHashResponse {
				if k == i {
					h = clone(h).(*pb.MapTreeHashResponse)
					if g.Pct(50) {
						h.MutationLog.RootHash = w.randHash()
					} else {
						h.MutationLog.TreeSize += int64(1 - 2*g.N(2))
					}
				}
				return h
			}))
		case 9: // another root for mutations that already had one
			first := w.randHash()
			w.Maps = append(w.Maps, t.newMap(ms, "two roots", nil, func(k int, h *pb.MapTreeHashResponse) *pb.MapTreeHashResponse {
				if k >= i && k > 0 && g.Pct(70) {
					h = clone(h).(*pb.MapTreeHashResponse)
					j := 1 + g.N(k)
					h.MutationLog = &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: mutRoot(ms[:j])}
					h.RootHash = first
				}
				return h
			}))
		case 8: // a head of another time in place of one
			w.Maps = append(w.Maps, t.newMap(ms, "head of another size", nil, func(k int, h *pb.MapTreeHashResponse) *pb.MapTreeHashResponse {
				if k == i && len(w.Maps[0].Heads) > 1 {
					return w.Maps[0].Heads[1+g.N(len(w.Maps[0].Heads)-1)]
				}
				return h
			}))
		}
	}
}

func (w *Byz) randHash() []byte {
	b := make([]byte, 32)
	r := newRng(w.S.Draw("byz") | 1)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

// ---- the server

var errByz = errors.New("connection lost")

func mutRoot(ms []*pb.MapMutation) []byte {
	var hs [][]byte
	for _, m := range ms {
		hs = append(hs, ref.LeafHash(mutLeaf(m).LeafInput))
	}
	return ref.MTH(hs)
}

// honest answers a request as a server would that has fork f up to pub.
func (w *Byz) honest(req proto.Message, fl, fm int, pl, pm int64) (proto.Message, error) {
	bad := status.Errorf(codes.InvalidArgument, "bad request")
	pick := func(l *pb.LogRef) (*blog, int64) {
		m := w.Maps[fm%len(w.Maps)]
		switch l.GetLogType() {
		case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
			return m.Mut, min(pm, m.Mut.L.Size())
		case pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
			return m.TH, min(pm, m.TH.L.Size())
		}
		b := w.Logs[fl%len(w.Logs)]
		return b, min(pl, b.L.Size())
	}
	switch q := req.(type) {
	case *pb.LogTreeHashRequest:
		b, n := pick(q.Log)
		s := q.TreeSize
		if s == 0 {
			s = n
		}
		if s < 0 || s > n {
			return nil, bad
		}
		return b.head(s), nil
	case *pb.LogInclusionProofRequest:
		b, n := pick(q.Log)
		s := q.TreeSize
		if s == 0 {
			s = n
		}
		i := q.LeafIndex
		if len(q.MtlHash) > 0 {
			k, ok := b.L.Index[string(q.MtlHash)]
			if !ok {
				return nil, status.Errorf(codes.NotFound, "not found")
			}
			i = int64(k)
		}
		if s < 1 || s > n || i < 0 || i >= s {
			return nil, bad
		}
		return b.incl(i, s), nil
	case *pb.LogConsistencyProofRequest:
		b, n := pick(q.Log)
		s := q.TreeSize
		if s == 0 {
			s = n
		}
		if q.FromSize < 1 || q.FromSize >= s || s > n {
			return nil, bad
		}
		return b.cons(q.FromSize, s), nil
	case *pb.LogFetchEntriesRequest:
		b, n := pick(q.Log)
		last := q.Last
		if last == 0 {
			last = n
		}
		if q.First < 0 || q.First >= last || last > n {
			return nil, bad
		}
		rv := &pb.LogFetchEntriesResponse{}
		for _, e := range b.E[q.First:last] {
			rv.Values = append(rv.Values, proto.Clone(e).(*pb.LeafData))
		}
		return rv, nil
	case *pb.MapTreeHashRequest:
		m := w.Maps[fm%len(w.Maps)]
		n := min(pm, m.Mut.L.Size())
		s := q.TreeSize
		if s == 0 {
			s = n
		}
		if s < 0 || s > n {
			return nil, bad
		}
		return proto.Clone(m.Heads[s]), nil
	case *pb.MapGetValueRequest:
		m := w.Maps[fm%len(w.Maps)]
		n := min(pm, m.Mut.L.Size())
		s := q.TreeSize
		if s == 0 {
			s = n
		}
		if s < 0 || s > n {
			return nil, bad
		}
		return m.get(q.Key, s), nil
	case *pb.LogAddEntryRequest:
		return &pb.LogAddEntryResponse{LeafHash: ref.LeafHash(q.GetValue().GetLeafInput())}, nil
	case *pb.MapSetValueRequest:
		return &pb.MapSetValueResponse{LeafHash: ref.LeafHash([]byte("x"))}, nil
	}
	return nil, bad
}

func (w *Byz) grow() {
	if w.n(4) == 3 && w.pubLog < int64(w.C.Size) {
		w.pubLog += int64(1 + w.n(3))
	}
	if w.n(4) == 3 && w.pubMap < int64(len(w.Maps[0].Muts)) {
		w.pubMap += int64(1 + w.n(3))
	}
}

func respName(m proto.Message) string { return string(m.ProtoReflect().Descriptor().Name()) }

// answer is what the server says: the truth of its current fork, or a lie.
func (w *Byz) answer(c *byzClient, req proto.Message) (proto.Message, error) {
	s := w.S
	w.grow()
	if c.calm > 0 {
		// An attacker that stays with its story for a while.
		c.calm--
		resp, err := w.honest(req, c.story, c.story, 1<<40, 1<<40)
		c.lied = true
		return clone(resp), err
	}
	w.victim = c
	lie := s.Chance("byz", w.C.Lie)
	var resp proto.Message
	var err error
	kind := ""
	resp, err = w.honest(req, w.curLog, w.curMap, w.pubLog, w.pubMap)
	honest := resp
	if lie {
		for again := true; again; again = w.C.Heavy && w.n(3) == 2 {
			w.story = w.n(w.C.Forks)
			resp, err, kind = w.lie(req, resp, err)
			s.Fault("byz." + kind)
		}
	}
	c.story = w.story
	if lie && w.n(4) == 3 {
		c.calm = 1 + w.n(6)
	}
	if err == nil && resp != nil {
		k := respName(resp)
		if h, ok := resp.(*pb.LogTreeHashResponse); ok {
			w.claimed[h.TreeSize] = append(w.claimed[h.TreeSize], h.RootHash)
		}
		if len(w.old[k]) < 60 {
			w.old[k] = append(w.old[k], clone(resp))
		}
	}
	if lie && (err != nil || honest == nil || !proto.Equal(norm(resp), norm(honest))) {
		c.lied = true
	}
	return clone(resp), err
}

func (w *Byz) lie(req, honest proto.Message, herr error) (proto.Message, error, string) {
	any := func() (proto.Message, error) {
		w.story = w.n(w.C.Forks)
		return w.honest(req, w.story, w.story, 1<<40, 1<<40)
	}
	switch w.n(13) {
	case 0: // another version of the data, for this answer
		r, err := any()
		return r, err, "fork"
	case 1: // another version from now on
		w.gen++
		w.curLog, w.curMap = w.n(w.C.Forks), w.n(w.C.Forks)
		r, err := w.honest(req, w.curLog, w.curMap, w.pubLog, w.pubMap)
		return r, err, "switch"
	case 2: // an old state
		r, err := w.honest(req, w.curLog, w.curMap, int64(w.n(int(w.pubLog)+1)), int64(w.n(int(w.pubMap)+1)))
		return r, err, "rollback"
	case 3: // an answer to another request
		if honest != nil {
			if o := w.old[respName(honest)]; len(o) > 0 {
				return clone(o[w.n(len(o))]), nil, "stale"
			}
		}
		r, err := any()
		return r, err, "fork"
	case 4: // the answer to a similar question
		q := clone(req)
		w.tamper(q, 1)
		f := w.n(w.C.Forks)
		r, err := w.honest(q, f, f, 1<<40, 1<<40)
		if err == nil && r != nil && w.n(2) == 1 {
			w.pretend(r, req)
		}
		return r, err, "similar"
	case 5, 6:
		if honest == nil {
			if h, _ := any(); h != nil {
				honest = h
			} else {
				return nil, herr, "none"
			}
		}
		r := clone(honest)
		w.tamper(r, 1+w.n(3))
		return r, nil, "tamper"
	case 7:
		codes := []codes.Code{codes.NotFound, codes.PermissionDenied, codes.Unavailable, codes.Internal, codes.InvalidArgument, codes.Unknown}
		return nil, status.Errorf(codes[w.n(len(codes))], "no"), "error"
	case 8:
		if honest == nil {
			honest, _ = any()
		}
		if honest == nil {
			return nil, herr, "none"
		}
		r := honest.ProtoReflect().New().Interface()
		return r, nil, "empty"
	default:
		r := w.craft(req)
		if r == nil {
			x, err := any()
			return x, err, "fork"
		}
		return r, nil, "craft"
	}
}

// pretend makes an answer state what was asked for.
func (w *Byz) pretend(resp, req proto.Message) {
	switch r := resp.(type) {
	case *pb.LogTreeHashResponse:
		if n := req.(*pb.LogTreeHashRequest).TreeSize; n > 0 {
			r.TreeSize = n
		}
	case *pb.LogInclusionProofResponse:
		q := req.(*pb.LogInclusionProofRequest)
		if q.TreeSize > 0 {
			r.TreeSize = q.TreeSize
		}
		if len(q.MtlHash) == 0 {
			r.LeafIndex = q.LeafIndex
		}
	case *pb.LogConsistencyProofResponse:
		q := req.(*pb.LogConsistencyProofRequest)
		r.FromSize, r.TreeSize = q.FromSize, q.TreeSize
	case *pb.MapGetValueResponse:
		r.TreeSize = req.(*pb.MapGetValueRequest).TreeSize
	case *pb.MapTreeHashResponse:
		if n := req.(*pb.MapTreeHashRequest).TreeSize; n > 0 && r.MutationLog != nil {
			r.MutationLog.TreeSize = n
		}
	}
}

func (w *Byz) someLog(l *pb.LogRef) *blog {
	m := w.Maps[w.n(len(w.Maps))]
	switch l.GetLogType() {
	case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
		return m.Mut
	case pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
		return m.TH
	}
	return w.Logs[w.n(len(w.Logs))]
}

// craft makes answers as an attacker would who knows how they are checked.
func (w *Byz) craft(req proto.Message) proto.Message {
	switch q := req.(type) {
	case *pb.LogTreeHashRequest:
		// A root that is an inner node or belongs to another size.
		b := w.someLog(q.Log)
		if b.L.Size() == 0 {
			return nil
		}
		n := int64(1 + w.n(int(b.L.Size())))
		h := b.head(n)
		if w.n(2) == 1 {
			h.RootHash = w.T.nodes[w.n(len(w.T.nodes))]
		}
		h.TreeSize = int64(1 + w.n(int(b.L.Size())))
		if q.TreeSize > 0 && w.n(2) == 0 {
			h.TreeSize = q.TreeSize
		}
		return h
	case *pb.LogInclusionProofRequest:
		b := w.someLog(q.Log)
		N := b.L.Size()
		if N == 0 {
			return nil
		}
		if rs := w.claimed[q.TreeSize]; len(rs) > 0 && len(q.MtlHash) > 0 && q.TreeSize < 300 && w.n(3) > 0 {
			// Any path up to a root it once claimed for this size, at whatever index makes it look right.
			root := rs[w.n(len(rs))]
			if path := w.T.pathTo(root, q.MtlHash); path != nil {
				at := int64(w.n(int(q.TreeSize)))
				for i := int64(0); i < q.TreeSize; i++ {
					if k := (at + i) % q.TreeSize; bytes.Equal(climb(k, q.TreeSize, q.MtlHash, path), root) {
						at = k
						break
					}
				}
				return &pb.LogInclusionProofResponse{TreeSize: q.TreeSize, LeafIndex: at, AuditPath: path}
			}
		}
		if len(q.MtlHash) == 0 && w.n(2) == 1 {
			// Subtrees that fold to the root before this entry, though not those there are.
			root := b.L.Roots[min(max(q.LeafIndex, 1), N)]
			if rs := w.claimed[q.LeafIndex]; len(rs) > 0 && w.n(2) == 0 {
				root = rs[w.n(len(rs))]
			}
			path := [][]byte{root}
			for w.n(3) == 2 {
				k, ok := w.T.kids[string(path[0])]
				if !ok {
					break
				}
				path = append([][]byte{k[1], k[0]}, path[1:]...)
			}
			return &pb.LogInclusionProofResponse{TreeSize: q.TreeSize, LeafIndex: q.LeafIndex, AuditPath: path}
		}
		n := int64(1 + w.n(int(N)))
		var i int64
		if k, ok := b.L.Index[string(q.MtlHash)]; ok {
			i = int64(k)
			if n <= i {
				n = i + 1 + int64(w.n(int(N-i)))
			}
		} else {
			i = int64(w.n(int(n)))
		}
		p := b.incl(i, n)
		if len(q.MtlHash) > 0 {
			if _, ok := b.L.Index[string(q.MtlHash)]; !ok {
				// Perhaps it is an inner node.
				if path := w.T.pathTo(b.L.Roots[n], q.MtlHash); path != nil {
					p.AuditPath = path
					p.LeafIndex = int64(w.n(int(n)))
				}
			}
		}
		p.TreeSize = q.TreeSize
		switch w.n(6) {
		case 1:
			p.LeafIndex += n
		case 2:
			p.LeafIndex ^= 1
		case 3:
			p.LeafIndex = -p.LeafIndex - 1
		case 4:
			p.LeafIndex = int64(w.n(int(max(q.TreeSize, 1))))
		case 5:
			p.LeafIndex >>= 1
		}
		return p
	case *pb.LogConsistencyProofRequest:
		b := w.someLog(q.Log)
		N := int(b.L.Size())
		if N < 2 {
			return nil
		}
		n := 2 + w.n(N-1)
		m := 1 + w.n(n-1)
		if q.FromSize < int64(N) && q.FromSize > 0 && w.n(3) > 0 {
			m = int(q.FromSize)
			n = m + 1 + w.n(N-m)
		}
		p := b.cons(int64(m), int64(n))
		p.FromSize, p.TreeSize = q.FromSize, q.TreeSize
		switch w.n(5) {
		case 1: // splice with the proof of another version
			o := w.someLog(q.Log)
			if on := int(o.L.Size()); m < on {
				x := o.cons(int64(m), int64(min(n, on)))
				for i := range p.AuditPath {
					if i < len(x.AuditPath) && w.n(2) == 1 {
						p.AuditPath[i] = x.AuditPath[i]
					}
				}
			}
		case 2:
			p.AuditPath = append([][]byte{b.L.Roots[m]}, p.AuditPath...)
		case 3:
			p.AuditPath = [][]byte{b.L.Roots[m]}
		case 4:
			p.AuditPath = nil
		}
		return p
	case *pb.LogFetchEntriesRequest:
		// Entries of several versions, one more or less than asked for.
		rv := &pb.LogFetchEntriesResponse{}
		want := q.Last - q.First
		if want < 0 || want > 2000 {
			want = 3
		}
		want += int64(w.n(3)) - 1
		for i := int64(0); i < want; i++ {
			b := w.someLog(q.Log)
			at := q.First + i
			if w.n(8) == 7 {
				at += int64(w.n(3)) - 1
			}
			if at < 0 || at >= b.L.Size() {
				continue
			}
			e := proto.Clone(b.E[at]).(*pb.LeafData)
			switch w.n(8) {
			case 5: // the data of another entry
				o := b.E[w.n(len(b.E))]
				e.ExtraData = o.ExtraData
			case 6:
				o := b.E[w.n(len(b.E))]
				e.LeafInput = o.LeafInput
			}
			rv.Values = append(rv.Values, e)
		}
		return rv
	case *pb.MapGetValueRequest:
		m := w.Maps[w.n(len(w.Maps))]
		n := int64(w.n(len(m.States)))
		r := m.get(q.Key, n)
		o := m.get(m.someKey(w), int64(w.n(len(m.States))))
		switch w.n(5) {
		case 0: // a value of another key with this key's path
			r.Value = o.Value
		case 1: // another key's answer
			r = o
		case 2: // absent
			r.Value = &pb.LeafData{}
		case 3: // another key's path
			r.AuditPath = o.AuditPath
		case 4: // a leaf that hides the value in what the client does not check
			if r.Value != nil {
				r.Value.ExtraData = r.Value.LeafInput
				r.Value.LeafInput = nil
			}
		}
		r.TreeSize = q.TreeSize
		return r
	case *pb.MapTreeHashRequest:
		a, b := w.Maps[w.n(len(w.Maps))], w.Maps[w.n(len(w.Maps))]
		i, j := w.n(len(a.Heads)), w.n(len(b.Heads))
		if q.TreeSize > 0 && w.n(2) == 0 {
			if q.TreeSize < int64(len(a.Heads)) {
				i = int(q.TreeSize)
			}
		}
		if w.n(3) > 0 && i < len(b.Heads) {
			j = i
		}
		if len(w.mstates) > 0 && w.n(4) > 0 || w.n(2) == 1 && len(a.TH.E) > 0 {
			if len(w.mstates) > 0 && w.n(4) > 0 {
				// Another root for the mutations that a client trusts the root of.
				s := w.mstates[w.n(len(w.mstates))].MapTreeHead
				if w.victim.prev != nil && w.n(4) > 0 {
					s = w.victim.prev.MapTreeHead
				}
				for k := range w.Maps {
					for _, e := range w.Maps[(w.curMap+k)%len(w.Maps)].TH.E {
						x := &pb.MapTreeHashResponse{}
						if json.Unmarshal(e.ExtraData, x) == nil && proto.Equal(x.MutationLog, s.MutationLog) && !bytes.Equal(x.RootHash, s.RootHash) {
							w.story = (w.curMap + k) % len(w.Maps)
							w.victim.calm = 8
							return x
						}
					}
				}
			}
			// What a tree-head log says.
			var h *pb.MapTreeHashResponse
			for k, e := range a.TH.E {
				x := &pb.MapTreeHashResponse{}
				if json.Unmarshal(e.ExtraData, x) == nil && x.MutationLog.GetTreeSize() == q.TreeSize && (k == i || h == nil) {
					h = x
				}
			}
			if h != nil {
				return h
			}
			h = &pb.MapTreeHashResponse{}
			if len(a.TH.E) == 0 {
				return nil
			}
			if json.Unmarshal(a.TH.E[w.n(len(a.TH.E))].ExtraData, h) == nil {
				return h
			}
		}
		h := clone(a.Heads[i]).(*pb.MapTreeHashResponse)
		h.RootHash = b.Heads[j].RootHash
		if w.n(3) == 2 {
			h.MutationLog.RootHash = b.Heads[j].MutationLog.RootHash
		}
		return h
	}
	return nil
}

func (m *bmap) someKey(w *Byz) []byte {
	if len(m.Muts) == 0 {
		return []byte("a")
	}
	return m.Muts[w.n(len(m.Muts))].Key
}

// climb goes up a path the way the indexes say, however long it is.
func climb(i, n int64, h []byte, path [][]byte) []byte {
	fn, sn := i, n-1
	for _, p := range path {
		if fn == sn || fn&1 == 1 {
			h = ref.NodeHash(p, h)
			for fn != 0 && fn&1 == 0 {
				fn >>= 1
				sn >>= 1
			}
		} else {
			h = ref.NodeHash(h, p)
		}
		fn >>= 1
		sn >>= 1
	}
	return h
}

// pathTo is the path from a node below root up to it, lowest sibling first.
func (t *truth) pathTo(root, node []byte) [][]byte {
	if bytes.Equal(root, node) {
		return [][]byte{}
	}
	c, ok := t.kids[string(root)]
	if !ok {
		return nil
	}
	for i := 0; i < 2; i++ {
		if p := t.pathTo(c[i], node); p != nil {
			return append(p, c[1-i])
		}
	}
	return nil
}

// tamper changes k things in a message.
func (w *Byz) tamper(m proto.Message, k int) {
	for ; k > 0; k-- {
		w.tamper1(m.ProtoReflect())
	}
}

func (w *Byz) badBytes(b []byte) []byte {
	b = append([]byte(nil), b...)
	switch w.n(8) {
	case 0:
		if len(b) > 0 {
			b[w.n(len(b))] ^= 1 << w.n(8)
			return b
		}
		return []byte("x")
	case 1:
		return b[:w.n(len(b)+1)]
	case 2:
		return append(b, byte(w.n(256)))
	case 3:
		return nil
	case 4:
		return w.randHash()
	default:
		if len(w.T.nodes) == 0 {
			return w.randHash()
		}
		return w.T.nodes[w.n(len(w.T.nodes))]
	}
}

func (w *Byz) badInt(v int64) int64 {
	switch w.n(10) {
	case 0:
		return v + 1
	case 1:
		return v - 1
	case 2:
		return 0
	case 3:
		return -v
	case 4:
		return 1 << w.n(63)
	case 5:
		return -1 << w.n(63)
	case 6:
		return v * 2
	case 7:
		return v / 2
	default:
		return int64(w.n(w.C.Size + 2))
	}
}

func (w *Byz) tamper1(m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	var cand []protoreflect.FieldDescriptor
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if n := string(f.Name()); n == "log" || n == "map" {
			continue
		}
		cand = append(cand, f)
	}
	if len(cand) == 0 {
		return
	}
	f := cand[w.n(len(cand))]
	switch {
	case f.IsList():
		l := m.Mutable(f).List()
		n := l.Len()
		del := func(i int) {
			for k := i; k+1 < l.Len(); k++ {
				l.Set(k, l.Get(k+1))
			}
			l.Truncate(l.Len() - 1)
		}
		switch w.n(9) {
		case 0:
			if n > 0 {
				del(w.n(n))
			}
		case 1:
			if n > 0 {
				l.Truncate(w.n(n))
			}
		case 2:
			if n > 1 {
				a, b := w.n(n), w.n(n)
				x, y := l.Get(a), l.Get(b)
				l.Set(a, y)
				l.Set(b, x)
			}
		case 3:
			if n > 0 {
				l.Append(l.Get(w.n(n)))
			}
		case 4:
			if f.Kind() == protoreflect.BytesKind {
				l.Append(protoreflect.ValueOfBytes(w.badBytes(nil)))
			} else if f.Kind() == protoreflect.MessageKind {
				l.Append(l.NewElement())
			}
		case 5:
			if f.Kind() == protoreflect.BytesKind && n > 0 { // at the front
				l.Append(l.Get(n - 1))
				for i := n - 1; i > 0; i-- {
					l.Set(i, l.Get(i-1))
				}
				l.Set(0, protoreflect.ValueOfBytes(w.badBytes(nil)))
			}
		default:
			if n == 0 {
				return
			}
			i := w.n(n)
			if f.Kind() == protoreflect.BytesKind {
				l.Set(i, protoreflect.ValueOfBytes(w.badBytes(l.Get(i).Bytes())))
			} else if f.Kind() == protoreflect.MessageKind {
				w.tamper1(l.Get(i).Message())
			}
		}
	case f.Kind() == protoreflect.MessageKind:
		if w.n(4) == 3 {
			m.Clear(f)
			return
		}
		w.tamper1(m.Mutable(f).Message())
	case f.Kind() == protoreflect.BytesKind:
		m.Set(f, protoreflect.ValueOfBytes(w.badBytes(m.Get(f).Bytes())))
	case f.Kind() == protoreflect.Int64Kind:
		m.Set(f, protoreflect.ValueOfInt64(w.badInt(m.Get(f).Int())))
	case f.Kind() == protoreflect.EnumKind:
		m.Set(f, protoreflect.ValueOfEnum(protoreflect.EnumNumber(w.n(4))))
	case f.Kind() == protoreflect.StringKind:
		m.Set(f, protoreflect.ValueOfString("?"))
	}
}

// ---- transports

type byzClient struct {
	h           http.Handler
	calm, story int
	prev        *verifiable.MapTreeState // what the current operation trusts
	w           *Byz
	name        string
	rest        bool
	svc         service
	done        bool
	gen         int
	lied        bool // since the current operation began
	cur         string

	logs map[string]*pb.LogTreeHashResponse
	mp   *verifiable.MapTreeState
}

// net lets the network act on one message exchange.
func (c *byzClient) net() error {
	w := c.w
	rt.Yield("net")
	if w.S.Chance("net", w.C.Delay) {
		w.S.Fault("net.delay")
		rt.Sleep(time.Duration(1+w.S.Choose("net", 3000)) * time.Millisecond)
	}
	if w.S.Chance("net", w.C.Drop) {
		w.S.Fault("net.lost")
		c.lied = true
		rt.Sleep(time.Second)
		return errByz
	}
	return nil
}

func (c *byzClient) call(ctx context.Context, method string, req proto.Message) (proto.Message, error) {
	if err := c.net(); err != nil {
		return nil, err
	}
	// What crosses the wire is bytes: nothing can be nil that is not absent.
	r, err := c.w.answer(c, wire(req))
	if err == nil {
		r = wire(r)
	}
	c.w.S.Logf("%s %s -> %s err=%v", method, short(req), short(r), err)
	rt.Yield("net.back")
	return r, err
}

// wire encodes and decodes a message.
func wire(m proto.Message) proto.Message {
	if isNil(m) {
		return m
	}
	b, err := proto.Marshal(m)
	if err != nil {
		return proto.Clone(m)
	}
	n := m.ProtoReflect().New().Interface()
	if proto.Unmarshal(b, n) != nil {
		return proto.Clone(m)
	}
	return n
}

// RoundTrip carries a REST exchange: the real handler in front of the lying server, and lies on
// the level of HTTP.
func (c *byzClient) RoundTrip(req *http.Request) (*http.Response, error) {
	w := c.w
	var buf bytes.Buffer
	if err := req.Write(&buf); err != nil {
		return nil, err
	}
	if err := c.net(); err != nil {
		return nil, err
	}
	sr, err := http.ReadRequest(bufio.NewReader(&buf))
	if err != nil {
		return nil, err
	}
	rec := httptest.NewRecorder()
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil { // the lying server's own trouble
				ok = false
			}
		}()
		if c.h == nil {
			c.h = httprest.CreateRESTHandler(&serviceFunc{f: func(ctx context.Context, method string, q proto.Message) (proto.Message, error) {
				r, err := w.answer(c, q)
				w.S.Logf("%s %s -> %s err=%v", method, short(q), short(r), err)
				return r, err
			}}, nil, nil)
		}
		c.h.ServeHTTP(rec, sr)
		return true
	}()
	if !ok {
		c.lied = true
		return nil, errByz
	}
	res := rec.Result()
	body, _ := io.ReadAll(res.Body)
	if w.S.Chance("byz", w.C.Wire) {
		c.lied = true
		w.S.Fault("byz.http")
		body = w.badHTTP(res, body)
	}
	res.Body = io.NopCloser(bytes.NewReader(body))
	res.ContentLength = int64(len(body))
	var out bytes.Buffer
	if err := res.Write(&out); err != nil {
		return nil, err
	}
	b := out.Bytes()
	if w.S.Chance("net", w.C.Drop) {
		w.S.Fault("net.cut")
		c.lied = true
		b = b[:w.S.Choose("net", len(b))]
	}
	rt.Yield("net.back")
	return http.ReadResponse(bufio.NewReader(&lossyReader{b: b}), req)
}

// badHTTP damages a response on purpose.
func (w *Byz) badHTTP(res *http.Response, body []byte) []byte {
	if w.n(3) == 2 {
		for _, h := range []string{"X-Verified-Treesize", "X-Verified-Proof"} {
			if w.n(2) == 1 {
				continue
			}
			vs := res.Header[http.CanonicalHeaderKey(h)]
			switch w.n(5) {
			case 0:
				res.Header.Del(h)
			case 1:
				res.Header.Add(h, "-1")
			case 2:
				if len(vs) > 0 {
					i := w.n(len(vs))
					bad := []string{"", "x", "/", "300/00", "-1/" + strings.Repeat("0", 64), "0/zz", "9999999999999999999999/00", "1/", "0/" + fmt.Sprintf("%x", w.randHash())}
					vs[i] = bad[w.n(len(bad))]
				}
			case 3:
				if len(vs) > 1 {
					res.Header[http.CanonicalHeaderKey(h)] = vs[:w.n(len(vs))]
				}
			case 4:
				res.Header.Add(h, fmt.Sprintf("%d/%x", w.n(258)-1, w.randHash()))
			}
		}
		return body
	}
	var doc any
	if json.Unmarshal(body, &doc) != nil || w.n(6) == 5 {
		alt := []string{"", "null", "{}", "[]", "0", "\"x\"", "{", "[null]", "{\"entries\":[null]}", "{\"entries\":null}", "<html>", "{\"tree_size\":1e99}", "true"}
		return []byte(alt[w.n(len(alt))])
	}
	doc = w.badJSON(doc, 3)
	b, err := json.Marshal(doc)
	if err != nil {
		return nil
	}
	return b
}

func (w *Byz) badJSON(d any, depth int) any {
	if depth > 0 && w.n(5) != 0 {
		switch x := d.(type) {
		case map[string]any:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				k := ks[w.n(len(ks))]
				if w.n(5) == 4 {
					delete(x, k)
				} else {
					x[k] = w.badJSON(x[k], depth-1)
				}
				return x
			}
		case []any:
			if len(x) > 0 {
				i := w.n(len(x))
				switch w.n(4) {
				case 3:
					return append(x[:i:i], x[i+1:]...)
				default:
					x[i] = w.badJSON(x[i], depth-1)
				}
				return x
			}
		}
	}
	alts := []any{nil, "", "AA==", 0, -1, 1.5, 1e30, true, []any{}, map[string]any{}, []any{nil}, "not base64!", w.n(20), "***REDACTED*** Hash: 00"}
	return alts[w.n(len(alts))]
}
