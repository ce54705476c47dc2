package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"verifsim/ref"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// logJ is one log as it ended up, against the reference.
type logJ struct {
	L *ref.Log
	E []*pb.LeafData
}

// objJ is one object as it ended up.
type objJ struct {
	o      Obj
	Log    *logJ // a user log
	Mut    *logJ // a map's mutation log
	Head   *logJ // a map's tree-head log
	States []*ref.State
	Muts   []*pb.MapMutation
	reads  []span
	subs   map[int][]*Exec // submissions of the entry at an index
	lower  []int64         // lower[i]: entry i was certainly not there before
	upper  []int64         // upper[i]: entry i was certainly there after
}

// span is one observation of the size: it was in [lo,hi] at some instant of the execution.
type span struct {
	e      *Exec
	lo, hi int64
}

const inf = math.MaxInt64

// Judge decides a finished run.
type Judge struct {
	w    *World
	objs map[Obj]*objJ
	list []*objJ
}

func (j *Judge) log(o Obj, lt pb.LogType) *logJ {
	b := j.objs[o]
	if b == nil {
		return &logJ{L: ref.NewLog(nil)}
	}
	switch lt {
	case pb.LogType_STRUCT_TYPE_LOG:
		return b.Log
	case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
		return b.Mut
	}
	return b.Head
}

// seq is the log whose order of entries is the order of the object's writes.
func (b *objJ) seq() *logJ {
	if b.o.Map {
		return b.Mut
	}
	return b.Log
}

// read fetches the final content of everything, in the final task.
func (j *Judge) read() {
	w := j.w
	j.objs = map[Obj]*objJ{}
	n := w.Nodes[0]
	svc := &recorder{w: w, n: n, p: n.Proc, inner: (&verifiable.Service{Reader: n.store, AccessPolicy: policyOpen}).MustCreate()}
	for _, o := range w.finalObjs() {
		b := &objJ{o: o, subs: map[int][]*Exec{}}
		j.objs[o] = b
		j.list = append(j.list, b)
		if o.Map {
			b.Mut = j.readLog(svc, o, pb.LogType_STRUCT_TYPE_MUTATION_LOG)
			b.Head = j.readLog(svc, o, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)
		} else {
			b.Log = j.readLog(svc, o, pb.LogType_STRUCT_TYPE_LOG)
		}
		j.sweep(svc, b)
	}
}

// finalObjs are the configured objects and every other one that a request named.
func (w *World) finalObjs() []Obj {
	seen := map[Obj]bool{}
	var rv []Obj
	add := func(o Obj) {
		if !seen[o] {
			seen[o] = true
			rv = append(rv, o)
		}
	}
	for _, o := range w.C.Objs {
		add(o)
	}
	var more []Obj
	for _, e := range w.Execs {
		if o, ok := objOf(e.Req); ok && !seen[o] {
			more = append(more, o)
		}
	}
	for i, o := range more {
		if i < 12 {
			add(o)
		}
	}
	return rv
}

func (j *Judge) readLog(svc service, o Obj, lt pb.LogType) *logJ {
	w := j.w
	rv := &logJ{}
	l := logRef(o, lt, "")
	// again repeats a read that met a connection which broke while there were faults.
	again := func(f func() error) error {
		for i := 0; ; i++ {
			n := len(w.Execs)
			err := f()
			if err == nil || i == 8 || len(w.Execs) == n || len(w.Execs[len(w.Execs)-1].Faults) == 0 {
				return err
			}
		}
	}
	var h *pb.LogTreeHashResponse
	err := again(func() (err error) {
		h, err = svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: l})
		return
	})
	if err != nil || h == nil {
		w.Fail("final-read", "reading the final head of %s/%d: %v", o, lt, err)
		rv.L = ref.NewLog(nil)
		return rv
	}
	var leaves [][]byte
	if h.TreeSize > 0 {
		var f *pb.LogFetchEntriesResponse
		err := again(func() (err error) {
			f, err = svc.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: l, Last: h.TreeSize})
			return
		})
		if err != nil {
			w.Fail("final-read", "reading the final %d entries of %s/%d: %v", h.TreeSize, o, lt, err)
		} else {
			rv.E = clone(f).(*pb.LogFetchEntriesResponse).Values
		}
	}
	for _, e := range rv.E {
		leaves = append(leaves, e.GetLeafInput())
	}
	rv.L = ref.NewLog(leaves)
	if int64(len(rv.E)) != h.TreeSize {
		w.Fail("final-read", "%s/%d has size %d but %d entries", o, lt, h.TreeSize, len(rv.E))
	}
	return rv
}

// sweep asks the final server for heads, proofs and values all over the object.
func (j *Judge) sweep(svc service, b *objJ) {
	w := j.w
	max := w.C.MaxFinal
	lts := []pb.LogType{pb.LogType_STRUCT_TYPE_LOG}
	if b.o.Map {
		lts = []pb.LogType{pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG}
	}
	for _, lt := range lts {
		lj := j.log(b.o, lt)
		n := lj.L.Size()
		for _, s := range w.some("sweep", n, max) {
			l := logRef(b.o, lt, "")
			svc.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: l, TreeSize: s})
			for _, m := range w.some("sweep", s, 3+max/8) {
				if m < s {
					svc.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: l, FromSize: m, TreeSize: s})
				}
				svc.LogInclusionProof(bg, &pb.LogInclusionProofRequest{Log: l, LeafIndex: m - 1, TreeSize: s})
			}
		}
	}
	if b.o.Map {
		n := b.Mut.L.Size()
		keys := append([][]byte{[]byte("never set")}, w.C.Keys...)
		for _, s := range append([]int64{0}, w.some("sweep", n, max)...) {
			svc.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mapRef(b.o, ""), TreeSize: s})
			ks := keys
			if s != n && s != 0 && !w.C.Sizes && len(keys) > 3 {
				ks = nil
				for i := 0; i < 3; i++ {
					ks = append(ks, keys[w.S.Choose("sweep", len(keys))])
				}
			}
			for _, k := range ks {
				svc.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef(b.o, ""), Key: k, TreeSize: s})
			}
		}
	}
}

// some picks up to max sizes of 1..n, always the last.
func (w *World) some(label string, n, max int64) []int64 {
	if n <= 0 {
		return nil
	}
	var rv []int64
	if n <= max {
		for i := int64(1); i <= n; i++ {
			rv = append(rv, i)
		}
		return rv
	}
	for i := int64(0); i < max-1; i++ {
		rv = append(rv, 1+int64(w.S.Choose(label, int(n))))
	}
	return append(rv, n)
}

// judge applies every check to the recorded run.
func (j *Judge) judge() {
	defer func() {
		// What has been found already may be why the rest cannot be judged.
		if p := recover(); p != nil && len(j.w.Viol) == 0 {
			panic(p)
		}
	}()
	for _, b := range j.list {
		j.structure(b)
	}
	for _, b := range j.list {
		j.submissions(b)
	}
	for _, e := range j.w.Execs {
		if e.Done {
			j.exec(e)
		}
	}
	for _, b := range j.list {
		j.linearize(b)
		j.held(b)
	}
	j.fifo()
	for _, f := range j.w.After {
		f(j)
	}
	j.transport()
}

// structure checks that the final content of the object makes sense by itself.
func (j *Judge) structure(b *objJ) {
	w := j.w
	for _, lj := range []*logJ{b.Log, b.Mut, b.Head} {
		if lj == nil {
			continue
		}
		seen := map[string]int{}
		for i, h := range lj.L.Hashes {
			if k, ok := seen[string(h)]; ok {
				w.Fail("dup-entry", "%s has the same entry %q at indexes %d and %d", b.o, lj.E[i].LeafInput, k, i)
			}
			seen[string(h)] = i
		}
	}
	if !b.o.Map {
		return
	}
	st := ref.Empty()
	b.States = append(b.States, st)
	for i, e := range b.Mut.E {
		m := &pb.MapMutation{}
		if err := json.Unmarshal(e.GetExtraData(), m); err != nil {
			w.Fail("mut-entry", "mutation entry %d of %s does not decode: %v: %q", i, b.o, err, e.GetExtraData())
		} else if h, err := mutationHash(e.ExtraData); err != nil || !bytes.Equal(h, e.LeafInput) {
			w.Fail("mut-entry", "mutation entry %d of %s: content does not hash to its leaf input (%v)", i, b.o, err)
		}
		b.Muts = append(b.Muts, m)
		ns, ok := st.Apply(&ref.Mutation{Action: m.Action, Key: m.Key, Value: m.GetValue().GetLeafInput(), Prev: m.PreviousLeafHash, Data: m.Value})
		if !ok {
			w.Fail("mut-entry", "mutation entry %d of %s has action %q", i, b.o, m.Action)
			ns, _ = st.Apply(&ref.Mutation{Action: "update", Prev: []byte("never")})
		}
		st = ns
		b.States = append(b.States, st)
	}
	if a, c := b.Mut.L.Size(), b.Head.L.Size(); a != c {
		w.Fail("lockstep", "%s: mutation log has %d entries, tree-head log %d", b.o, a, c)
	}
	for i, e := range b.Head.E {
		if i >= len(b.Muts) {
			break
		}
		var th pb.MapTreeHashResponse
		err := json.Unmarshal(e.GetExtraData(), &th)
		if err != nil || !bytes.Equal(th.RootHash, b.States[i+1].Root) || th.GetMutationLog().GetTreeSize() != int64(i+1) || !bytes.Equal(th.GetMutationLog().GetRootHash(), b.Mut.L.Roots[i+1]) {
			kind := "treehead-entry"
			if err == nil && !bytes.Equal(th.RootHash, b.States[i+1].Root) {
				kind = "treehead-root"
			}
			w.Fail(kind, "%s: tree-head entry %d states %s %s (%v); replaying the mutations gives root %.8x, mutation log root %.8x", b.o, i, short(&th), short(th.GetMutationLog()), err, b.States[i+1].Root, b.Mut.L.Roots[i+1])
			continue
		}
		var doc any
		if json.Unmarshal(e.ExtraData, &doc) == nil {
			if h, err := objecthash.ObjectHashWithStdRedaction(doc); err != nil || !bytes.Equal(h, e.LeafInput) {
				w.Fail("treehead-entry", "%s: tree-head entry %d does not hash to its leaf input", b.o, i)
			}
		}
	}
	for _, s := range b.States {
		j.w.S.States[stateHash(s.Root)] = struct{}{}
	}
}

func stateHash(b []byte) uint64 {
	var v uint64
	for i := 0; i < 8 && i < len(b); i++ {
		v = v<<8 | uint64(b[i])
	}
	return v
}

// mutationHash is the leaf input a mutation entry must have.
func mutationHash(extra []byte) ([]byte, error) {
	var m pb.MapMutation
	if err := json.Unmarshal(extra, &m); err != nil {
		return nil, err
	}
	if m.Value != nil {
		m.Value.ExtraData, m.Value.Format = nil, 0
	}
	d, err := json.Marshal(&m)
	if err != nil {
		return nil, err
	}
	var o any
	if err := json.Unmarshal(d, &o); err != nil {
		return nil, err
	}
	return objecthash.ObjectHashWithStdRedaction(o)
}

// sameLeaf compares entry data; absent and empty fields are the same.
func sameLeaf(a, b *pb.LeafData) bool {
	return bytes.Equal(a.GetLeafInput(), b.GetLeafInput()) && bytes.Equal(a.GetExtraData(), b.GetExtraData()) && a.GetFormat() == b.GetFormat()
}

// sameMutation compares what was asked for with what was recorded.
func sameMutation(req, got *pb.MapMutation) bool {
	if req.GetAction() != got.GetAction() || !bytes.Equal(req.GetKey(), got.GetKey()) || !bytes.Equal(req.GetPreviousLeafHash(), got.GetPreviousLeafHash()) {
		return false
	}
	return sameLeaf(req.GetValue(), got.GetValue())
}

// submissions matches entries with the requests that submitted them.
func (j *Judge) submissions(b *objJ) {
	w := j.w
	lj := b.seq()
	byLeaf := map[string]int{}
	for i, h := range lj.L.Hashes {
		byLeaf[string(h)] = i
	}
	used := map[*Exec]bool{}
	var pend []*Exec
	lossless := w.lossless()
	for _, e := range w.Execs {
		o, ok := objOf(e.Req)
		if !ok || o != b.o || e.Final {
			continue
		}
		switch q := e.Req.(type) {
		case *pb.LogAddEntryRequest:
			if malformed(e.Req) || !j.granted(e.Req) {
				continue
			}
			i, ok := byLeaf[string(ref.LeafHash(q.GetValue().GetLeafInput()))]
			if ok {
				b.subs[i] = append(b.subs[i], e)
			}
			if e.Done && e.Err == nil && e.Resp != nil {
				if !bytes.Equal(leafOf(e.Resp), ref.LeafHash(q.GetValue().GetLeafInput())) {
					w.Fail("ack-hash", "%s acknowledged with leaf hash %.8x", short(e.Req), leafOf(e.Resp))
				}
				if !ok && lossless {
					w.Fail("ack-lost", "exec %d: %s was acknowledged but is not in the log of %d entries", e.ID, short(e.Req), len(lj.E))
				}
			}
		case *pb.MapSetValueRequest:
			if malformed(e.Req) || !j.granted(e.Req) {
				continue
			}
			if e.Done && e.Err == nil && e.Resp != nil {
				i, ok := byLeaf[string(leafOf(e.Resp))]
				if !ok {
					if lossless {
						w.Fail("ack-lost", "exec %d: %s was acknowledged but is not among the %d mutations", e.ID, short(e.Req), len(lj.E))
					}
					continue
				}
				if !sameMutation(q.GetMutation(), b.Muts[i]) {
					w.Fail("mut-content", "exec %d: %s is recorded at index %d as %s", e.ID, short(e.Req), i, mutStr(b.Muts[i]))
				}
				b.subs[i] = append(b.subs[i], e)
				used[e] = true
				continue
			}
			pend = append(pend, e)
		}
	}
	for i, d := range lj.E {
		if !b.o.Map {
			ok := false
			for _, e := range b.subs[i] {
				if sameLeaf(e.Req.(*pb.LogAddEntryRequest).GetValue(), d) {
					ok = true
				}
			}
			if len(b.subs[i]) == 0 {
				w.Fail("phantom-entry", "%s has entry %q at index %d, which nobody submitted", b.o, d.LeafInput, i)
			} else if !ok {
				w.Fail("entry-data", "%s has at index %d entry %q with extra data %q, which nobody submitted like that", b.o, i, d.LeafInput, d.ExtraData)
			}
			continue
		}
		if len(b.subs[i]) > 0 {
			continue
		}
		for _, e := range pend {
			if !used[e] && sameMutation(e.Req.(*pb.MapSetValueRequest).GetMutation(), b.Muts[i]) {
				used[e] = true
				b.subs[i] = append(b.subs[i], e)
				break
			}
		}
		if len(b.subs[i]) == 0 {
			w.Fail("phantom-entry", "%s has mutation %s at index %d, which nobody submitted (or fewer times)", b.o, mutStr(b.Muts[i]), i)
		}
	}
}

func mutStr(m *pb.MapMutation) string {
	return fmt.Sprintf("%s %q=%q prev %.8x", m.GetAction(), m.GetKey(), m.GetValue().GetLeafInput(), m.GetPreviousLeafHash())
}

// malformed says whether a request must be refused for what it is.
func malformed(m proto.Message) bool {
	if isNil(m) {
		return true
	}
	badLog := func(l *pb.LogRef) bool {
		return l == nil || l.Account == nil || l.LogType < 0 || l.LogType > pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
	}
	badMap := func(l *pb.MapRef) bool { return l == nil || l.Account == nil }
	switch r := m.(type) {
	case *pb.LogAddEntryRequest:
		return badLog(r.Log) || r.Value == nil || r.Log.LogType != pb.LogType_STRUCT_TYPE_LOG
	case *pb.LogFetchEntriesRequest:
		return badLog(r.Log)
	case *pb.LogTreeHashRequest:
		return badLog(r.Log)
	case *pb.LogInclusionProofRequest:
		return badLog(r.Log)
	case *pb.LogConsistencyProofRequest:
		return badLog(r.Log)
	case *pb.MapSetValueRequest:
		if badMap(r.Map) || r.Mutation == nil {
			return true
		}
		switch r.Mutation.Action {
		case "delete", "update": // without a value, an update writes the empty one
			return false
		case "set":
			return r.Mutation.Value == nil
		}
		return true
	case *pb.MapGetValueRequest:
		return badMap(r.Map)
	case *pb.MapTreeHashRequest:
		return badMap(r.Map)
	}
	return true
}

// faultNote names the faults of an execution.
func faultNote(e *Exec) string {
	if len(e.Faults) == 0 {
		return ""
	}
	return fmt.Sprintf(" (after injected %v)", e.Faults)
}

func (j *Judge) exec(e *Exec) {
	w := j.w
	if e.Err == nil && malformed(e.Req) {
		w.Fail("malformed-accepted", "exec %d: malformed %s %v was accepted", e.ID, e.Method, e.Req)
		return
	}
	if malformed(e.Req) {
		return
	}
	if !e.Final {
		ok := j.granted(e.Req)
		den := status.Code(e.Err) == codes.PermissionDenied
		if !ok {
			if e.Err == nil {
				w.Fail("access-granted", "exec %d: %s with key %q was allowed although the policy denies it", e.ID, short(e.Req), apiKeyOf(e.Req))
			} else if !den {
				w.Fail("access-leak", "exec %d: %s with key %q is denied by the policy but was answered with %v", e.ID, short(e.Req), apiKeyOf(e.Req), e.Err)
			}
			return
		}
		if den && len(e.Faults) == 0 {
			w.Fail("access-refused", "exec %d: %s with key %q was refused although the policy grants it: %v", e.ID, short(e.Req), apiKeyOf(e.Req), e.Err)
			return
		}
	}
	if e.Err == nil && isNil(e.Resp) {
		w.Fail("nil-response", "exec %d: %s was answered with neither a response nor an error%s", e.ID, short(e.Req), faultNote(e))
		return
	}
	o, ok := objOf(e.Req)
	if !ok {
		return
	}
	b := j.objs[o]
	if b == nil {
		return
	}
	lo, hi := int64(0), int64(inf)
	spurious := false // an error the request does not deserve, whatever the size
	fault := len(e.Faults) > 0
	failed := e.Err != nil
	f := func(kind, why string, a ...any) {
		w.Fail(kind, "exec %d: %s -> %s%s: %s", e.ID, short(e.Req), short(e.Resp), faultNote(e), fmt.Sprintf(why, a...))
	}
	lt := logTypeOf(e.Req)
	switch q := e.Req.(type) {
	case *pb.LogAddEntryRequest, *pb.MapSetValueRequest:
		if failed && !fault && !(w.C.ReadOnly && e.Node.Idx > 0) {
			f("spurious-error", "failed without any fault: %v", e.Err)
		}
		if !failed && w.C.ReadOnly && e.Node.Idx > 0 {
			f("readonly-write", "a read-only server acknowledged a write")
		}
		return
	case *pb.LogTreeHashRequest:
		lj := j.log(o, lt)
		n := q.TreeSize
		if failed {
			switch {
			case n < 0:
				return
			case n == 0:
				spurious = true
			default:
				hi = n - 1
			}
			break
		}
		r := e.Resp.(*pb.LogTreeHashResponse)
		s := r.TreeSize
		if n < 0 || n > 0 && s != n {
			f("head-size", "asked for the head of size %d", n)
			return
		}
		if s > lj.L.Size() || s < 0 {
			f("head-ahead", "the log has only %d entries", lj.L.Size())
			return
		}
		if !rootEq(r.RootHash, lj.L.Roots[s]) {
			f("head-root", "the root of the first %d entries is %.8x", s, lj.L.Roots[s])
			return
		}
		if lo = s; n == 0 {
			hi = s
		}
	case *pb.LogFetchEntriesRequest:
		lj := j.log(o, lt)
		if failed {
			switch {
			case q.First < 0 || q.Last < 0 || q.Last > 0 && q.First >= q.Last:
				return
			case q.Last == 0:
				hi = q.First
			default:
				hi = q.Last - 1
			}
			if j.restricted(e.Req) {
				// Entries that are not JSON cannot be given to a reader restricted to some fields.
				hi = inf
				if j.mustFilter(e, lj) {
					spurious = true
				}
			}
			break
		}
		r := e.Resp.(*pb.LogFetchEntriesResponse)
		k := int64(len(r.Values))
		if q.First < 0 || q.Last < 0 || k == 0 || q.Last > 0 && k != q.Last-q.First {
			f("fetch-range", "wrong number of entries")
			return
		}
		if q.First+k > lj.L.Size() {
			f("fetch-range", "the log has only %d entries", lj.L.Size())
			return
		}
		for i, v := range r.Values {
			at := q.First + int64(i)
			if !j.sameEntry(keyFor(e), o, lt, v, lj.E[at]) {
				f("fetch-data", "entry %d is %q / %q, want %q / %q", at, v.GetLeafInput(), v.GetExtraData(), lj.E[at].LeafInput, lj.E[at].ExtraData)
				return
			}
		}
		if lo = q.First + k; q.Last == 0 {
			hi = lo
		}
	case *pb.LogInclusionProofRequest:
		lj := j.log(o, lt)
		n := q.TreeSize
		pos := q.LeafIndex
		byHash := len(q.MtlHash) > 0
		var known bool
		if byHash {
			var p int
			p, known = lj.L.Index[string(q.MtlHash)]
			pos = int64(p)
		}
		if failed {
			switch {
			case n < 0 || byHash && !known || !byHash && pos < 0 || n > 0 && pos >= n:
				return
			case n == 0:
				hi = pos
			default:
				hi = n - 1
			}
			break
		}
		r := e.Resp.(*pb.LogInclusionProofResponse)
		s := r.TreeSize
		if n < 0 || byHash && !known || pos < 0 || pos >= s || n > 0 && s != n || s > lj.L.Size() {
			f("incl-refuse", "this should have been refused (position %d known %v, log size %d)", pos, known, lj.L.Size())
			return
		}
		if r.LeafIndex != pos || !lj.L.CheckInclusion(pos, s, r.AuditPath) {
			f("incl-proof", "the proof for position %d does not verify", pos)
			return
		}
		if lo = s; n == 0 {
			hi = s
		}
	case *pb.LogConsistencyProofRequest:
		lj := j.log(o, lt)
		m, n := q.FromSize, q.TreeSize
		if failed {
			switch {
			case m <= 0 || n < 0 || n > 0 && m >= n:
				return
			case n == 0:
				hi = m
			default:
				hi = n - 1
			}
			break
		}
		r := e.Resp.(*pb.LogConsistencyProofResponse)
		s := r.TreeSize
		if m <= 0 || n < 0 || m >= s || n > 0 && s != n || s > lj.L.Size() {
			f("cons-refuse", "this should have been refused (log size %d)", lj.L.Size())
			return
		}
		if r.FromSize != m || !lj.L.CheckConsistency(m, s, r.AuditPath) {
			f("cons-proof", "the proof does not verify")
			return
		}
		if lo = s; n == 0 {
			hi = s
		}
	case *pb.MapGetValueRequest:
		n := q.TreeSize
		if failed {
			switch {
			case n < 0:
				return
			case n == 0:
				spurious = true
			default:
				hi = n - 1
			}
			if j.restricted(e.Req) {
				spurious = false
				hi = inf
				if len(b.Muts) > 0 && !j.allFilterable(b) {
					break
				}
				if n == 0 {
					spurious = true
				} else {
					hi = n - 1
				}
			}
			break
		}
		r := e.Resp.(*pb.MapGetValueResponse)
		s := r.TreeSize
		if n < 0 || n > 0 && s != n || s < 0 || s >= int64(len(b.States)) {
			f("get-size", "map size is %d", len(b.States)-1)
			return
		}
		st := b.States[s]
		if !j.sameValue(keyFor(e), o, st, q.Key, r.Value) {
			kh := ref.KeyHash(q.Key)
			want := "nothing"
			if m := st.Vals[kh]; m != nil {
				want = fmt.Sprintf("%q / %q", m.Value, m.Data.(*pb.LeafData).GetExtraData())
			}
			if !j.otherData(b, st, kh, r.Value) {
				f("get-value", "the value is %q / %q, want %s", r.Value.GetLeafInput(), r.Value.GetExtraData(), want)
				return
			}
			f("get-extra", "the value has the data of another mutation with the same leaf input: %q, want %s", r.Value.GetExtraData(), want)
		}
		kh := ref.KeyHash(q.Key)
		if root, err := ref.RootFromMapPath(&kh, ref.LeafHash(r.Value.GetLeafInput()), r.AuditPath); err != nil || !bytes.Equal(root, st.Root) {
			f("get-proof", "the proof gives root %.8x (%v), the map's root is %.8x", root, err, st.Root)
			return
		}
		if lo = s; n == 0 {
			hi = s
		}
	case *pb.MapTreeHashRequest:
		n := q.TreeSize
		if failed {
			switch {
			case n < 0:
				return
			case n == 0:
				spurious = true
			default:
				hi = n - 1
			}
			break
		}
		r := e.Resp.(*pb.MapTreeHashResponse)
		s := r.GetMutationLog().GetTreeSize()
		if n < 0 || n > 0 && s != n || s < 0 || s >= int64(len(b.States)) {
			f("mhead-size", "map size is %d", len(b.States)-1)
			return
		}
		if !b.goodMapHead(r) {
			f("mhead-root", "replaying the mutations gives root %.8x, mutation log %.8x; answered %.8x, %.8x", b.States[s].Root, b.Mut.L.Roots[s], r.RootHash, r.GetMutationLog().GetRootHash())
			return
		}
		if lo = s; n == 0 {
			hi = s
		}
	}
	if failed {
		if spurious && !fault {
			f("spurious-error", "failed without any fault: %v", e.Err)
		}
		if fault {
			// Not an answer to anything, but "not there" is one.
			if c := status.Code(e.Err); c == codes.NotFound && hi != inf && !misleading(e) {
				j.refused(b, e, hi)
			}
			return
		}
		if e.Stale {
			return
		}
	}
	if e.Stale {
		hi = inf
	}
	if lo > 0 || hi != inf {
		b.reads = append(b.reads, span{e, lo, hi})
	}
}

// misleading: the injected failure itself claimed that something does not exist.
func misleading(e *Exec) bool {
	for _, f := range e.Faults {
		if f == "storage.misleading" {
			return true
		}
	}
	return false
}

// refused: with a storage failure underneath, the server said "not found"; that is only true
// if the size really was at most hi.
func (j *Judge) refused(b *objJ, e *Exec, hi int64) {
	j.w.After = append(j.w.After, func(*Judge) {
		if b.sizeSurely(e.Start) > hi {
			j.w.Fail("fault-notfound", "exec %d: %s%s was answered with %v although it is there", e.ID, short(e.Req), faultNote(e), e.Err)
		}
	})
}

func keyFor(e *Exec) string {
	if e.Final {
		return "\x00final"
	}
	return apiKeyOf(e.Req)
}

func (b *objJ) goodMapHead(h *pb.MapTreeHashResponse) bool {
	if h == nil || h.MutationLog == nil {
		return false
	}
	s := h.MutationLog.TreeSize
	if s < 0 || s >= int64(len(b.States)) {
		return false
	}
	if s == 0 {
		return (len(h.RootHash) == 0 || bytes.Equal(h.RootHash, ref.Defaults[0])) && len(h.MutationLog.RootHash) == 0
	}
	return bytes.Equal(h.RootHash, b.States[s].Root) && bytes.Equal(h.MutationLog.RootHash, b.Mut.L.Roots[s])
}

// linearize: is there one instant for every operation? The size only grows, each entry appears
// at one instant; bounds on these instants follow from every observation.
func (j *Judge) linearize(b *objJ) {
	w := j.w
	n := len(b.seq().E)
	L := make([]int64, n)
	U := make([]int64, n)
	lw := make([]string, n)
	uw := make([]string, n)
	for i := range U {
		U[i] = inf
	}
	low := func(i int, t int64, why *Exec) {
		if i >= 0 && i < n && t > L[i] {
			L[i] = t
			lw[i] = fmt.Sprintf("exec %d (%s, started at %d) did not see it", why.ID, short(why.Req), why.Start)
		}
	}
	up := func(i int, t int64, why *Exec, what string) {
		if i >= 0 && i < n && t < U[i] {
			U[i] = t
			uw[i] = fmt.Sprintf("exec %d (%s, ended at %d) %s", why.ID, short(why.Req), why.End, what)
		}
	}
	for i := 0; i < n; i++ {
		if es := b.subs[i]; len(es) > 0 {
			min := es[0]
			for _, e := range es {
				if e.Start < min.Start {
					min = e
				}
			}
			if min.Start > L[i] {
				L[i] = min.Start
				lw[i] = fmt.Sprintf("it was first submitted by exec %d at %d", min.ID, min.Start)
			}
			if !w.C.Batch {
				for _, e := range es {
					if e.Done && e.Err == nil {
						up(i, e.End, e, "was acknowledged")
					}
				}
			}
		}
	}
	for _, r := range b.reads {
		if r.hi < int64(n) {
			low(int(r.hi), r.e.Start, r.e)
		}
		if r.lo > 0 && r.lo <= int64(n) {
			up(int(r.lo-1), r.e.End, r.e, fmt.Sprintf("saw size %d", r.lo))
		}
	}
	for i := 1; i < n; i++ {
		if L[i-1] > L[i] {
			L[i], lw[i] = L[i-1], lw[i-1]
		}
	}
	for i := n - 2; i >= 0; i-- {
		if U[i+1] < U[i] {
			U[i], uw[i] = U[i+1], uw[i+1]
		}
	}
	b.lower, b.upper = L, U
	for i := 0; i < n; i++ {
		if L[i] > U[i] {
			w.Fail("lin", "%s: no instant at which entry %d can have been added: %s, yet %s", b.o, i, uw[i], lw[i])
			return
		}
	}
	for _, r := range b.reads {
		if r.lo > int64(n) {
			w.Fail("lin", "%s: exec %d saw size %d, final size is %d", b.o, r.e.ID, r.lo, n)
		}
	}
}

// sizeSurely is a size that was certainly reached before the given instant.
func (b *objJ) sizeSurely(t int64) int64 {
	return int64(sort.Search(len(b.upper), func(i int) bool { return b.upper[i] >= t }))
}

// fifo: mutations accepted one after the other are sequenced in that order.
func (j *Judge) fifo() {
	w := j.w
	if w.C.Nodes > 1 && w.C.Batch {
		return // several servers each have their own queue
	}
	if w.C.Batch && !w.lossless() {
		return
	}
	for _, b := range j.list {
		type acc struct{ pos, start, end int64 }
		var as []acc
		for i := range b.seq().E {
			a := acc{int64(i), inf, inf}
			for _, e := range b.subs[i] {
				if e.Start < a.start {
					a.start = e.Start
				}
				if e.Done && e.Err == nil && e.End < a.end {
					a.end = e.End
				}
			}
			as = append(as, a)
		}
		min := int64(inf) // earliest end among later positions
		minPos := int64(0)
		for i := len(as) - 1; i >= 0; i-- {
			if as[i].start != inf && as[i].start > min {
				w.Fail("fifo", "%s: entry %d was accepted before the submission of entry %d began, but comes after it", b.o, minPos, as[i].pos)
				break
			}
			if as[i].end < min {
				min, minPos = as[i].end, as[i].pos
			}
		}
	}
}

// held: with the batching mutator, nothing is held longer than the timeout.
func (j *Judge) held(b *objJ) {
	w := j.w
	if !w.C.Watch || !w.C.Batch {
		return
	}
	j.heldCheck(b)
}

// sameEntry compares a log entry that was read with the one that is stored, through the eyes
// of the reader with the given key.
func (j *Judge) sameEntry(key string, o Obj, lt pb.LogType, got, want *pb.LeafData) bool {
	if f, ok := j.filterFor(key, o, readPerm(lt)); ok && f != verifiable.AllFields && lt != pb.LogType_STRUCT_TYPE_TREEHEAD_LOG {
		return j.redactedEntry(lt, f, got, want)
	}
	return sameLeaf(got, want)
}

func (j *Judge) sameValue(key string, o Obj, st *ref.State, k []byte, v *pb.LeafData) bool {
	kh := ref.KeyHash(k)
	m := st.Vals[kh]
	if m == nil {
		return len(v.GetLeafInput()) == 0 && len(v.GetExtraData()) == 0
	}
	want := m.Data.(*pb.LeafData)
	if f, ok := j.filterFor(key, o, pb.Permission_PERM_MAP_GET_VALUE); ok && f != verifiable.AllFields {
		return j.redactedValue(f, v, want)
	}
	return sameLeaf(v, want)
}

// otherData: the value has the right leaf input, but the data that another mutation set with that input.
func (j *Judge) otherData(b *objJ, st *ref.State, kh [32]byte, v *pb.LeafData) bool {
	m := st.Vals[kh]
	if m == nil || !bytes.Equal(m.Value, v.GetLeafInput()) {
		return false
	}
	for _, x := range b.Muts {
		if x.Value != nil && sameLeaf(x.Value, v) {
			return true
		}
	}
	return false
}
