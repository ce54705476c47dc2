package sim

import (
	"bytes"
	"encoding/json"
	"fmt"

	"verifsim/ref"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// blog is one version of a log that a lying server may show.
type blog struct {
	E []*pb.LeafData
	L *ref.Log
}

// bmap is one version of a map.
type bmap struct {
	Muts    []*pb.MapMutation
	Mut, TH *blog
	States  []*ref.State
	Heads   []*pb.MapTreeHashResponse // by size
	Lies    string                    // how it differs from what its mutations give
}

// truth knows everything any server of the run ever committed to: with it, a root and a size
// determine the one sequence of leaf hashes they can stand for.
type truth struct {
	kids   map[string][2][]byte // inner node: its children
	leaf   map[string][]*pb.LeafData
	states map[string]*ref.State
	nodes  [][]byte // some hashes, for tampering
	vec    map[string][][]byte
}

func newTruth() *truth {
	return &truth{kids: map[string][2][]byte{}, leaf: map[string][]*pb.LeafData{}, states: map[string]*ref.State{}, vec: map[string][][]byte{}}
}

func splitAt(n int64) int64 {
	k := int64(1)
	for k*2 < n {
		k *= 2
	}
	return k
}

func (t *truth) newLog(es []*pb.LeafData) *blog {
	var in [][]byte
	for _, e := range es {
		in = append(in, e.GetLeafInput())
	}
	b := &blog{E: es, L: ref.NewLog(in)}
	for i, e := range es {
		k := string(b.L.Hashes[i])
		known := false
		for _, x := range t.leaf[k] {
			known = known || proto.Equal(x, e)
		}
		if !known {
			t.leaf[k] = append(t.leaf[k], e)
		}
		t.nodes = append(t.nodes, b.L.Hashes[i])
	}
	memo := map[[2]int][]byte{}
	var node func(i, j int) []byte
	node = func(i, j int) []byte {
		if j == i+1 {
			return b.L.Hashes[i]
		}
		if h, ok := memo[[2]int{i, j}]; ok {
			return h
		}
		k := i + int(splitAt(int64(j-i)))
		l, r := node(i, k), node(k, j)
		h := ref.NodeHash(l, r)
		memo[[2]int{i, j}] = h
		if _, ok := t.kids[string(h)]; !ok {
			t.kids[string(h)] = [2][]byte{l, r}
			t.nodes = append(t.nodes, h)
		}
		return h
	}
	for n := 1; n <= len(es); n++ {
		node(0, n)
	}
	return b
}

// expand gives the leaf hashes that a head commits to; nil where nobody can know.
func (t *truth) expand(root []byte, n int64) [][]byte {
	if n <= 0 || n > 1<<14 {
		return nil
	}
	key := fmt.Sprintf("%d.%s", n, root)
	if v, ok := t.vec[key]; ok {
		return v
	}
	rv := make([][]byte, n)
	var walk func(h []byte, at, n int64)
	walk = func(h []byte, at, n int64) {
		if n == 1 {
			rv[at] = h
			return
		}
		c, ok := t.kids[string(h)]
		if !ok {
			return
		}
		k := splitAt(n)
		walk(c[0], at, k)
		walk(c[1], at+k, n-k)
	}
	walk(root, 0, n)
	t.vec[key] = rv
	return rv
}

// prefix is the root of the first m of the n leaves that root commits to, nil if nobody can know.
func (t *truth) prefix(root []byte, n, m int64) []byte {
	if m == n {
		return root
	}
	if m <= 0 || m > n {
		return nil
	}
	c, ok := t.kids[string(root)]
	if !ok {
		return nil
	}
	k := splitAt(n)
	if m <= k {
		return t.prefix(c[0], k, m)
	}
	r := t.prefix(c[1], n-k, m-k)
	if r == nil {
		return nil
	}
	return ref.NodeHash(c[0], r)
}

// consistent says whether one of the heads is a prefix of the other.
func (t *truth) consistent(a, b *pb.LogTreeHashResponse) bool {
	if a.GetTreeSize() > b.GetTreeSize() {
		a, b = b, a
	}
	if a.GetTreeSize() == 0 {
		return true
	}
	if a.GetTreeSize() == b.GetTreeSize() {
		return bytes.Equal(a.GetRootHash(), b.GetRootHash())
	}
	if a.GetTreeSize() < 0 {
		return false
	}
	p := t.prefix(b.RootHash, b.TreeSize, a.TreeSize)
	return p != nil && bytes.Equal(p, a.RootHash)
}

// has says whether a head commits to a leaf.
func (t *truth) has(h *pb.LogTreeHashResponse, leaf []byte) bool {
	for _, x := range t.expand(h.GetRootHash(), h.GetTreeSize()) {
		if x != nil && bytes.Equal(x, leaf) {
			return true
		}
	}
	return false
}

func (t *truth) addStates(ss []*ref.State) {
	for _, s := range ss {
		t.states[string(s.Root)] = s
	}
}

// docHash is the leaf input of a map head's entry in the tree-head log.
func docHash(m any) []byte {
	d, err := json.Marshal(m)
	if err != nil {
		return nil
	}
	var o any
	if json.Unmarshal(d, &o) != nil {
		return nil
	}
	h, err := objecthash.ObjectHashWithStdRedaction(o)
	if err != nil {
		return nil
	}
	return h
}

func mutLeaf(m *pb.MapMutation) *pb.LeafData {
	d, err := verifiable.CreateJSONLeafDataFromMutation(m)
	if err != nil {
		panic(err)
	}
	return d
}

// step applies a mutation as the reference does.
func step(st *ref.State, m *pb.MapMutation) (*ref.State, bool) {
	return st.Apply(&ref.Mutation{Action: m.Action, Key: m.Key, Value: m.GetValue().GetLeafInput(), Prev: m.PreviousLeafHash, Data: m.Value})
}

// newMap makes a version of a map; cheat may replace the state after some mutation, thEdit the
// tree heads it publishes.
func (t *truth) newMap(muts []*pb.MapMutation, lies string, cheat func(i int, before, right *ref.State) *ref.State, thEdit func(i int, h *pb.MapTreeHashResponse) *pb.MapTreeHashResponse) *bmap {
	b := &bmap{Muts: muts, Lies: lies, States: []*ref.State{ref.Empty()}}
	var es []*pb.LeafData
	for i, m := range muts {
		st := b.States[i]
		ns, ok := step(st, m)
		if !ok {
			ns = st
		}
		if cheat != nil {
			ns = cheat(i, st, ns)
		}
		b.States = append(b.States, ns)
		es = append(es, mutLeaf(m))
	}
	b.Mut = t.newLog(es)
	t.addStates(b.States)
	b.Heads = []*pb.MapTreeHashResponse{{RootHash: b.States[0].Root, MutationLog: &pb.LogTreeHashResponse{}}}
	var ths []*pb.LeafData
	for i := range muts {
		h := &pb.MapTreeHashResponse{RootHash: b.States[i+1].Root, MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(i + 1), RootHash: b.Mut.L.Roots[i+1]}}
		b.Heads = append(b.Heads, h)
		if thEdit != nil {
			h = thEdit(i, h)
		}
		d, err := verifiable.CreateJSONLeafDataFromObject(h)
		if err != nil {
			panic(err)
		}
		ths = append(ths, d)
	}
	b.TH = t.newLog(ths)
	return b
}

// head is the head of the first n entries.
func (b *blog) head(n int64) *pb.LogTreeHashResponse {
	return &pb.LogTreeHashResponse{TreeSize: n, RootHash: b.L.Roots[n]}
}

// incl is the proof of entry i among the first n.
func (b *blog) incl(i, n int64) *pb.LogInclusionProofResponse {
	return &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: i, AuditPath: ref.Path(int(i), b.L.Hashes[:n])}
}

func (b *blog) cons(m, n int64) *pb.LogConsistencyProofResponse {
	return &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: ref.Proof(int(m), b.L.Hashes[:n])}
}

func (b *bmap) get(key []byte, n int64) *pb.MapGetValueResponse {
	st := b.States[n]
	k := ref.KeyHash(key)
	rv := &pb.MapGetValueResponse{TreeSize: n, AuditPath: ref.MapPath(st.Items, &k), Value: &pb.LeafData{}}
	if m := st.Vals[k]; m != nil && m.Data != nil {
		if d, ok := m.Data.(*pb.LeafData); ok && d != nil {
			rv.Value = proto.Clone(d).(*pb.LeafData)
		}
	}
	return rv
}
