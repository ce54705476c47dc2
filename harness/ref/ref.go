// Package ref is the reference the simulated system is judged by: RFC 6962 logs and sparse
// Merkle maps, written from their definitions and independent of the code under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"sync"
)

// LeafHash is the hash of a leaf.
func LeafHash(b []byte) []byte {
	x := make([]byte, 0, len(b)+1)
	x = append(append(x, 0), b...)
	h := sha256.Sum256(x)
	return h[:]
}

// NodeHash is the hash of an inner node.
func NodeHash(l, r []byte) []byte {
	x := make([]byte, 0, 65)
	x = append(append(append(x, 1), l...), r...)
	h := sha256.Sum256(x)
	return h[:]
}

// MTH is the Merkle tree hash of leaf hashes (nil if there are none).
func MTH(hs [][]byte) []byte {
	switch len(hs) {
	case 0:
		return nil
	case 1:
		return hs[0]
	}
	k := split(len(hs))
	return NodeHash(MTH(hs[:k]), MTH(hs[k:]))
}

// split is the largest power of two below n.
func split(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}

// Path is the inclusion proof of leaf m in hs.
func Path(m int, hs [][]byte) [][]byte {
	if len(hs) <= 1 {
		return nil
	}
	k := split(len(hs))
	if m < k {
		return append(Path(m, hs[:k]), MTH(hs[k:]))
	}
	return append(Path(m-k, hs[k:]), MTH(hs[:k]))
}

// Proof is the consistency proof between the first m and all of hs.
func Proof(m int, hs [][]byte) [][]byte { return subproof(m, hs, true) }

func subproof(m int, hs [][]byte, b bool) [][]byte {
	if m == len(hs) {
		if b {
			return nil
		}
		return [][]byte{MTH(hs)}
	}
	k := split(len(hs))
	if m <= k {
		return append(subproof(m, hs[:k], b), MTH(hs[k:]))
	}
	return append(subproof(m-k, hs[k:], false), MTH(hs[:k]))
}

// RootFromPath recomputes the root from an inclusion proof; nil if it has the wrong shape.
func RootFromPath(m, n int, leaf []byte, path [][]byte) []byte {
	if n == 1 {
		if m != 0 || len(path) != 0 {
			return nil
		}
		return leaf
	}
	if m < 0 || m >= n || len(path) == 0 {
		return nil
	}
	k := split(n)
	last, rest := path[len(path)-1], path[:len(path)-1]
	if m < k {
		l := RootFromPath(m, k, leaf, rest)
		if l == nil {
			return nil
		}
		return NodeHash(l, last)
	}
	r := RootFromPath(m-k, n-k, leaf, rest)
	if r == nil {
		return nil
	}
	return NodeHash(last, r)
}

// RootsFromProof recomputes both roots from a consistency proof, given the root of the
// smaller tree (used when it is a complete subtree).
func RootsFromProof(m, n int, proof [][]byte, first []byte) (a, b []byte, ok bool) {
	if m <= 0 || m >= n {
		return nil, nil, false
	}
	return fromProof(m, n, proof, first, true)
}

func fromProof(m, n int, p [][]byte, first []byte, whole bool) ([]byte, []byte, bool) {
	if m == n {
		if whole {
			return first, first, len(p) == 0
		}
		if len(p) != 1 {
			return nil, nil, false
		}
		return p[0], p[0], true
	}
	if len(p) == 0 {
		return nil, nil, false
	}
	last, rest := p[len(p)-1], p[:len(p)-1]
	k := split(n)
	if m <= k {
		a, b, ok := fromProof(m, k, rest, first, whole)
		if !ok {
			return nil, nil, false
		}
		return a, NodeHash(b, last), true
	}
	a, b, ok := fromProof(m-k, n-k, rest, first, false)
	if !ok {
		return nil, nil, false
	}
	return NodeHash(last, a), NodeHash(last, b), true
}

// Log is a log with all its roots.
type Log struct {
	Hashes [][]byte
	Roots  [][]byte // Roots[n] is the root of the first n
	Index  map[string]int
}

// NewLog makes the model of a log from its leaf inputs.
func NewLog(leaves [][]byte) *Log {
	l := &Log{Roots: [][]byte{nil}, Index: map[string]int{}}
	var stack [][]byte
	for i, x := range leaves {
		h := LeafHash(x)
		l.Hashes = append(l.Hashes, h)
		if _, ok := l.Index[string(h)]; !ok {
			l.Index[string(h)] = i
		}
		stack = append(stack, h)
		for z := i; z&1 == 1; z >>= 1 {
			k := len(stack)
			stack = append(stack[:k-2:k-2], NodeHash(stack[k-2], stack[k-1]))
		}
		r := stack[len(stack)-1]
		for z := len(stack) - 2; z >= 0; z-- {
			r = NodeHash(stack[z], r)
		}
		l.Roots = append(l.Roots, r)
	}
	return l
}

// Size is the number of entries.
func (l *Log) Size() int64 { return int64(len(l.Hashes)) }

// CheckInclusion says whether a proof shows leaf m in the tree of size n.
func (l *Log) CheckInclusion(m, n int64, path [][]byte) bool {
	if m < 0 || n > l.Size() || m >= n {
		return false
	}
	return bytes.Equal(RootFromPath(int(m), int(n), l.Hashes[m], path), l.Roots[n])
}

// CheckConsistency says whether a proof links sizes m and n.
func (l *Log) CheckConsistency(m, n int64, proof [][]byte) bool {
	if m <= 0 || m >= n || n > l.Size() {
		return false
	}
	a, b, ok := RootsFromProof(int(m), int(n), proof, l.Roots[m])
	return ok && bytes.Equal(a, l.Roots[m]) && bytes.Equal(b, l.Roots[n])
}

// Defaults[d] is the hash of an empty subtree at depth d of a map.
var Defaults = func() [][]byte {
	rv := make([][]byte, 257)
	rv[256] = LeafHash(nil)
	for i := 255; i >= 0; i-- {
		rv[i] = NodeHash(rv[i+1], rv[i+1])
	}
	return rv
}()

// NullLeaf is the leaf hash of an absent value.
var NullLeaf = Defaults[256]

// KeyHash is the path of a key.
func KeyHash(key []byte) [32]byte { return sha256.Sum256(key) }

// Bit is bit i of a path.
func Bit(k *[32]byte, i int) bool { return k[i/8]>>(7-uint(i%8))&1 == 1 }

type chainKey struct {
	k [32]byte
	l [32]byte
}

var (
	chainMu sync.Mutex
	chains  = map[chainKey]*[257][]byte{}
)

func chain(k *[32]byte, leaf []byte, depth int) []byte {
	var ck chainKey
	ck.k = *k
	copy(ck.l[:], leaf)
	chainMu.Lock()
	c := chains[ck]
	chainMu.Unlock()
	if c == nil {
		c = &[257][]byte{}
		c[256] = leaf
		for i := 255; i >= 0; i-- {
			if Bit(k, i) {
				c[i] = NodeHash(Defaults[i+1], c[i+1])
			} else {
				c[i] = NodeHash(c[i+1], Defaults[i+1])
			}
		}
		chainMu.Lock()
		if len(chains) > 4000 {
			chains = map[chainKey]*[257][]byte{}
		}
		chains[ck] = c
		chainMu.Unlock()
	}
	return c[depth]
}

// Item is a present key of a map.
type Item struct {
	K    [32]byte
	Leaf []byte // leaf hash
}

// MapRoot is the root over sorted items below depth.
func MapRoot(items []Item, depth int) []byte {
	switch len(items) {
	case 0:
		return Defaults[depth]
	case 1:
		return chain(&items[0].K, items[0].Leaf, depth)
	}
	i := 0
	for i < len(items) && !Bit(&items[i].K, depth) {
		i++
	}
	return NodeHash(MapRoot(items[:i], depth+1), MapRoot(items[i:], depth+1))
}

// MapPath is the proof for key hash k: the sibling at every depth, nil where it is empty.
func MapPath(items []Item, k *[32]byte) [][]byte {
	rv := make([][]byte, 256)
	for d := 0; d < 256 && len(items) > 0; d++ {
		i := 0
		for i < len(items) && !Bit(&items[i].K, d) {
			i++
		}
		sib := items[:i]
		own := items[i:]
		if !Bit(k, d) {
			sib, own = own, sib
		}
		if len(sib) > 0 {
			rv[d] = MapRoot(sib, d+1)
		}
		items = own
	}
	return rv
}

// RootFromMapPath recomputes the root from a value's leaf hash and its proof.
func RootFromMapPath(k *[32]byte, leaf []byte, path [][]byte) ([]byte, error) {
	if len(path) != 256 {
		return nil, errors.New("proof does not have 256 elements")
	}
	t := leaf
	for i := 255; i >= 0; i-- {
		p := path[i]
		if len(p) == 0 {
			p = Defaults[i+1]
		} else if len(p) != 32 {
			return nil, errors.New("proof element is not a hash")
		}
		if Bit(k, i) {
			t = NodeHash(p, t)
		} else {
			t = NodeHash(t, p)
		}
	}
	return t, nil
}

// Mutation is a map mutation in the reference's terms.
type Mutation struct {
	Action string
	Key    []byte
	Value  []byte // leaf input
	Prev   []byte
	Data   any // the value as submitted
}

// State is a map state: immutable once made.
type State struct {
	Items []Item
	Vals  map[[32]byte]*Mutation // the mutation that set the present value
	Root  []byte
	Took  bool // the last mutation changed the leaf of its key
}

// Empty is the empty map.
func Empty() *State { return &State{Vals: map[[32]byte]*Mutation{}, Root: Defaults[0]} }

// Leaf returns the leaf hash at a key.
func (s *State) Leaf(k *[32]byte) []byte {
	if m, ok := s.Vals[*k]; ok {
		return LeafHash(m.Value)
	}
	return NullLeaf
}

// Apply makes the next state; ok is false if the mutation is not one.
func (s *State) Apply(m *Mutation) (*State, bool) {
	k := KeyHash(m.Key)
	prev := s.Leaf(&k)
	next := prev
	switch m.Action {
	case "set":
		next = LeafHash(m.Value)
	case "delete":
		next = NullLeaf
	case "update":
		if bytes.Equal(prev, m.Prev) {
			next = LeafHash(m.Value)
		}
	default:
		return nil, false
	}
	if bytes.Equal(prev, next) {
		return &State{Items: s.Items, Vals: s.Vals, Root: s.Root}, true
	}
	n := &State{Vals: make(map[[32]byte]*Mutation, len(s.Vals)+1), Took: true}
	for kk, v := range s.Vals {
		n.Vals[kk] = v
	}
	i := 0
	for i < len(s.Items) && bytes.Compare(s.Items[i].K[:], k[:]) < 0 {
		i++
	}
	n.Items = append(n.Items, s.Items[:i]...)
	if bytes.Equal(next, NullLeaf) {
		delete(n.Vals, k)
	} else {
		n.Vals[k] = m
		n.Items = append(n.Items, Item{k, next})
	}
	if i < len(s.Items) && s.Items[i].K == k {
		i++
	}
	n.Items = append(n.Items, s.Items[i:]...)
	n.Root = MapRoot(n.Items, 0)
	return n, true
}
