package sim

import (
	"context"

	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// KV is the simulator's own transactional store: the durable state behind one or more
// server nodes. It keeps every version, so that readers have snapshots and replicas can lag.
type KV struct {
	ns map[string]*kvNS
}

type kvNS struct {
	ver    int
	rows   map[string][]kvVal
	holder *rt.Task
}

type kvVal struct {
	ver int
	val []byte // nil: deleted
	del bool
}

// NewKV makes an empty store.
func NewKV() *KV { return &KV{ns: map[string]*kvNS{}} }

func (k *KV) get(ns []byte) *kvNS {
	n, ok := k.ns[string(ns)]
	if !ok {
		n = &kvNS{rows: map[string][]kvVal{}}
		k.ns[string(ns)] = n
	}
	return n
}

func (n *kvNS) at(key string, ver int) ([]byte, bool) {
	vs := n.rows[key]
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].ver <= ver {
			return vs[i].val, !vs[i].del
		}
	}
	return nil, false
}

// View is a node's access to the store. A lagging view reads old (but never older) versions.
type View struct {
	KV    *KV
	Lag   func(ns string, have, newest int) int // nil: always the newest
	seen  map[string]int
	Stale func() // called when a read is served from an old version
}

type kvTx struct {
	n     *kvNS
	ver   int
	buf   map[string][]byte
	order []string
	rw    bool
}

func (t *kvTx) Get(ctx context.Context, key []byte, value proto.Message) error {
	if t.rw {
		if b, ok := t.buf[string(key)]; ok {
			if b == nil {
				return verifiable.ErrNoSuchKey
			}
			return proto.Unmarshal(b, value)
		}
	}
	b, ok := t.n.at(string(key), t.ver)
	if !ok {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(b, value)
}

func (t *kvTx) Set(ctx context.Context, key []byte, value proto.Message) error {
	var b []byte
	if value != nil {
		var err error
		b, err = proto.Marshal(value)
		if err != nil {
			return err
		}
		if b == nil {
			b = []byte{}
		}
	}
	if _, ok := t.buf[string(key)]; !ok {
		t.order = append(t.order, string(key))
	}
	t.buf[string(key)] = b
	return nil
}

// ExecuteReadOnly implements StorageReader.
func (v *View) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	n := v.KV.get(ns)
	ver := n.ver
	if v.Lag != nil {
		if v.seen == nil {
			v.seen = map[string]int{}
		}
		have := v.seen[string(ns)]
		if have < ver {
			have = v.Lag(string(ns), have, ver)
			v.seen[string(ns)] = have
		}
		if have < ver && v.Stale != nil {
			v.Stale()
		}
		ver = have
	}
	return f(ctx, &kvTx{n: n, ver: ver})
}

// ExecuteUpdate implements StorageWriter.
func (v *View) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	n := v.KV.get(ns)
	me := rt.Self()
	free := func() bool { return n.holder == nil || n.holder.Dead() }
	for !free() {
		rt.Block("kv.lock", free)
	}
	if me == nil {
		me = &rt.Task{}
	}
	n.holder = me
	defer func() {
		if n.holder == me {
			n.holder = nil
		}
	}()
	tx := &kvTx{n: n, ver: n.ver, buf: map[string][]byte{}, rw: true}
	if err := f(ctx, tx); err != nil {
		return err
	}
	if len(tx.order) > 0 {
		n.ver++
		for _, k := range tx.order {
			b := tx.buf[k]
			n.rows[k] = append(n.rows[k], kvVal{ver: n.ver, val: b, del: b == nil})
		}
	}
	return nil
}
