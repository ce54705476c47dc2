package sim

import (
	"context"
	"errors"
	"io"
	"syscall"

	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// faulty wraps the storage a node uses: every access is a scheduling point and may fail.
type faulty struct {
	w      *World
	node   *Node
	inner  verifiable.StorageWriter
	atomic bool // failed updates leave nothing behind, so errors may be injected inside them
	fine   bool // yield at every Get and Set
}

var errKinds = []error{
	errors.New("simulated storage failure"),
	syscall.EIO,
	status.Error(codes.Unavailable, "simulated storage unavailable"),
	context.DeadlineExceeded,
	io.ErrUnexpectedEOF,
	status.Error(codes.NotFound, "simulated failure with a misleading code"),
	syscall.ENOSPC,
}

func (f *faulty) fail(kind string) error {
	c := &f.w.C
	if !f.w.FaultsOn || c.StErr == 0 {
		return nil
	}
	rate := c.StErr
	switch kind {
	case "get", "set":
		rate = c.StErrIn
	}
	if f.node.sick && rate > 0 {
		rate = 5000
	}
	if !f.w.S.Chance("st", rate) {
		return nil
	}
	f.w.S.Fault("storage." + kind)
	e := errKinds[f.w.S.Choose("st", len(errKinds))]
	if status.Code(e) == codes.NotFound {
		f.w.S.Fault("storage.misleading")
	}
	return e
}

func (f *faulty) point(p string) {
	if !f.w.Quiet {
		rt.Yield(p)
		f.w.CancelPoint()
	}
}

// gone is the refusal of work for which nobody waits any more, as by back ends that heed contexts.
func (f *faulty) gone(ctx context.Context) error {
	err := ctx.Err()
	if err == nil {
		return nil
	}
	t := rt.Self()
	if t == nil {
		return err
	}
	if e, ok := t.Data.(*Exec); !ok || e.Done {
		// Not the work of a request: whoever does it had better use a context of its own.
		f.w.S.Logf("context done in the background")
		return err
	}
	f.w.S.Fault("storage.context-done")
	return err
}

func (f *faulty) ExecuteReadOnly(ctx context.Context, ns []byte, fn func(context.Context, verifiable.KeyReader) error) error {
	f.point("st.read")
	if err := f.gone(ctx); err != nil {
		return err
	}
	if err := f.fail("begin"); err != nil {
		return err
	}
	err := f.inner.ExecuteReadOnly(ctx, ns, func(ctx context.Context, kr verifiable.KeyReader) error {
		return fn(ctx, &faultyKR{f: f, r: kr})
	})
	f.point("st.read-end")
	return err
}

func (f *faulty) ExecuteUpdate(ctx context.Context, ns []byte, fn func(context.Context, verifiable.KeyWriter) error) error {
	f.point("st.update")
	if err := f.gone(ctx); err != nil {
		return err
	}
	if err := f.fail("begin"); err != nil {
		return err
	}
	err := f.inner.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {
		k := &faultyKW{faultyKR{f: f, r: kw, upd: true}, kw}
		if f.w.C.StDirty && !f.atomic {
			k.redo = 3
		}
		err := fn(ctx, k)
		for err != nil && k.hit && k.redo > 0 {
			f.w.S.Fault("storage.redo")
			k.redo, k.hit = k.redo-1, false
			err = fn(ctx, k)
		}
		if err == nil && f.atomic {
			f.point("st.commit")
			if e := f.gone(ctx); e != nil {
				return e
			}
			if e := f.fail("commit-before"); e != nil {
				return e
			}
		}
		return err
	})
	if err == nil {
		f.point("st.update-end")
		if e := f.fail("commit-after"); e != nil {
			return e
		}
	}
	return err
}

type faultyKR struct {
	f   *faulty
	r   verifiable.KeyReader
	upd bool
	// redo is how often the storage starts the update over, without undoing anything, when an access inside it fails.
	redo int
	hit  bool
}

func (k *faultyKR) Get(ctx context.Context, key []byte, value proto.Message) error {
	if k.f.fine {
		k.f.point("st.get")
	}
	if k.f.atomic || !k.upd || k.redo > 0 {
		if err := k.f.fail("get"); err != nil {
			k.hit = true
			return err
		}
	}
	return k.r.Get(ctx, key, value)
}

type faultyKW struct {
	faultyKR
	w verifiable.KeyWriter
}

func (k *faultyKW) Set(ctx context.Context, key []byte, value proto.Message) error {
	if k.f.fine {
		k.f.point("st.set")
	}
	if k.f.atomic || k.redo > 0 {
		if err := k.f.fail("set"); err != nil {
			k.hit = true
			return err
		}
	}
	return k.w.Set(ctx, key, value)
}
