package sim

import (
	"fmt"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// norm removes differences between messages that mean nothing.
func norm(m proto.Message) proto.Message {
	if isNil(m) {
		return nil
	}
	m = proto.Clone(m)
	switch r := m.(type) {
	case *pb.MapGetValueResponse:
		if r.Value == nil {
			r.Value = &pb.LeafData{}
		}
	case *pb.MapTreeHashResponse:
		if r.MutationLog == nil {
			r.MutationLog = &pb.LogTreeHashResponse{}
		}
	case *pb.LogFetchEntriesResponse:
		for i, v := range r.Values {
			if v == nil {
				r.Values[i] = &pb.LeafData{}
			}
		}
	}
	return m
}

func same(a, b proto.Message) bool {
	a, b = norm(a), norm(b)
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return proto.Equal(a, b)
}

// class is the kind of failure a client can tell apart.
func class(err error) codes.Code {
	switch c := status.Code(err); c {
	case codes.OK, codes.PermissionDenied, codes.InvalidArgument, codes.NotFound:
		return c
	}
	return codes.Unknown
}

// transport checks that what the clients saw is what the servers did.
func (j *Judge) transport() {
	w := j.w
	for _, c := range w.Calls {
		if !c.Done {
			continue
		}
		if c.Raw {
			j.raw(c)
			continue
		}
		if c.Client.Trans == "grpcx" {
			if c.Err == nil || len(c.Execs) > 0 {
				w.Fail("trans-impostor", "call %d: %s of a client that was told to trust another certificate reached the server (executed %d times, err=%v)", c.ID, short(c.Req), len(c.Execs), c.Err)
			}
			continue
		}
		for _, e := range c.Execs {
			if e.Method != c.Method || !same(e.Req, c.Req) {
				w.Fail("trans-request", "call %d over %s: %s %v reached the service as %s %v", c.ID, c.Client.Trans, c.Method, c.Req, e.Method, e.Req)
			}
		}
		if c.Method == MSet && len(c.Execs) > 1+c.Dups {
			w.Fail("trans-twice", "call %d over %s (%v): %s of %v was executed %d times", c.ID, c.Client.Trans, c.Net, c.Method, c.Req, len(c.Execs))
		}
		if c.Err == nil {
			ok := false
			for _, e := range c.Execs {
				ok = ok || e.Done && e.Err == nil && same(e.Resp, c.Resp)
			}
			if !ok {
				got := "nothing that was executed"
				for _, e := range c.Execs {
					got = fmt.Sprintf("%s err=%v %v", short(e.Resp), e.Err, e.Resp)
				}
				w.Fail("trans-success", "call %d over %s (%v): %s succeeded with %s %v; the server did %s", c.ID, c.Client.Trans, c.Net, short(c.Req), short(c.Resp), c.Resp, got)
			}
			continue
		}
		if len(c.Net) > 0 {
			continue
		}
		if len(c.Execs) == 0 {
			if expressible(c) {
				w.Fail("trans-refused", "call %d over %s: %s failed without reaching the service: %v", c.ID, c.Client.Trans, short(c.Req), c.Err)
			}
			continue
		}
		ok, open := false, false
		var e *Exec
		for _, x := range c.Execs {
			switch {
			case !x.Done || x.Panicked:
				open = true
			case x.Err != nil && class(x.Err) == class(c.Err):
				ok = true
			default:
				e = x
			}
		}
		if ok || open || e == nil {
			continue
		}
		if e.Err == nil {
			w.Fail("trans-error", "call %d over %s: %s was executed with %s but reported as %v", c.ID, c.Client.Trans, short(c.Req), short(e.Resp), c.Err)
		} else {
			w.Fail("trans-kind", "call %d over %s: %s failed with %v (%s) but reported as %v (%s)", c.ID, c.Client.Trans, short(c.Req), e.Err, class(e.Err), c.Err, class(c.Err))
		}
	}
}

// expressible says whether the transport can carry the request at all.
func expressible(c *Call) bool {
	if c.Client.Trans != "rest" {
		return true
	}
	switch q := c.Req.(type) {
	case *pb.LogFetchEntriesRequest:
		return q.First >= 0 && q.Last >= 0
	case *pb.LogTreeHashRequest:
		return q.TreeSize >= 0
	case *pb.LogInclusionProofRequest:
		return q.TreeSize >= 0 && (len(q.MtlHash) > 0 || q.LeafIndex >= 0)
	case *pb.LogConsistencyProofRequest:
		return q.TreeSize >= 0 && q.FromSize >= 0
	case *pb.MapGetValueRequest:
		return q.TreeSize >= 0 && len(q.Key) > 0
	case *pb.MapTreeHashRequest:
		return q.TreeSize >= 0
	case *pb.MapSetValueRequest:
		return len(q.GetMutation().GetKey()) > 0
	}
	return true
}

// heldCheck: virtual time passes only while the batch writer waits, so it takes every mutation
// up the moment it is accepted; from then on it may hold it for the timeout, or until the batch
// is full. (With several objects, it may have to finish a batch for another one before.)
func (j *Judge) heldCheck(b *objJ) {
	w := j.w
	const slack = time.Millisecond
	lj := b.seq()
	acc := make([]time.Duration, len(lj.E))
	vis := make([]time.Duration, len(lj.E))
	for i := range lj.E {
		acc[i], vis[i] = -1, -1
		for _, e := range b.subs[i] {
			if e.Done && e.Err == nil && (acc[i] < 0 || e.EndT < acc[i]) {
				acc[i] = e.EndT
			}
		}
		for _, c := range w.Commits {
			if c.Obj == b.o && c.Size > int64(i) && (vis[i] < 0 || c.T < vis[i]) {
				vis[i] = c.T
			}
		}
	}
	hold := w.C.BatchTimeout
	if len(w.C.Objs) > 1 {
		hold *= 2
	}
	for i := range acc {
		if acc[i] < 0 {
			continue
		}
		bound := acc[i] + hold
		if vis[i] < 0 || vis[i] > bound+slack {
			w.Fail("held", "%s: entry %d was accepted at %v and became visible at %v; the timeout is %v", b.o, i, acc[i], vis[i], w.C.BatchTimeout)
			return
		}
		k := i + w.C.BatchSize - 1
		if len(w.C.Objs) > 1 || w.C.BatchSize < 1 || k >= len(acc) {
			continue
		}
		full := time.Duration(0)
		for x := i; x <= k; x++ {
			if acc[x] < 0 {
				full = -1
				break
			}
			if acc[x] > full {
				full = acc[x]
			}
		}
		if full >= 0 && vis[i] > full+slack {
			w.Fail("held", "%s: entry %d (accepted at %v) became visible at %v although %d mutations, a full batch, had been accepted by %v", b.o, i, acc[i], vis[i], w.C.BatchSize, full)
			return
		}
	}
}
