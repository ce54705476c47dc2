package sim

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/protobuf/proto"
)

// Methods of the service.
const (
	MAdd   = "LogAddEntry"
	MFetch = "LogFetchEntries"
	MHead  = "LogTreeHash"
	MIncl  = "LogInclusionProof"
	MCons  = "LogConsistencyProof"
	MSet   = "MapSetValue"
	MGet   = "MapGetValue"
	MMHead = "MapTreeHash"
)

type service = pb.VerifiableDataStructuresServiceServer

func isNil(m any) bool {
	return m == nil || reflect.ValueOf(m).IsNil()
}

func clone(m proto.Message) proto.Message {
	if isNil(m) {
		return m
	}
	return proto.Clone(m)
}

// dispatch calls a method by name.
func dispatch(ctx context.Context, s service, method string, req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *pb.LogAddEntryRequest:
		return s.LogAddEntry(ctx, r)
	case *pb.LogFetchEntriesRequest:
		return s.LogFetchEntries(ctx, r)
	case *pb.LogTreeHashRequest:
		return s.LogTreeHash(ctx, r)
	case *pb.LogInclusionProofRequest:
		return s.LogInclusionProof(ctx, r)
	case *pb.LogConsistencyProofRequest:
		return s.LogConsistencyProof(ctx, r)
	case *pb.MapSetValueRequest:
		return s.MapSetValue(ctx, r)
	case *pb.MapGetValueRequest:
		return s.MapGetValue(ctx, r)
	case *pb.MapTreeHashRequest:
		return s.MapTreeHash(ctx, r)
	}
	return nil, fmt.Errorf("bad request type %T", req)
}

// serviceFunc turns one function into the service interface.
type serviceFunc struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	f func(ctx context.Context, method string, req proto.Message) (proto.Message, error)
}

func as[T any](m proto.Message, err error) (T, error) {
	var zero T
	if m == nil || isNil(m) {
		return zero, err
	}
	return m.(T), err
}

func (s *serviceFunc) LogAddEntry(ctx context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return as[*pb.LogAddEntryResponse](s.f(ctx, MAdd, r))
}
func (s *serviceFunc) LogFetchEntries(ctx context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return as[*pb.LogFetchEntriesResponse](s.f(ctx, MFetch, r))
}
func (s *serviceFunc) LogTreeHash(ctx context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return as[*pb.LogTreeHashResponse](s.f(ctx, MHead, r))
}
func (s *serviceFunc) LogInclusionProof(ctx context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return as[*pb.LogInclusionProofResponse](s.f(ctx, MIncl, r))
}
func (s *serviceFunc) LogConsistencyProof(ctx context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return as[*pb.LogConsistencyProofResponse](s.f(ctx, MCons, r))
}
func (s *serviceFunc) MapSetValue(ctx context.Context, r *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return as[*pb.MapSetValueResponse](s.f(ctx, MSet, r))
}
func (s *serviceFunc) MapGetValue(ctx context.Context, r *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return as[*pb.MapGetValueResponse](s.f(ctx, MGet, r))
}
func (s *serviceFunc) MapTreeHash(ctx context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return as[*pb.MapTreeHashResponse](s.f(ctx, MMHead, r))
}

// recorder records what a server executes.
type recorder struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	w     *World
	n     *Node
	p     *rt.Proc
	inner service
}

func (r *recorder) do(ctx context.Context, method string, req proto.Message) (proto.Message, error) {
	w := r.w
	t := rt.Self()
	e := &Exec{ID: w.execs, Node: r.n, Proc: r.p, Method: method, Req: clone(req), StartT: w.S.Elapsed(), Final: w.Quiet}
	w.execs++
	var oldData any
	if t != nil {
		if c, ok := t.Ambient.(*Call); ok {
			e.Call = c
			c.Execs = append(c.Execs, e)
		}
		oldData = t.Data
		t.Data = e
		t.Faults = nil
	}
	w.Execs = append(w.Execs, e)
	e.Start = w.tick()
	w.S.Logf("exec %d %s %s", e.ID, method, short(req))
	// As with any server, the context of a request ends with it, if not before.
	outer := ctx
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	if t != nil && w.C.Cancel > 0 && !w.Quiet {
		e.cancel = cancel
	}
	resp, err := dispatch(ctx, r.inner, method, req)
	e.EndT = w.S.Elapsed()
	if t != nil {
		if err != nil && outer.Err() != nil && strings.Contains(err.Error(), outer.Err().Error()) {
			t.Faults = append(t.Faults, "request.gone")
		}
		e.Faults = t.Faults
		t.Faults = nil
		t.Data = oldData
	}
	e.Resp, e.Err = clone(resp), err
	e.End = w.tick()
	e.Done = true
	w.S.Logf("exec %d -> %s err=%v", e.ID, short(resp), err)
	if err == nil {
		w.learn(e)
	}
	return resp, err
}

// CancelPoint is where the client of the request that the calling task executes may cancel it.
func (w *World) CancelPoint() {
	if w.C.Cancel == 0 || w.Quiet || !w.FaultsOn {
		return
	}
	t := rt.Self()
	if t == nil {
		return
	}
	e, ok := t.Data.(*Exec)
	if !ok || e.cancel == nil || e.Done || !w.S.Chance("cancel", w.C.Cancel) {
		return
	}
	w.S.Fault("request.cancelled")
	t.Faults = append(t.Faults, "request.cancelled")
	e.cancel()
	e.cancel = nil
	rt.Yield("cancelled")
}

// learn keeps the sizes seen so far, from which clients pick interesting arguments.
func (w *World) learn(e *Exec) {
	if isNil(e.Resp) {
		return
	}
	o, ok := objOf(e.Req)
	if !ok {
		return
	}
	n := int64(0)
	switch r := e.Resp.(type) {
	case *pb.LogTreeHashResponse:
		n = r.TreeSize
	case *pb.MapTreeHashResponse:
		n = r.GetMutationLog().GetTreeSize()
	case *pb.LogInclusionProofResponse:
		n = r.TreeSize
	case *pb.MapGetValueResponse:
		n = r.TreeSize
	case *pb.LogAddEntryResponse, *pb.MapSetValueResponse:
		w.leafs[o.String()] = append(w.leafs[o.String()], leafOf(e.Resp))
		if !w.C.Batch {
			k := o.String() + string(leafOf(e.Resp))
			if w.hint[k] == 0 {
				w.hint[k] = 1
				n = w.hint[o.String()] + 1
			}
		}
	}
	if n > w.hint[o.String()] {
		w.hint[o.String()] = n
	}
}

func leafOf(m proto.Message) []byte {
	switch r := m.(type) {
	case *pb.LogAddEntryResponse:
		return r.LeafHash
	case *pb.MapSetValueResponse:
		return r.LeafHash
	}
	return nil
}

func objOf(req proto.Message) (Obj, bool) {
	if isNil(req) {
		return Obj{}, false
	}
	var l *pb.LogRef
	var m *pb.MapRef
	switch r := req.(type) {
	case *pb.LogAddEntryRequest:
		l = r.Log
	case *pb.LogFetchEntriesRequest:
		l = r.Log
	case *pb.LogTreeHashRequest:
		l = r.Log
	case *pb.LogInclusionProofRequest:
		l = r.Log
	case *pb.LogConsistencyProofRequest:
		l = r.Log
	case *pb.MapSetValueRequest:
		m = r.Map
	case *pb.MapGetValueRequest:
		m = r.Map
	case *pb.MapTreeHashRequest:
		m = r.Map
	}
	if m != nil && m.Account != nil {
		return Obj{m.Account.Id, m.Name, true}, true
	}
	if l != nil && l.Account != nil {
		return Obj{l.Account.Id, l.Name, l.LogType != pb.LogType_STRUCT_TYPE_LOG}, true
	}
	return Obj{}, false
}

func logTypeOf(req proto.Message) pb.LogType {
	type hasLog interface{ GetLog() *pb.LogRef }
	if h, ok := req.(hasLog); ok {
		return h.GetLog().GetLogType()
	}
	return pb.LogType_STRUCT_TYPE_LOG
}

func apiKeyOf(req proto.Message) string {
	type hasLog interface{ GetLog() *pb.LogRef }
	type hasMap interface{ GetMap() *pb.MapRef }
	if h, ok := req.(hasLog); ok {
		return h.GetLog().GetAccount().GetApiKey()
	}
	if h, ok := req.(hasMap); ok {
		return h.GetMap().GetAccount().GetApiKey()
	}
	return ""
}

func (r *recorder) LogAddEntry(ctx context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return as[*pb.LogAddEntryResponse](r.do(ctx, MAdd, q))
}
func (r *recorder) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return as[*pb.LogFetchEntriesResponse](r.do(ctx, MFetch, q))
}
func (r *recorder) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return as[*pb.LogTreeHashResponse](r.do(ctx, MHead, q))
}
func (r *recorder) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return as[*pb.LogInclusionProofResponse](r.do(ctx, MIncl, q))
}
func (r *recorder) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return as[*pb.LogConsistencyProofResponse](r.do(ctx, MCons, q))
}
func (r *recorder) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return as[*pb.MapSetValueResponse](r.do(ctx, MSet, q))
}
func (r *recorder) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return as[*pb.MapGetValueResponse](r.do(ctx, MGet, q))
}
func (r *recorder) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return as[*pb.MapTreeHashResponse](r.do(ctx, MMHead, q))
}

var (
	errRefused  = errors.New("simulated network: connection refused")
	errLost     = errors.New("simulated network: connection lost")
	errTimeout  = errors.New("simulated network: timed out")
	errNoAnswer = errors.New("simulated network: no answer")
)

// short prints a message for the log.
func short(m proto.Message) string {
	if s := short0(m); len(s) > 260 {
		return s[:260] + "..."
	} else {
		return s
	}
}

func short0(m proto.Message) string {
	if isNil(m) {
		return "nil"
	}
	switch r := m.(type) {
	case *pb.LogFetchEntriesResponse:
		return fmt.Sprintf("%d values", len(r.Values))
	case *pb.MapGetValueResponse:
		return fmt.Sprintf("size %d value %q", r.TreeSize, r.Value.GetLeafInput())
	case *pb.LogInclusionProofResponse:
		return fmt.Sprintf("size %d index %d path %d", r.TreeSize, r.LeafIndex, len(r.AuditPath))
	case *pb.LogConsistencyProofResponse:
		return fmt.Sprintf("%d->%d path %d", r.FromSize, r.TreeSize, len(r.AuditPath))
	case *pb.LogTreeHashResponse:
		return fmt.Sprintf("size %d root %.8x", r.TreeSize, r.RootHash)
	case *pb.MapTreeHashResponse:
		return fmt.Sprintf("size %d root %.8x", r.GetMutationLog().GetTreeSize(), r.RootHash)
	case *pb.LogAddEntryResponse:
		return fmt.Sprintf("leaf %.8x", r.LeafHash)
	case *pb.MapSetValueResponse:
		return fmt.Sprintf("leaf %.8x", r.LeafHash)
	}
	o, ok := objOf(m)
	if !ok {
		return "?"
	}
	s := o.String()
	switch r := m.(type) {
	case *pb.LogAddEntryRequest:
		return fmt.Sprintf("%s %q", s, r.Value.GetLeafInput())
	case *pb.LogFetchEntriesRequest:
		return fmt.Sprintf("%s/%d [%d,%d)", s, r.Log.LogType, r.First, r.Last)
	case *pb.LogTreeHashRequest:
		return fmt.Sprintf("%s/%d %d", s, r.Log.LogType, r.TreeSize)
	case *pb.LogInclusionProofRequest:
		return fmt.Sprintf("%s/%d index %d hash %.8x in %d", s, r.Log.LogType, r.LeafIndex, r.MtlHash, r.TreeSize)
	case *pb.LogConsistencyProofRequest:
		return fmt.Sprintf("%s/%d %d->%d", s, r.Log.LogType, r.FromSize, r.TreeSize)
	case *pb.MapSetValueRequest:
		u := r.Mutation
		return fmt.Sprintf("%s %s %q=%q prev %.8x", s, u.GetAction(), u.GetKey(), u.GetValue().GetLeafInput(), u.GetPreviousLeafHash())
	case *pb.MapGetValueRequest:
		return fmt.Sprintf("%s %q in %d", s, r.Key, r.TreeSize)
	case *pb.MapTreeHashRequest:
		return fmt.Sprintf("%s %d", s, r.TreeSize)
	}
	return s
}
