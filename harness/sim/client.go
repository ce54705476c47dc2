package sim

import (
	"context"
	"fmt"
	"time"

	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// Client is one user of the service, running its operations one after the other.
type Client struct {
	w       *World
	Idx     int
	Name    string
	Node    int // preferred server
	Trans   string
	Key     string
	Svc     service
	done    bool
	cur     string
	macro   *Macro
	task    *rt.Task
	prevLog map[string]*pb.LogTreeHashResponse
	prevMap map[string]*verifiable.MapTreeState
	leafs   map[string][][]byte
	opNo    int

	grpcCall *Call // in flight over gRPC
}

func (c *Client) spawn() {
	c.task = c.w.S.Go(c.Name, nil, func(t *rt.Task) {
		label := "ops." + c.Name
		for i := 0; i < c.w.C.Ops; i++ {
			v := c.w.S.Draw(label)
			if v == 0 {
				continue
			}
			c.opNo = i
			c.op(newRng(v))
		}
		c.done = true
	})
}

func (c *Client) acct() *verifiable.Client { return &verifiable.Client{Service: c.Svc} }

func (c *Client) log(o Obj) *verifiable.Log {
	return c.acct().Account(o.Acc, c.Key).VerifiableLog(o.Name)
}

func (c *Client) vmap(o Obj) *verifiable.Map {
	return c.acct().Account(o.Acc, c.Key).VerifiableMap(o.Name)
}

func (c *Client) newCall(method string, req proto.Message) *Call {
	w := c.w
	k := &Call{ID: len(w.Calls), Client: c, Method: method, Req: clone(req), Start: w.tick(), Macro: c.macro}
	w.Calls = append(w.Calls, k)
	if c.macro != nil {
		c.macro.Calls = append(c.macro.Calls, k)
	}
	return k
}

func (c *Client) endCall(k *Call, resp proto.Message, err error) (proto.Message, error) {
	k.Resp, k.Err = clone(resp), err
	k.End = c.w.tick()
	k.Done = true
	if err != nil && len(k.Net) > 0 {
		c.w.S.Logf("call %d %s failed: %v (%v)", k.ID, k.Method, err, k.Net)
	}
	return resp, err
}

func (c *Client) pickNode() *Node {
	w := c.w
	n := w.Nodes[c.Node]
	if len(w.Nodes) > 1 && w.S.Choose("net", 4) == 3 {
		n = w.Nodes[w.S.Choose("net", len(w.Nodes))]
	}
	if !n.Up { // fail over to one that is up
		for _, m := range w.Nodes {
			if m.Up {
				return m
			}
		}
	}
	return n
}

// errLocal: transports report requests they cannot carry through this.
type delivery struct {
	resp any
	err  error
	got  bool
}

// exchange carries one request over the simulated network. serve runs on the server, in a task
// of its process, and produces the answer; garble may damage an answer (nil: no such fault).
func (c *Client) exchange(k *Call, serve func(n *Node, t *rt.Task) (any, error), garble func(any) any) (any, error) {
	w := c.w
	s := w.S
	n := c.pickNode()
	k.Node = n
	cf := &w.C
	flt := w.FaultsOn
	chance := func(r int) bool { return flt && r > 0 && s.Chance("net", r) }
	delay := func() {
		if chance(cf.NetDelay) {
			s.Fault("net.delay")
			rt.Sleep(time.Duration(1+s.Choose("net", 2000)) * time.Millisecond)
		}
	}
	if !n.Up {
		k.net("refused")
		rt.Sleep(time.Duration(10+s.Choose("net", 200)) * time.Millisecond)
		return nil, errRefused
	}
	if chance(cf.NetDrop) {
		k.net("drop-request")
		rt.Sleep(time.Second)
		return nil, errNoAnswer
	}
	p := n.Proc
	d := &delivery{}
	start := func(name string, d *delivery, dup bool) {
		s.Go(fmt.Sprintf("%s:%s", p.Name, name), p, func(t *rt.Task) {
			t.Ambient = k
			if dup {
				rt.Sleep(time.Duration(s.Choose("net", 3000)) * time.Millisecond)
				rt.Yield("dup")
			}
			r, err := serve(n, t)
			d.resp, d.err, d.got = r, err, true
		})
	}
	delay()
	if chance(cf.NetDup) {
		s.Fault("net.duplicate")
		k.Dups++
		start(fmt.Sprintf("%s.%d.dup", c.Name, k.ID), &delivery{}, true)
	}
	start(fmt.Sprintf("%s.%d", c.Name, k.ID), d, false)
	deadline := int64(-1)
	if chance(cf.NetEarly) {
		deadline = s.Step + int64(s.Choose("net", 40))
	}
	rt.Block("net.wait", func() bool {
		return d.got || p.Dead || (deadline >= 0 && s.Step >= deadline)
	})
	switch {
	case d.got:
	case p.Dead:
		k.net("peer-died")
		return nil, errLost
	default:
		k.net("client-timeout")
		return nil, errTimeout
	}
	if chance(cf.NetLost) {
		k.net("lose-response")
		rt.Sleep(time.Second)
		return nil, errNoAnswer
	}
	delay()
	if d.err == nil && garble != nil && chance(cf.NetGarble) {
		k.net("garble-response")
		return garble(d.resp), nil
	}
	return d.resp, d.err
}

// directSvc is the client's view of a server over a transport that copies messages faithfully.
type directSvc struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	c *Client
}

func (d *directSvc) do(ctx context.Context, method string, req proto.Message) (proto.Message, error) {
	c := d.c
	k := c.newCall(method, req)
	r, err := c.exchange(k, func(n *Node, t *rt.Task) (any, error) {
		return dispatch(context.Background(), n.Svc, method, clone(req))
	}, nil)
	if err != nil {
		return c.endCall(k, nil, err)
	}
	m, _ := r.(proto.Message)
	return c.endCall(k, clone(m), nil)
}

func (r *directSvc) LogAddEntry(ctx context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return as[*pb.LogAddEntryResponse](r.do(ctx, MAdd, q))
}
func (r *directSvc) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return as[*pb.LogFetchEntriesResponse](r.do(ctx, MFetch, q))
}
func (r *directSvc) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return as[*pb.LogTreeHashResponse](r.do(ctx, MHead, q))
}
func (r *directSvc) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return as[*pb.LogInclusionProofResponse](r.do(ctx, MIncl, q))
}
func (r *directSvc) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return as[*pb.LogConsistencyProofResponse](r.do(ctx, MCons, q))
}
func (r *directSvc) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return as[*pb.MapSetValueResponse](r.do(ctx, MSet, q))
}
func (r *directSvc) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return as[*pb.MapGetValueResponse](r.do(ctx, MGet, q))
}
func (r *directSvc) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return as[*pb.MapTreeHashResponse](r.do(ctx, MMHead, q))
}

// rng is the private generator of one operation: all of it follows from one drawn value.
type rng struct{ s uint64 }

func newRng(v uint32) *rng { return &rng{uint64(v) * 0x9e3779b97f4a7c15} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u64() % uint64(k))
}
func (r *rng) pct(p int) bool { return r.n(100) < p }
