package sim

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"runtime"
	"sync"
	"time"

	"verifsim/rt"
	"verifsim/rt/rgrpc"
	"verifsim/rt/rnet"

	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/peer"
	"google.golang.org/protobuf/proto"
)

// The gRPC transport: the real client and the real server of /repo with grpc-go in between, over
// simulated connections. grpc-go's own goroutines run freely inside the bubble: the scheduler
// goes on only when all of them wait, so that one step moves a message as far as it gets. What
// the simulator decides is when a call is made, when its handler runs, when the connection
// breaks and how much of each message gets across before.

func init() {
	Transports["grpc"] = func(c *Client) service { return newGRPC(c, false) }
	Transports["grpcs"] = func(c *Client) service { return newGRPC(c, true) }
	Transports["grpcx"] = func(c *Client) service { return newGRPC(c, true) } // expects another certificate
	nodeStarted = append(nodeStarted, startGRPC)
}

// addr is an address in the simulated network.
type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	c      *sync.Cond
	buf    []byte
	closed bool
	expire time.Time // reads fail after that, unless zero
	timer  *time.Timer
	// filter, if set, sees what is written and gives what arrives, and whether the connection
	// breaks after that.
	filter func(b []byte) ([]byte, bool)
}

func newHalf() *half {
	h := &half{}
	h.c = sync.NewCond(&h.mu)
	return h
}

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if !h.expire.IsZero() && !h.expire.After(time.Now()) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(h.buf) > 0 || h.closed {
			break
		}
		h.c.Wait()
	}
	if len(h.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(p, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}

func (h *half) write(p []byte) (brk bool, err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return false, errBroken
	}
	b := p
	if h.filter != nil {
		b, brk = h.filter(p)
	}
	h.buf = append(h.buf, b...)
	h.c.Broadcast()
	return brk, nil
}

// deadline makes reads fail from t on.
func (h *half) deadline(t time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.timer != nil {
		h.timer.Stop()
		h.timer = nil
	}
	h.expire = t
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			h.timer = time.AfterFunc(d, func() {
				h.mu.Lock()
				h.c.Broadcast()
				h.mu.Unlock()
			})
		}
	}
	h.c.Broadcast()
}

func (h *half) close() {
	h.mu.Lock()
	h.closed = true
	h.c.Broadcast()
	h.mu.Unlock()
}

var errBroken = fmt.Errorf("connection reset by peer")

// pipe is one connection between a client and a server.
type pipe struct {
	up, down *half
	l        *link
	n        *Node
	gen      int
}

func (p *pipe) close() { p.up.close(); p.down.close() }

// end is one end of a pipe.
type end struct {
	p      *pipe
	server bool
}

func (e *end) Read(b []byte) (int, error) {
	if e.server {
		return e.p.up.read(b)
	}
	return e.p.down.read(b)
}

func (e *end) Write(b []byte) (int, error) {
	h := e.p.up
	if e.server {
		h = e.p.down
	}
	brk, err := h.write(b)
	if brk {
		e.p.close()
	}
	if err != nil {
		return 0, err
	}
	return len(b), nil
}
func (e *end) Close() error                       { e.p.close(); return nil }
func (e *end) LocalAddr() net.Addr                { return e.other(!e.server) }
func (e *end) RemoteAddr() net.Addr               { return e.other(e.server) }
func (e *end) SetDeadline(t time.Time) error      { return nil }
func (e *end) SetReadDeadline(t time.Time) error  { return nil }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }
func (e *end) other(client bool) net.Addr {
	if client {
		return addr(e.p.l.c.Name)
	}
	return addr(e.p.l.addr)
}

// listener is where a server accepts connections.
type listener struct {
	addr  string
	ch    chan net.Conn
	done  chan struct{}
	once  sync.Once
	mu    sync.Mutex
	pipes []*pipe
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return addr(l.addr) }

func grpcAddr(n *Node, tls bool) string {
	p := 4000
	if tls {
		p = 4001
	}
	return fmt.Sprintf("10.0.0.%d:%d", n.Idx+1, p)
}

// nodeStarted is called with every server process that starts.
var nodeStarted []func(n *Node)

func startGRPC(n *Node) {
	w := n.w
	want := map[string]bool{}
	for _, t := range w.C.Trans {
		if t == "grpcx" {
			t = "grpcs"
		}
		want[t] = true
	}
	for _, tr := range []string{"grpc", "grpcs"} {
		if !want[tr] {
			continue
		}
		at := grpcAddr(n, tr == "grpcs")
		lis := &listener{addr: at, ch: make(chan net.Conn), done: make(chan struct{})}
		gen := n.Gen
		n.Extra["lis:"+at] = lis
		n.closers = append(n.closers, func() {
			lis.Close()
			lis.mu.Lock()
			defer lis.mu.Unlock()
			for _, p := range lis.pipes {
				p.close()
			}
		})
		conf := &pb.ServerConfig{GrpcListenProtocol: "tcp4", GrpcListenBind: at, InsecureServerForTesting: tr == "grpc"}
		if tr == "grpcs" {
			conf.ServerCertPath, conf.ServerKeyPath = certFiles()
		}
		svc := &serviceFunc{f: func(ctx context.Context, method string, req proto.Message) (proto.Message, error) {
			return n.handleGRPC(ctx, gen, method, req)
		}}
		n.Extra["svc:"+at] = svc
		w.S.Go(fmt.Sprintf("%s.%s", n.Proc.Name, tr), n.Proc, func(*rt.Task) {
			rnet.Hook = func(network, a string) (net.Listener, error) {
				if l, ok := n.Extra["lis:"+a].(net.Listener); ok && network == "tcp4" {
					return l, nil
				}
				return nil, fmt.Errorf("cannot listen on %s %s", network, a)
			}
			vgrpc.StartServer(conf, svc)
		})
	}
}

// handleGRPC runs in a goroutine of grpc-go; it makes that goroutine a task while it executes
// the request.
func (n *Node) handleGRPC(ctx context.Context, gen int, method string, req proto.Message) (resp proto.Message, err error) {
	w := n.w
	var k *Call
	if p, ok := peer.FromContext(ctx); ok {
		for _, c := range w.Clients {
			if c.Name == p.Addr.String() {
				k = c.grpcCall
			}
		}
	}
	name := fmt.Sprintf("n%d.%d:grpc", n.Idx, gen)
	if k != nil {
		k.arrived++
		name = fmt.Sprintf("%s.%s.%d.%d", name, k.Client.Name, k.ID, k.arrived)
	}
	proc := n.Proc
	if n.Gen != gen {
		rt.Halt()
	}
	t, done := w.S.Adopt(name, proc)
	if k != nil {
		t.Ambient = k
	}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			w.S.Panic(t, fmt.Sprint(r), string(buf))
			done()
			rt.Halt()
		}
		done()
	}()
	rt.Yield("start")
	return dispatch(ctx, n.Svc, method, req)
}

// link is a client's gRPC connection to one server; grpc-go reconnects it.
type link struct {
	c    *Client
	n    *Node
	addr string
	svc  service
	cc   *grpc.ClientConn
	cur  *pipe

	holeUp  bool // nothing of the next request arrives
	upCut   int  // break after this frame of the request (1 is the first), at upAt bytes
	upAt    int
	downCut int // the same for the response
	downAt  int
	lost    bool // (TLS) nothing of the response arrives
	broke   bool
	up      int
	down    int
}

func (l *link) arm() {
	l.holeUp, l.upCut, l.downCut, l.lost, l.broke, l.up, l.down = false, 0, 0, false, false, 0, 0
}

// frames gives a filter that acts on the HEADERS and DATA frames of one direction.
func frames(skip int, act func(size int) (pass int, brk bool)) func([]byte) ([]byte, bool) {
	var pend []byte
	return func(b []byte) ([]byte, bool) {
		pend = append(pend, b...)
		var out []byte
		if skip > 0 {
			if len(pend) < skip {
				return nil, false
			}
			out = append(out, pend[:skip]...)
			pend = pend[skip:]
			skip = 0
		}
		for len(pend) >= 9 {
			n := 9 + int(pend[0])<<16 + int(pend[1])<<8 + int(pend[2])
			if len(pend) < n {
				break
			}
			f := pend[:n]
			pend = pend[n:]
			if f[3] > 1 {
				out = append(out, f...)
				continue
			}
			pass, brk := act(n)
			if pass > n {
				pass = n
			}
			out = append(out, f[:pass]...)
			if brk {
				return out, true
			}
		}
		return out, false
	}
}

func (l *link) dial(ctx context.Context, a string) (net.Conn, error) {
	lis, ok := l.n.Extra["lis:"+a].(*listener)
	if !ok || !l.n.Up {
		return nil, fmt.Errorf("connection refused")
	}
	p := &pipe{up: newHalf(), down: newHalf(), l: l, n: l.n, gen: l.n.Gen}
	if l.c.Trans == "grpc" {
		p.up.filter = frames(24, func(size int) (int, bool) {
			l.up++
			switch {
			case l.holeUp:
				return 0, false
			case l.upCut == l.up:
				l.broke = true
				return l.upAt % size, true
			}
			return size, false
		})
		p.down.filter = frames(0, func(size int) (int, bool) {
			l.down++
			if l.downCut == l.down {
				l.broke = true
				return l.downAt % (size + 1), true
			}
			return size, false
		})
	} else {
		p.up.filter = func(b []byte) ([]byte, bool) {
			if l.holeUp {
				return nil, false
			}
			return b, false
		}
		p.down.filter = func(b []byte) ([]byte, bool) {
			if l.lost {
				l.broke = true
				return nil, true
			}
			return b, false
		}
	}
	select {
	case lis.ch <- &end{p, true}:
	case <-lis.done:
		return nil, fmt.Errorf("connection refused")
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	lis.mu.Lock()
	lis.pipes = append(lis.pipes, p)
	lis.mu.Unlock()
	l.cur = p
	return &end{p, false}, nil
}

// grpcSvc is the client's view of the servers over gRPC.
type grpcSvc struct {
	c     *Client
	tls   bool
	links map[int]*link
}

func newGRPC(c *Client, tls bool) service {
	g := &grpcSvc{c: c, tls: tls, links: map[int]*link{}}
	return &serviceFunc{f: g.do}
}

func (g *grpcSvc) link(n *Node) (*link, error) {
	if l := g.links[n.Idx]; l != nil {
		return l, nil
	}
	l := &link{c: g.c, n: n, addr: grpcAddr(n, g.tls)}
	rgrpc.Options = func() []grpc.DialOption {
		b := backoff.DefaultConfig
		b.Jitter = 0
		return []grpc.DialOption{grpc.WithContextDialer(l.dial), grpc.WithConnectParams(grpc.ConnectParams{Backoff: b, MinConnectTimeout: 20 * time.Second})}
	}
	rgrpc.Dialled = func(cc *grpc.ClientConn) { l.cc = cc }
	cl := &vgrpc.Client{Address: l.addr, NoGrpcSecurity: !g.tls}
	if g.tls {
		cl.CertDer = certPEM(g.c.Trans == "grpcx")
	}
	svc, err := cl.Dial()
	rgrpc.Options, rgrpc.Dialled = nil, nil
	if err == nil && svc == nil {
		err = errors.New("Dial returned nothing")
	}
	if err != nil {
		g.c.w.Fail("trans-error", "connecting failed: %v", err)
		return nil, err
	}
	l.svc = svc
	g.links[n.Idx] = l
	rt.Yield("dialled") // it connects in the background
	g.c.w.End = append(g.c.w.End, func() {
		if l.cc != nil {
			l.cc.Close()
		}
	})
	return l, nil
}

// do makes one call.
func (g *grpcSvc) do(ctx context.Context, method string, req proto.Message) (proto.Message, error) {
	c := g.c
	w := c.w
	s := w.S
	k := c.newCall(method, req)
	n := c.pickNode()
	k.Node = n
	cf := &w.C
	chance := func(r int) bool { return w.FaultsOn && r > 0 && s.Chance("net", r) }
	delay := func() {
		if chance(cf.NetDelay) {
			s.Fault("net.delay")
			rt.Sleep(time.Duration(1+s.Choose("net", 2000)) * time.Millisecond)
		}
	}
	if !n.Up {
		k.net("refused")
		rt.Sleep(time.Duration(10+s.Choose("net", 200)) * time.Millisecond)
		return c.endCall(k, nil, errRefused)
	}
	p, gen := n.Proc, n.Gen
	l, err := g.link(n)
	if err != nil {
		return c.endCall(k, nil, err)
	}
	l.arm()
	if l.cur != nil && chance(cf.NetGarble) {
		s.Fault("net.idle-break")
		l.cur.close()
		rt.Yield("idle-break")
	}
	if l.cc != nil && l.cc.GetState() == connectivity.TransientFailure {
		k.net("backoff")
		rt.Sleep(time.Second)
	}
	delay()
	rctx, cancel := context.WithCancel(ctx)
	defer cancel()
	drop := false
	switch {
	case chance(cf.NetDrop):
		drop = true
		l.holeUp = true
		k.net("drop-request")
	case chance(cf.NetDrop) && !g.tls:
		l.upCut, l.upAt = 1+s.Choose("net", 2), s.Choose("net", 200)
	case chance(cf.NetLost):
		if g.tls {
			break
		}
		l.downCut, l.downAt = 1+s.Choose("net", 3), s.Choose("net", 200)
	}
	lose := g.tls && !drop && chance(cf.NetLost)
	deadline := int64(-1)
	if chance(cf.NetEarly) {
		deadline = s.Step + int64(s.Choose("net", 40))
	}
	type answer struct {
		m   proto.Message
		err error
		got bool
	}
	d := &answer{}
	c.grpcCall = k
	msg := clone(req)
	go func() {
		m, err := dispatch(rctx, l.svc, method, msg)
		d.m, d.err, d.got = m, err, true
	}()
	if lose { // the connection breaks as soon as the handler runs
		rt.Block("net.wait", func() bool { return d.got || p.Dead || len(k.Execs) > 0 })
		l.lost = true
	}
	if drop {
		rt.Block("net.wait", func() bool { return true })
		rt.Sleep(time.Duration(1+s.Choose("net", 3000)) * time.Millisecond)
		l.holeUp = false
		if l.cur != nil {
			l.cur.close()
		}
	}
	rt.Block("net.wait", func() bool {
		return d.got || (deadline >= 0 && s.Step >= deadline)
	})
	if !d.got {
		k.net("client-timeout")
		cancel()
		rt.Block("net.cancelled", func() bool { return d.got })
	}
	if l.broke {
		k.net("broken")
	}
	if d.err != nil && (p.Dead || !n.Up || n.Gen != gen) {
		k.net("peer-died")
	}
	c.grpcCall = nil
	l.arm()
	delay()
	if d.err == nil && isNil(d.m) {
		return c.endCall(k, nil, nil)
	}
	return c.endCall(k, d.m, d.err)
}

var certOnce sync.Once
var certPem, otherPem []byte
var certPath, keyPath string

// hidden gives the name of a file that is already gone from its directory.
func hidden(b []byte) string {
	f, err := os.CreateTemp("", "verifsim")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	if _, err := f.Write(b); err != nil {
		panic(err)
	}
	keepOpen = append(keepOpen, f)
	return fmt.Sprintf("/proc/self/fd/%d", f.Fd())
}

var keepOpen []*os.File

func certPEM(other bool) []byte {
	certFiles()
	if other {
		return otherPem
	}
	return certPem
}

// certFiles makes a certificate for the addresses of the simulated servers.
func certFiles() (string, string) {
	certOnce.Do(func() {
		other, _ := newCert()
		otherPem = other
		pemBytes, kp := newCert()
		certPem = pemBytes
		certPath, keyPath = hidden(certPem), hidden(kp)
	})
	return certPath, keyPath
}

func newCert() (cert, priv []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "sim"},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2190, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
	}
	for i := 1; i < 10; i++ {
		t.IPAddresses = append(t.IPAddresses, net.IPv4(10, 0, 0, byte(i)))
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	kb, _ := x509.MarshalECPrivateKey(key)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
}
