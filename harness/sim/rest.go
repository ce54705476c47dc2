package sim

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"time"

	"verifsim/rt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"google.golang.org/protobuf/proto"
)

// restSvc is the client's view of a server through the real REST client, the simulated network
// carrying bytes, and the real REST handler.
type restSvc struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	c    *Client
	real service
	cur  *Call
}

func newREST(c *Client) service {
	r := &restSvc{c: c}
	cl := &httprest.Client{BaseURL: "http://server", HTTPClient: &http.Client{Transport: r}}
	r.real = cl.MustDial()
	return r
}

func (r *restSvc) do(ctx context.Context, method string, req proto.Message) (proto.Message, error) {
	old := r.cur
	r.cur = r.c.newCall(method, req)
	k := r.cur
	defer func() { r.cur = old }()
	resp, err := dispatch(ctx, r.real, method, req)
	return r.c.endCall(k, resp, err)
}

// serveHTTP runs the real handler of the node on request bytes and gives response bytes.
func serveHTTP(n *Node, raw []byte, chunked bool) ([]byte, error) {
	req, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
	if err != nil {
		return []byte("HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"), nil
	}
	h, ok := n.Extra["rest"].(http.Handler)
	if !ok || n.Extra["restgen"] != n.Gen {
		h = httprest.CreateRESTHandler(n.Svc, nil, nil)
		n.Extra["rest"], n.Extra["restgen"] = h, n.Gen
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	res := rec.Result()
	body, _ := io.ReadAll(res.Body)
	res.Body = io.NopCloser(bytes.NewReader(body))
	res.ContentLength = int64(len(body))
	if chunked {
		res.ContentLength = -1
		res.TransferEncoding = []string{"chunked"}
	}
	var out bytes.Buffer
	if err := res.Write(&out); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

// RoundTrip implements http.RoundTripper.
func (r *restSvc) RoundTrip(req *http.Request) (*http.Response, error) {
	c := r.c
	s := c.w.S
	var buf bytes.Buffer
	if err := req.Write(&buf); err != nil {
		return nil, err
	}
	raw := buf.Bytes()
	chunked := s.Choose("net", 4) == 3
	k := r.cur
	out, err := c.exchange(k, func(n *Node, t *rt.Task) (any, error) {
		return serveHTTP(n, raw, chunked)
	}, func(a any) any { return garbleHTTP(s, a.([]byte)) })
	if err != nil {
		return nil, err
	}
	return http.ReadResponse(bufio.NewReader(&lossyReader{b: out.([]byte)}), req)
}

// lossyReader ends like a broken connection does.
type lossyReader struct{ b []byte }

func (l *lossyReader) Read(p []byte) (int, error) {
	if len(l.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, l.b)
	l.b = l.b[n:]
	return n, nil
}

// garbleHTTP damages a response as broken connections and intermediaries do.
func garbleHTTP(s *rt.Sim, b []byte) any {
	switch s.Choose("net", 6) {
	case 0, 1: // cut
		return b[:s.Choose("net", len(b))]
	case 2:
		body := "<html>Bad Gateway</html>"
		return []byte(fmt.Sprintf("HTTP/1.1 502 Bad Gateway\r\nContent-Length: %d\r\n\r\n%s", len(body), body))
	case 3:
		return []byte("HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n")
	case 4: // a captive portal
		body := "<html>Please log in</html>"
		return []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nContent-Length: %d\r\n\r\n%s", len(body), body))
	default:
		codes := []string{"204 No Content", "206 Partial Content", "201 Created", "429 Too Many Requests", "403 Forbidden", "500 Internal Server Error", "304 Not Modified"}
		return []byte("HTTP/1.1 " + codes[s.Choose("net", len(codes))] + "\r\nContent-Length: 0\r\n\r\n")
	}
}

var _ = time.Second

func (r *restSvc) LogAddEntry(ctx context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return as[*pb.LogAddEntryResponse](r.do(ctx, MAdd, q))
}
func (r *restSvc) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return as[*pb.LogFetchEntriesResponse](r.do(ctx, MFetch, q))
}
func (r *restSvc) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	return as[*pb.LogTreeHashResponse](r.do(ctx, MHead, q))
}
func (r *restSvc) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return as[*pb.LogInclusionProofResponse](r.do(ctx, MIncl, q))
}
func (r *restSvc) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	return as[*pb.LogConsistencyProofResponse](r.do(ctx, MCons, q))
}
func (r *restSvc) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	return as[*pb.MapSetValueResponse](r.do(ctx, MSet, q))
}
func (r *restSvc) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	return as[*pb.MapGetValueResponse](r.do(ctx, MGet, q))
}
func (r *restSvc) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return as[*pb.MapTreeHashResponse](r.do(ctx, MMHead, q))
}
