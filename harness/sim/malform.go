package sim

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"verifsim/ref"
	"verifsim/rt"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/protobuf/proto"
)

func init() {
	OpKinds["bad"] = (*Client).opBad
	OpKinds["badrest"] = func(c *Client, r *rng) { c.opRaw(r, true) }
	OpKinds["rawrest"] = func(c *Client, r *rng) { c.opRaw(r, false) }
}

// wild is a number that no honest client sends.
func wild(r *rng) int64 {
	vs := []int64{-1, -2, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, math.MaxInt32 + 1, math.MinInt32, 1 << 40, -1 << 40}
	return vs[r.n(len(vs))]
}

// opBad sends a request with parts missing, of unknown kinds, or with numbers out of range. The
// transports that cannot carry such a message send a damaged HTTP request instead.
func (c *Client) opBad(r *rng) {
	if c.Trans == "rest" {
		c.opRaw(r, true)
		return
	}
	q := c.badRequest(r)
	if malformed(q) {
		c.w.S.Count("malformed.message")
	}
	dispatch(bg, c.Svc, methodOf(q), q)
}

func methodOf(m proto.Message) string {
	switch m.(type) {
	case *pb.LogAddEntryRequest:
		return MAdd
	case *pb.LogFetchEntriesRequest:
		return MFetch
	case *pb.LogTreeHashRequest:
		return MHead
	case *pb.LogInclusionProofRequest:
		return MIncl
	case *pb.LogConsistencyProofRequest:
		return MCons
	case *pb.MapSetValueRequest:
		return MSet
	case *pb.MapGetValueRequest:
		return MGet
	}
	return MMHead
}

func (c *Client) badRequest(r *rng) proto.Message {
	l, o := c.anyLog(r)
	m := mapRef(o, c.Key)
	num := func() int64 {
		if r.pct(50) {
			return wild(r)
		}
		return c.size(r, o)
	}
	var q proto.Message
	switch r.n(8) {
	case 0:
		q = &pb.LogAddEntryRequest{Log: l, Value: c.leaf(r, false)}
	case 1:
		q = &pb.LogFetchEntriesRequest{Log: l, First: num(), Last: num()}
	case 2:
		q = &pb.LogTreeHashRequest{Log: l, TreeSize: num()}
	case 3:
		x := &pb.LogInclusionProofRequest{Log: l, TreeSize: num(), LeafIndex: num()}
		switch r.n(4) {
		case 0:
			x.MtlHash = []byte{}
		case 1:
			x.MtlHash = bytes.Repeat([]byte{byte(r.n(256))}, r.n(70))
		}
		q = x
	case 4:
		q = &pb.LogConsistencyProofRequest{Log: l, FromSize: num(), TreeSize: num()}
	case 5, 6:
		x := &pb.MapSetValueRequest{Map: m, Mutation: c.mutation(r, o, []string{"set", "delete", "update"}[r.n(3)])}
		q = x
		switch r.n(6) {
		case 0:
			x.Mutation = nil
		case 1:
			x.Mutation.Value = nil
		case 2, 3:
			acts := []string{"", "SET", "bogus", "set ", "deletee", "updat", "\x00", "set\n"}
			x.Mutation.Action = acts[r.n(len(acts))]
		case 4:
			x.Mutation = &pb.MapMutation{}
		}
	default:
		if r.pct(50) {
			q = &pb.MapTreeHashRequest{Map: m, TreeSize: num()}
		} else {
			q = &pb.MapGetValueRequest{Map: m, Key: c.key(r), TreeSize: num()}
		}
	}
	if r.pct(60) {
		return q
	}
	switch x := q.(type) {
	case *pb.LogAddEntryRequest:
		switch r.n(3) {
		case 0:
			x.Value = nil
		case 1:
			x.Log = c.badLog(r, l)
		default:
			x.Log, x.Value = nil, nil
		}
	case *pb.LogFetchEntriesRequest:
		x.Log = c.badLog(r, l)
	case *pb.LogTreeHashRequest:
		x.Log = c.badLog(r, l)
	case *pb.LogInclusionProofRequest:
		x.Log = c.badLog(r, l)
	case *pb.LogConsistencyProofRequest:
		x.Log = c.badLog(r, l)
	case *pb.MapSetValueRequest:
		x.Map = badMap(r, m)
	case *pb.MapGetValueRequest:
		x.Map = badMap(r, m)
	case *pb.MapTreeHashRequest:
		x.Map = badMap(r, m)
	}
	return q
}

func (c *Client) badLog(r *rng, l *pb.LogRef) *pb.LogRef {
	switch r.n(5) {
	case 0:
		return nil
	case 1:
		return &pb.LogRef{}
	case 2:
		l.Account = nil
	case 3:
		ts := []pb.LogType{-1, 3, 4, 100, math.MaxInt32, math.MinInt32}
		l.LogType = ts[r.n(len(ts))]
	default:
		l.LogType = pb.LogType(r.n(3))
	}
	return l
}

func badMap(r *rng, m *pb.MapRef) *pb.MapRef {
	switch r.n(3) {
	case 0:
		return nil
	case 1:
		return &pb.MapRef{}
	}
	m.Account = nil
	return m
}

// rawReq is an HTTP request put together by hand.
type rawReq struct {
	method, path, body string
	hdr                [][2]string
	more               int    // bytes announced but not sent
	chunked            string // the body in chunked encoding, if not empty
	bad                string // why it must be refused
	write              bool
	check              func(st int, h http.Header, body []byte, e *Exec) string
}

func (q *rawReq) bytes() []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: server\r\n", q.method, q.path)
	for _, h := range q.hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	switch {
	case q.chunked != "":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n" + q.chunked)
	case q.write || q.body != "":
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(q.body)+q.more, q.body)
	default:
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

func show(b []byte) string {
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("%q", b)
}

// opRaw sends a hand-made HTTP request: one of the formats of the REST interface that the
// client of this repository does not use, or (bad) a damaged one.
func (c *Client) opRaw(r *rng, bad bool) {
	q := c.rawRequest(r)
	if bad {
		q.damage(c, r)
	}
	raw := q.bytes()
	k := c.newCall("raw", nil)
	k.Raw, k.raw = true, q
	if bad {
		why := q.bad
		if why == "" {
			why = "odd"
		}
		c.w.S.Count("malformed.http." + strings.ReplaceAll(why, " ", "-"))
	}
	c.cur = "raw"
	c.w.S.Logf("call %d raw (bad: %s) %s", k.ID, q.bad, show(raw))
	out, err := c.exchange(k, func(n *Node, t *rt.Task) (any, error) { return serveHTTP(n, raw, false) }, nil)
	if err == nil {
		var res *http.Response
		if res, err = http.ReadResponse(bufio.NewReader(bytes.NewReader(out.([]byte))), &http.Request{Method: q.method}); err == nil {
			k.status, k.hdr = res.StatusCode, res.Header
			k.body, err = io.ReadAll(res.Body)
		}
	}
	c.endCall(k, nil, err)
	c.w.S.Logf("call %d raw -> %d %s %v", k.ID, k.status, show(k.body), err)
}

var suffixes = []string{"", "/xjson", "/xjson/redactable", "/extra"}

// rawRequest makes a well-formed request.
func (c *Client) rawRequest(r *rng) *rawReq {
	o := c.w.C.Objs[r.n(len(c.w.C.Objs))]
	q := &rawReq{method: "GET"}
	if c.Key != "" {
		q.hdr = append(q.hdr, [2]string{"Authorization", "Key " + c.Key})
	}
	size := func() int64 {
		n := c.size(r, o)
		if n < 0 {
			return 1
		}
		return n
	}
	base := "/v2/account/" + o.Acc + "/log/" + o.Name
	if o.Map {
		base = "/v2/account/" + o.Acc + "/map/" + o.Name
		if r.pct(65) {
			key := c.key(r)
			ks := "/key/h/" + hex.EncodeToString(key)
			if r.pct(40) && plain(key) {
				ks = "/key/s/" + string(key)
			}
			if len(key) == 0 {
				ks = "/key/s/none"
			}
			at := "/tree/head"
			if r.pct(60) {
				at = fmt.Sprintf("/tree/%d", size())
			}
			switch r.n(8) {
			case 0:
				q.method, q.path = "DELETE", base+ks
			case 1, 2, 3:
				q.method = "PUT"
				q.payload(c, r, base+ks, suffixes[r.n(4)])
				if r.pct(30) {
					q.hdr = append(q.hdr, [2]string{"X-Previous-LeafHash", hex.EncodeToString(ref.LeafHash([]byte(fmt.Sprintf("v%d", r.n(3)))))})
				}
			case 4:
				q.path = base + at
			default:
				q.reading(base+at+ks, []string{"", "/xjson", "/extra"}[r.n(3)], func(e *Exec) *pb.LeafData {
					if x, ok := e.Resp.(*pb.MapGetValueResponse); ok {
						return x.GetValue()
					}
					return nil
				})
			}
			return q
		}
		base += []string{"/log/mutation", "/log/treehead"}[r.n(2)]
	}
	switch x := r.n(9); {
	case x < 3 && !o.Map:
		q.method = "POST"
		q.payload(c, r, base+"/entry", suffixes[r.n(4)])
	case x < 5:
		q.reading(fmt.Sprintf("%s/entry/%d", base, size()), []string{"", "/xjson", "/extra"}[r.n(3)], func(e *Exec) *pb.LeafData {
			if x, ok := e.Resp.(*pb.LogFetchEntriesResponse); ok && len(x.Values) == 1 {
				return x.Values[0]
			}
			return nil
		})
	case x == 5:
		a, b := size(), size()
		q.path = fmt.Sprintf("%s/entries/%d-%d%s", base, a, b, []string{"", "/xjson", "/extra"}[r.n(3)])
	case x == 6:
		q.path = fmt.Sprintf("%s/tree/%d/consistency/%d", base, size(), size())
	case x == 7:
		q.path = base + "/tree/head"
	default:
		q.path = fmt.Sprintf("%s/tree/%d/inclusion/", base, size())
		switch r.n(3) {
		case 0:
			q.path += fmt.Sprint(size())
		case 1:
			q.path += "h/" + hex.EncodeToString(ref.LeafHash(c.leaf(r, false).LeafInput))
		default:
			v := fmt.Sprintf("v%d", r.n(c.w.C.Alpha))
			q.path += "s/" + v
			q.check = func(st int, h http.Header, body []byte, e *Exec) string {
				if x, ok := e.Req.(*pb.LogInclusionProofRequest); !ok || !bytes.Equal(x.MtlHash, ref.LeafHash([]byte(v))) {
					return fmt.Sprintf("inclusion of the string %q was looked up as %v", v, e.Req)
				}
				return ""
			}
		}
	}
	return q
}

func plain(k []byte) bool {
	for _, b := range k {
		if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '-' || b == '_') {
			return false
		}
	}
	return len(k) > 0
}

// reading makes a request for one entry or value in one of the formats.
func (q *rawReq) reading(path, suffix string, val func(*Exec) *pb.LeafData) {
	q.path = path + suffix
	q.check = func(st int, h http.Header, body []byte, e *Exec) string {
		if e.Err != nil || st != 200 {
			return ""
		}
		v := val(e)
		if g, ok := e.Resp.(*pb.MapGetValueResponse); ok {
			if s := h.Get("X-Verified-Treesize"); s != fmt.Sprint(g.TreeSize) {
				return fmt.Sprintf("tree size is %d but reported as %q", g.TreeSize, s)
			}
			n := 0
			for _, p := range g.AuditPath {
				if len(p) > 0 {
					n++
				}
			}
			ps := h.Values("X-Verified-Proof")
			if len(ps) != n {
				return fmt.Sprintf("the proof has %d hashes but %d were sent", n, len(ps))
			}
			for _, p := range ps {
				a, b, _ := strings.Cut(p, "/")
				at, err := strconv.Atoi(a)
				hash, err2 := hex.DecodeString(b)
				if err != nil || err2 != nil || at < 0 || at >= len(g.AuditPath) || !bytes.Equal(hash, g.AuditPath[at]) {
					return fmt.Sprintf("proof hash %q was sent, the proof is %x", p, g.AuditPath)
				}
			}
		}
		switch suffix {
		case "":
			if !bytes.Equal(body, v.GetLeafInput()) {
				return fmt.Sprintf("leaf input %q was sent as %q", v.GetLeafInput(), body)
			}
		case "/xjson":
			if !bytes.Equal(body, v.GetExtraData()) {
				return fmt.Sprintf("extra data %q was sent as %q", v.GetExtraData(), body)
			}
		case "/extra":
			x := &pb.LeafData{}
			if err := json.Unmarshal(body, x); err != nil || !sameLeaf(x, v) {
				return fmt.Sprintf("%v was sent as %q (%v)", v, body, err)
			}
		}
		return ""
	}
}

func valueOf(e *Exec) *pb.LeafData {
	switch x := e.Req.(type) {
	case *pb.LogAddEntryRequest:
		return x.Value
	case *pb.MapSetValueRequest:
		return x.GetMutation().GetValue()
	}
	return nil
}

// payload makes a request that writes a value in one of the formats.
func (q *rawReq) payload(c *Client, r *rng, path, suffix string) {
	q.write = true
	q.path = path + suffix
	k := r.n(c.w.C.Alpha + 1)
	body := fmt.Sprintf("v%d", k)
	switch suffix {
	case "/xjson":
		docs := []string{`{"a":%d}`, `{"a":[%d,null,"x",1.5,true],"b":{"c":"d"}}`, `"s%d"`, `[%d]`, ` {"a" : %d } `}
		body = fmt.Sprintf(docs[r.n(len(docs))], k)
	case "/xjson/redactable":
		docs := []string{`{"a":%d}`, `{"a":[%d,null,"x",1.5,true],"b":{"c":"d","e":{}}}`, `{"name":"n%d","secret":"t"}`}
		body = fmt.Sprintf(docs[r.n(len(docs))], k)
	case "/extra":
		body = fmt.Sprintf(`{"leaf_input":%q,"extra_data":%q}`, base64.StdEncoding.EncodeToString([]byte(body)), base64.StdEncoding.EncodeToString([]byte("x:"+body)))
		if c.w.C.VaryExtra || c.w.C.VaryMap {
			break
		}
		body = fmt.Sprintf(`{"leaf_input":%q}`, base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("v%d", k))))
	}
	q.body = body
	q.check = func(st int, h http.Header, _ []byte, e *Exec) string {
		v := valueOf(e)
		bad := fmt.Sprintf("%s of %q arrived as %v", suffix, body, v)
		if v == nil {
			return bad
		}
		decode := func(b []byte) (rv any) {
			if json.Unmarshal(b, &rv) != nil {
				return "undecodable"
			}
			return rv
		}
		switch suffix {
		case "":
			if string(v.LeafInput) != body || len(v.ExtraData) > 0 || v.Format != 0 {
				return bad
			}
		case "/xjson":
			oh, err := objecthash.CommonJSONHash([]byte(body))
			if err != nil || !bytes.Equal(v.LeafInput, oh) || v.Format != pb.DataFormat_JSON || !reflect.DeepEqual(decode(v.ExtraData), decode([]byte(body))) {
				return bad
			}
		case "/xjson/redactable":
			d := decode(v.ExtraData)
			oh, err := objecthash.ObjectHashWithStdRedaction(d)
			if err != nil || !bytes.Equal(v.LeafInput, oh) || v.Format != pb.DataFormat_JSON {
				return bad
			}
			u, err := objecthash.UnredactableWithStdPrefix(d)
			if err != nil || !reflect.DeepEqual(u, decode([]byte(body))) || reflect.DeepEqual(d, u) {
				return bad
			}
		case "/extra":
			x := &pb.LeafData{}
			if err := json.Unmarshal([]byte(body), x); err != nil || !sameLeaf(x, v) {
				return bad
			}
		}
		if s, ok := e.Req.(*pb.MapSetValueRequest); ok {
			act := "set"
			var prev []byte
			for _, h := range q.hdr {
				if h[0] == "X-Previous-LeafHash" {
					act = "update"
					prev, _ = hex.DecodeString(h[1])
				}
			}
			if s.Mutation.Action != act || !bytes.Equal(s.Mutation.PreviousLeafHash, prev) {
				return fmt.Sprintf("%s with previous leaf hash %x arrived as %s with %x", act, prev, s.Mutation.Action, s.Mutation.PreviousLeafHash)
			}
		}
		return ""
	}
}

// damage makes the request one that must be refused (bad says why), or at least an odd one.
func (q *rawReq) damage(c *Client, r *rng) {
	segs := strings.Split(q.path, "/")
	numbers := func() []int {
		var rv []int
		for i := 4; i < len(segs); i++ {
			if segs[i] != "" && segs[i-1] != "s" && segs[i-1] != "h" && segs[i-1] != "log" && segs[i-1] != "map" && strings.Trim(segs[i], "0123456789-") == "" {
				rv = append(rv, i)
			}
		}
		return rv
	}
	for try := 0; try < 8; try++ {
		switch r.n(12) {
		case 0: // a body that does not decode
			if !q.write {
				continue
			}
			i := strings.Index(q.path, "/xjson")
			if i < 0 && !strings.HasSuffix(q.path, "/extra") {
				continue
			}
			bs := []string{"", "{", "nul", "\xff", `{"a":1}}`, `{'a':1}`, `[1,2`, `{"a":1,}`, "\x00", `{"a":"b}`, "{} {}", `<a/>`, `{"a":01}`, "a=b"}
			if i >= 0 {
				bs = append(bs, `{"a":1e999}`, `[-1e400]`)
			} else {
				bs = append(bs, `{"leaf_input":5}`, `{"leaf_input":"%%%"}`, `{"leaf_input":{}}`, `{"extra_data":"a"}`, `[]`, `"abc"`, `7`, `{"format":{}}`, `{"leaf_input":"AA==","extra_data":[300]}`)
			}
			q.body, q.bad = bs[r.n(len(bs))], "undecodable body"
		case 1, 2: // a body that ends early
			if !q.write {
				continue
			}
			q.more, q.bad = 1+r.n(50), "body ended early"
			if r.pct(40) {
				cs := []string{"zz\r\nabc\r\n0\r\n\r\n", "5\r\nabc", "3\r\nabcd\r\n0\r\n\r\n", "3\r\nabc\r\n", "-1\r\n\r\n", "fffffffffffffffffff\r\na"}
				q.chunked = cs[r.n(len(cs))]
			}
		case 3, 4: // a number out of range or not a number
			at := numbers()
			if len(at) == 0 {
				continue
			}
			i := at[r.n(len(at))]
			vs := []string{"99999999999999999999", "-1", "1e3", "0x10", "", "9223372036854775808", "1.5", "+1", "headd", "null", "18446744073709551617", "%31%00"}
			segs[i] = strings.Replace(segs[i], segs[i][:len(strings.SplitN(segs[i], "-", 2)[0])], vs[r.n(len(vs))], 1)
			q.path, q.bad = strings.Join(segs, "/"), "bad number"
			if strings.Contains(q.path, "//") { // the router cleans such paths
				q.bad = ""
			}
			if q.write && strings.HasPrefix(segs[i], "s") {
				q.bad = ""
			}
		case 5: // far beyond the end
			at := numbers()
			if len(at) == 0 {
				continue
			}
			i := at[r.n(len(at))]
			vs := []string{"9223372036854775807", "9223372036854775806", "4611686018427387904", "1000000000000", "2147483648"}
			v := vs[r.n(len(vs))]
			if strings.Contains(segs[i], "-") {
				segs[i] = []string{v + "-0", "0-" + v, v + "-" + v, v + "-9223372036854775807"}[r.n(4)]
			} else {
				segs[i] = v
			}
			q.path, q.bad = strings.Join(segs, "/"), "no such position"
		case 6: // a key or hash that is not hexadecimal
			i := strings.LastIndex(q.path, "/h/")
			if i < 0 {
				continue
			}
			rest := ""
			if j := strings.Index(q.path[i+3:], "/"); j >= 0 {
				rest = q.path[i+3+j:]
			}
			vs := []string{"a", "abc", "zz", "ABCD", "0x00", "", "a%20", "%", "12345", "g0"}
			q.path, q.bad = q.path[:i+3]+vs[r.n(len(vs))]+rest, "bad hexadecimal"
		case 7: // an undecodable header
			if q.method != "PUT" {
				continue
			}
			vs := []string{"zz", "abc", "0x12", "ab cd", "\"\"", "none", "%61", "null", "a"}
			q.hdr = append([][2]string{{"X-Previous-LeafHash", vs[r.n(len(vs))]}}, q.hdr...)
			q.bad = "undecodable header"
		case 8: // the wrong method
			vs := []string{"PATCH", "get", "FOO", "TRACE", "POST", "PUT", "DELETE"}
			m := vs[r.n(len(vs))]
			if m == q.method || m == "PUT" && strings.Contains(q.path, "/key/") || m == "DELETE" && strings.Contains(q.path, "/key/") || m == "POST" && strings.Contains(q.path, "/entry") {
				continue
			}
			q.method, q.bad = m, "wrong method"
		case 9: // not a name of anything
			vs := []string{"x", "-1", "1x", "%25", "1.0", "0x1"}
			i := 3
			if r.pct(50) {
				i = 5
				vs = []string{"A", "l%200", "%c3%a9", "l.0", "*", "l0;x", "L0"}
			}
			segs[i] = vs[r.n(len(vs))]
			q.path, q.bad = strings.Join(segs, "/"), "bad name"
		case 10: // entries that only the server itself makes
			if !strings.Contains(q.path, "/log/mutation") && !strings.Contains(q.path, "/log/treehead") {
				continue
			}
			i := strings.Index(q.path, "/log/")
			base := q.path[:i] + "/log/" + []string{"mutation", "treehead"}[r.n(2)]
			q.method = "POST"
			q.payload(c, r, base+"/entry", suffixes[r.n(4)])
			q.bad = "addition to a log of the server's own"
		default: // odd, but not necessarily wrong
			switch r.n(8) {
			case 0:
				q.path += "/"
			case 1:
				q.path = strings.Replace(q.path, "/v2", "//v2", 1)
			case 2:
				q.path += "?x=%zz&a"
			case 3:
				q.hdr = append(q.hdr, [2]string{"Authorization", "Key"}, [2]string{"Authorization", "Basic a b"})
			case 4:
				if q.write {
					q.body = []string{"null", `{}`, `{"unknown":1}`, `{"LEAF_INPUT":"AA=="}`, `{"format":99,"leaf_input":"AA=="}`}[r.n(5)]
				}
			case 5:
				q.path = strings.Replace(q.path, "/v2", "/v1", 1)
			case 6:
				q.method = []string{"HEAD", "OPTIONS"}[r.n(2)]
			default:
				q.path = strings.Repeat("/", 1+r.n(3)) + "x" + strings.Repeat("a", r.n(5000))
				q.write, q.body = false, ""
			}
			q.check = nil
			return
		}
		q.check = nil
		return
	}
	q.check = nil
}

// raw judges a hand-made HTTP request.
func (j *Judge) raw(c *Call) {
	w := j.w
	q := c.raw
	f := func(kind, why string) {
		w.Fail(kind, "call %d: %s (%s) -> %d %s: %s", c.ID, show(q.bytes()), q.bad, c.status, show(c.body), why)
	}
	good := 0
	for _, e := range c.Execs {
		if e.Done && e.Err == nil {
			good++
		}
		if q.check != nil && e.Done {
			if s := q.check(0, nil, nil, e); s != "" && q.write {
				f("raw-request", s)
			}
		}
	}
	if q.bad != "" && good > 0 {
		f("raw-accepted", "it was executed")
	}
	if c.Err != nil {
		if len(c.Net) == 0 {
			f("raw-response", "no legible response: "+c.Err.Error())
		}
		return
	}
	if q.method == "OPTIONS" || c.status >= 300 && c.status < 400 {
		return
	}
	if c.status < 300 && (q.bad != "" || good == 0) {
		f("raw-accepted", "reported as success")
		return
	}
	if len(c.Net) > 0 || c.Dups > 0 {
		return
	}
	if good > 0 && c.status >= 400 {
		f("raw-refused", "it was executed, but an error was reported")
		return
	}
	if q.check == nil || q.write {
		return
	}
	for _, e := range c.Execs {
		if s := q.check(c.status, c.hdr, c.body, e); s != "" {
			f("raw-response", s)
		}
	}
}
