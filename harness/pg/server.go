package pg

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	"verifsim/rt"
	"verifsim/rt/rsync"
	"verifsim/sim"

	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"
)

func init() { sim.Stores["pg"] = open }

// server is the database server of a run.
type server struct {
	w   *sim.World
	db  *DB
	num int
}

func serverOf(w *sim.World) *server {
	if s, ok := w.Extra["pg"].(*server); ok {
		return s
	}
	s := &server{w: w, db: NewDB()}
	s.db.Wait = func(p string, ok func() bool) { rt.Block(p, ok) }
	s.db.Seen = func(k string) { w.S.Count(k) }
	w.Extra["pg"] = s
	return s
}

// store is a node's storage: the real one, connected at its first use.
type store struct {
	srv     *server
	node    *sim.Node
	mu      rsync.Mutex
	st      *postgres.Storage
	refused bool // the first connection, by a fault
}

func open(w *sim.World, n *sim.Node) (verifiable.StorageWriter, bool) {
	return &store{srv: serverOf(w), node: n}, true
}

func (x *store) connected(ctx context.Context) (*postgres.Storage, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.st != nil {
		return x.st, nil
	}
	cfg, err := pgxpool.ParseConfig("host=db user=u password=p dbname=d sslmode=disable")
	if err != nil {
		return nil, err
	}
	cfg.MaxConns = 2
	cfg.HealthCheckPeriod = 100000 * time.Hour
	cfg.MaxConnLifetime = 100000 * time.Hour
	cfg.MaxConnIdleTime = 100000 * time.Hour
	cfg.ConnConfig.LookupFunc = func(ctx context.Context, host string) ([]string, error) { return []string{"10.9.9.9"}, nil }
	cfg.ConnConfig.DialFunc = func(ctx context.Context, network, addr string) (net.Conn, error) {
		rt.Yield("pg.dial")
		return x.srv.dial(x), nil
	}
	pool, err := pgxpool.NewWithConfig(context.Background(), cfg)
	if err != nil {
		return nil, err
	}
	c, err := pool.Acquire(context.Background())
	if err != nil {
		pool.Close()
		if t := rt.Self(); t != nil && x.refused {
			t.Faults = append(t.Faults, "pg.connect")
		}
		x.refused = false
		return nil, err
	}
	rt.Yield("pg.connected")
	x.srv.w.End = append(x.srv.w.End, func() {
		rt.Free(func() {
			c.Release()
			pool.Close()
		})
	})
	x.st = &postgres.Storage{Pool: c}
	return x.st, nil
}

// after lets the driver clean up.
func (x *store) after(err error) error {
	if err != nil {
		rt.Yield("pg.closed") // while the driver goes on to clean up
	}
	return err
}

// ExecuteReadOnly implements verifiable.StorageReader.
func (x *store) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error {
	st, err := x.connected(ctx)
	if err != nil {
		return err
	}
	return x.after(st.ExecuteReadOnly(ctx, ns, f))
}

// ExecuteUpdate implements verifiable.StorageWriter.
func (x *store) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error {
	st, err := x.connected(ctx)
	if err != nil {
		return err
	}
	return x.after(st.ExecuteUpdate(ctx, ns, f))
}

// conn is the client's end of a connection.
type conn struct {
	*sim.Conn
	w      *sim.World
	node   *sim.Node
	x      *store
	late   []string // what the client feels when it finds the connection broken
	faults []string // injected faults that the client has not felt yet
}

func (c *conn) feel(err error) {
	if t := rt.Self(); t != nil {
		t.Faults = append(t.Faults, c.faults...)
		c.faults = nil
		if err != nil {
			t.Faults = append(t.Faults, c.late...)
		}
	}
}

// Write is felt only when it fails.
func (c *conn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	if err != nil {
		c.feel(err)
	}
	return n, err
}

// Read is a scheduling point of the client.
func (c *conn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	if !c.w.Quiet {
		rt.Yield("pg.answer")
	}
	c.feel(err)
	c.w.CancelPoint()
	return n, err
}

func (s *server) dial(x *store) *conn {
	n := x.node
	a, b := sim.NewConn(n.Proc.Name, "db")
	c := &conn{Conn: a, w: s.w, node: n, x: x}
	n.OnKill(func() { a.Close() })
	s.w.End = append(s.w.End, func() { a.Close() })
	s.num++
	num := s.num
	s.w.S.Go(fmt.Sprintf("pg.%s.%d", n.Proc.Name, num), nil, func(*rt.Task) { s.serve(num, c, &serverEnd{b, s}) })
	return c
}

// serverEnd is the server's end of a connection: what arrives is handled when the session is
// scheduled.
type serverEnd struct {
	*sim.Conn
	s *server
}

func (e *serverEnd) Read(b []byte) (int, error) {
	n, err := e.Conn.Read(b)
	e.s.point("pg.request")
	return n, err
}

type prepared struct {
	st  *stmt
	err *Error
}

type portal struct {
	prepared
	ps  []Param
	fmt []int16
}

func (s *server) point(p string) {
	if !s.w.Quiet {
		rt.Yield(p)
	}
}

// fault decides whether a statement meets one.
func (s *server) fault(c *conn, kind string) string {
	cf := &s.w.C
	if !s.w.FaultsOn {
		return ""
	}
	hit := func(name string, rate int) bool {
		if rate == 0 || !s.w.S.Chance("pg", rate) {
			return false
		}
		s.w.S.Fault("pg." + name + "." + kind)
		k := "pg." + name + "." + kind
		if strings.HasPrefix(name, "drop") {
			c.late = append(c.late, k)
		} else {
			c.faults = append(c.faults, k)
		}
		return true
	}
	switch {
	case hit("error", cf.PgErr):
		return "error"
	case hit("drop-before", cf.PgDrop):
		return "drop-before"
	case hit("drop-after", cf.PgDrop):
		return "drop-after"
	}
	return ""
}

var injected = []Error{
	{"57014", "canceling statement due to user request"}, {"53100", "could not extend file: No space left on device"},
	{"40001", "could not serialize access"}, {"58030", "could not read block: Input/output error"}, {"53200", "out of memory"},
}

// serve is one session of the server.
func (s *server) serve(num int, c *conn, b net.Conn) {
	be := pgproto3.NewBackend(b, b)
	ss := s.db.NewSession(num)
	drop := func() {
		b.Close()
		ss.Close()
	}
	defer func() {
		b.Close()
		s.point("pg.gone")
		ss.Close()
	}()
	m, err := be.ReceiveStartupMessage()
	if err != nil {
		return
	}
	s.point("pg.connect")
	if _, ok := m.(*pgproto3.CancelRequest); ok {
		return // too late
	}
	if _, ok := m.(*pgproto3.StartupMessage); !ok {
		panic(fmt.Sprintf("startup: %T", m))
	}
	if s.w.FaultsOn && s.w.C.PgDrop > 0 && s.w.S.Chance("pg", s.w.C.PgDrop) {
		s.w.S.Fault("pg.refused")
		c.late = append(c.late, "pg.refused")
		c.x.refused = true
		return
	}
	be.Send(&pgproto3.AuthenticationOk{})
	for _, kv := range [][2]string{{"server_version", "16.3"}, {"server_encoding", "UTF8"}, {"client_encoding", "UTF8"}, {"standard_conforming_strings", "on"}, {"integer_datetimes", "on"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}} {
		be.Send(&pgproto3.ParameterStatus{Name: kv[0], Value: kv[1]})
	}
	be.Send(&pgproto3.BackendKeyData{ProcessID: uint32(num), SecretKey: uint32(num)})
	be.Send(&pgproto3.ReadyForQuery{TxStatus: 'I'})
	if be.Flush() != nil {
		return
	}
	stmts := map[string]*prepared{}
	portals := map[string]*portal{}
	skip := false // after an error, until Sync
	sendErr := func(e *Error) {
		sev := "ERROR"
		be.Send(&pgproto3.ErrorResponse{Severity: sev, SeverityUnlocalized: sev, Code: e.Code, Message: e.Msg})
	}
	// run executes a statement with its faults; false means that the connection is gone.
	run := func(st *stmt, ps []Param) (*Result, *Error, bool) {
		s.point("pg." + st.kind)
		switch s.fault(c, st.kind) {
		case "error":
			e := injected[s.w.S.Choose("pg", len(injected))]
			if st.kind == "rollback" {
				break
			}
			if ss.tx != nil {
				ss.tx.failed = true
				if st.kind == "commit" {
					ss.end(false)
				}
			}
			return nil, &e, true
		case "drop-before":
			drop()
			return nil, nil, false
		case "drop-after":
			ss.Exec(st, ps)
			drop()
			return nil, nil, false
		}
		r, e := ss.Exec(st, ps)
		if e != nil {
			// What the server refuses by itself is no fault, but the client has to live with it.
			switch {
			case e.Code == "40P01", e.Code == "40001", e.Code == "23505" && st.kind == "create":
				c.faults = append(c.faults, "pg.refusal."+e.Code)
			}
			s.w.S.Count("pg.refusal." + e.Code)
		}
		return r, e, true
	}
	for {
		m, err := be.Receive()
		if err != nil {
			return
		}
		if skip {
			switch m.(type) {
			case *pgproto3.Sync, *pgproto3.Terminate:
			default:
				continue
			}
		}
		switch m := m.(type) {
		case *pgproto3.Terminate:
			return
		case *pgproto3.Query:
			st, perr := parse(m.String)
			var r *Result
			e := syntax(perr)
			if e == nil {
				ok := true
				if r, e, ok = run(st, nil); !ok {
					return
				}
			} else {
				s.unknown(m.String, perr)
			}
			switch {
			case e != nil:
				if ss.tx != nil {
					ss.tx.failed = true
				}
				sendErr(e)
			case st.kind == "nop" && st.tag == "":
				be.Send(&pgproto3.EmptyQueryResponse{})
			default:
				if r.Cols != nil {
					be.Send(&pgproto3.RowDescription{Fields: fields(r.Cols, nil)})
					s.rows(be, r, nil)
				}
				be.Send(&pgproto3.CommandComplete{CommandTag: []byte(r.Tag)})
			}
			be.Send(&pgproto3.ReadyForQuery{TxStatus: ss.Status()})
		case *pgproto3.Parse:
			st, perr := parse(m.Query)
			if perr != nil {
				s.unknown(m.Query, perr)
				sendErr(syntax(perr))
				skip = true
				continue
			}
			if ss.tx != nil && ss.tx.failed && st.kind != "commit" && st.kind != "rollback" {
				sendErr(fail("25P02", "current transaction is aborted"))
				skip = true
				continue
			}
			stmts[m.Name] = &prepared{st: st}
			be.Send(&pgproto3.ParseComplete{})
		case *pgproto3.Describe:
			var st *stmt
			if m.ObjectType == 'S' {
				if p := stmts[m.Name]; p != nil {
					st = p.st
					oids := append([]uint32{}, st.oids...)
					be.Send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
				}
			} else if p := portals[m.Name]; p != nil {
				st = p.st
			}
			if st == nil {
				sendErr(fail("26000", "%q does not exist", m.Name))
				skip = true
				continue
			}
			if st.table != "" && ss.tx != nil && s.db.tables[st.table] == nil && ss.tx.made[st.table] == nil {
				ss.tx.failed = true
				sendErr(fail("42P01", "relation %q does not exist", st.table))
				skip = true
				continue
			}
			if cs := st.outCols(); cs != nil {
				var f []int16
				if m.ObjectType == 'P' {
					f = portals[m.Name].fmt
				}
				be.Send(&pgproto3.RowDescription{Fields: fields(cs, f)})
			} else {
				be.Send(&pgproto3.NoData{})
			}
		case *pgproto3.Bind:
			p := stmts[m.PreparedStatement]
			if p == nil {
				sendErr(fail("26000", "prepared statement %q does not exist", m.PreparedStatement))
				skip = true
				continue
			}
			po := &portal{prepared: *p, fmt: append([]int16{}, m.ResultFormatCodes...)}
			for i, v := range m.Parameters {
				f := int16(0)
				if len(m.ParameterFormatCodes) == 1 {
					f = m.ParameterFormatCodes[0]
				} else if i < len(m.ParameterFormatCodes) {
					f = m.ParameterFormatCodes[i]
				}
				if v == nil {
					po.ps = append(po.ps, Param{Nil: true})
					continue
				}
				b := append([]byte{}, v...)
				oid := uint32(17)
				if i < len(p.st.oids) {
					oid = p.st.oids[i]
				}
				switch {
				case oid == 17 && f == 0 && strings.HasPrefix(string(b), "\\x"):
					b, _ = hex.DecodeString(string(b[2:]))
				case oid == 20 && f == 1 && len(b) == 8:
					b = []byte(strconv.FormatInt(int64(binary.BigEndian.Uint64(b)), 10))
				}
				po.ps = append(po.ps, Param{B: b})
			}
			portals[m.DestinationPortal] = po
			be.Send(&pgproto3.BindComplete{})
		case *pgproto3.Execute:
			po := portals[m.Portal]
			if po == nil {
				sendErr(fail("34000", "portal %q does not exist", m.Portal))
				skip = true
				continue
			}
			r, e, ok := run(po.st, po.ps)
			if !ok {
				return
			}
			if e != nil {
				if ss.tx != nil {
					ss.tx.failed = true
				}
				sendErr(e)
				skip = true
				continue
			}
			if r.Cols != nil {
				s.rows(be, r, po.fmt)
			}
			be.Send(&pgproto3.CommandComplete{CommandTag: []byte(r.Tag)})
		case *pgproto3.Close:
			if m.ObjectType == 'S' {
				delete(stmts, m.Name)
			} else {
				delete(portals, m.Name)
			}
			be.Send(&pgproto3.CloseComplete{})
		case *pgproto3.Flush:
		case *pgproto3.Sync:
			skip = false
			portals = map[string]*portal{}
			be.Send(&pgproto3.ReadyForQuery{TxStatus: ss.Status()})
		default:
			s.w.Fail("harness", "the simulated database does not know %T", m)
			return
		}
		switch m.(type) {
		case *pgproto3.Query, *pgproto3.Sync, *pgproto3.Flush:
			if be.Flush() != nil {
				return
			}
			if ss.Status() == 'I' && s.w.FaultsOn && s.w.C.PgDrop > 0 && s.w.S.Chance("pg", s.w.C.PgDrop) {
				s.w.S.Fault("pg.drop-idle")
				c.late = append(c.late, "pg.drop-idle")
				return
			}
		}
	}
}

func syntax(err error) *Error {
	if err == nil {
		return nil
	}
	return fail("42601", "%v", err)
}

// unknown notes SQL that the simulated server cannot judge.
func (s *server) unknown(sql string, err error) {
	s.w.S.Count("pg.unknown-sql")
	s.w.Fail("harness", "the simulated database does not understand %q: %v", sql, err)
}

func (st *stmt) outCols() []string {
	switch st.kind {
	case "advisory":
		if st.try {
			return []string{"true"}
		}
		return []string{"void"}
	case "unlock":
		return []string{"true"}
	case "select":
		return st.cols
	case "insert", "update", "delete":
		if st.ret {
			return st.cols
		}
	}
	return nil
}

func fields(cols []string, f []int16) []pgproto3.FieldDescription {
	var rv []pgproto3.FieldDescription
	for i, c := range cols {
		d := pgproto3.FieldDescription{Name: []byte(c), DataTypeOID: 17, DataTypeSize: -1, TypeModifier: -1}
		switch c {
		case "count":
			d.DataTypeOID, d.DataTypeSize = 20, 8
		case "true", "one":
			d.DataTypeOID, d.DataTypeSize = 16, 1
		case "void":
			d.DataTypeOID, d.DataTypeSize = 2278, 4
		}
		d.Format = format(f, i)
		rv = append(rv, d)
	}
	return rv
}

func format(f []int16, i int) int16 {
	switch {
	case len(f) == 0:
		return 0
	case len(f) == 1:
		return f[0]
	}
	return f[i]
}

func (s *server) rows(be *pgproto3.Backend, r *Result, f []int16) {
	for _, row := range r.Rows {
		out := make([][]byte, len(row))
		for i, v := range row {
			if v == nil {
				continue
			}
			if format(f, i) == 1 {
				out[i] = v
				continue
			}
			switch r.Cols[i] {
			case "count":
				out[i] = []byte(strconv.FormatUint(binary.BigEndian.Uint64(v), 10))
			case "true", "one":
				out[i] = []byte{'f'}
				if v[0] == 1 {
					out[i] = []byte{'t'}
				}
			case "void":
				out[i] = []byte{}
			default:
				out[i] = []byte("\\x" + hex.EncodeToString(v))
			}
		}
		be.Send(&pgproto3.DataRow{Values: out})
	}
}
