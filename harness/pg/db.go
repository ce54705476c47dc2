package pg

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// Error is what the server reports to a client.
type Error struct{ Code, Msg string }

func (e *Error) Error() string { return e.Msg + " (" + e.Code + ")" }

func fail(code, f string, a ...any) *Error { return &Error{code, fmt.Sprintf(f, a...)} }

// DB is the committed state and the locks. It is used by one task at a time.
type DB struct {
	seq    int64
	tables map[string]*table
	making map[string]*tx // tables created by transactions that are not over
	adv    map[string]*advLock
	// Wait parks the calling session until ok holds.
	Wait func(point string, ok func() bool)
	// Seen counts what happened.
	Seen func(what string)
	txs  []*tx
}

type advLock struct {
	holder *Session
	inTx   bool
}

type version struct {
	seq int64
	val []byte
	del bool
	nul bool
}

type table struct {
	name  string
	rows  map[string][]version
	locks map[*tx]map[int]bool
	row   map[string]*tx
}

// NewDB makes an empty database.
func NewDB() *DB {
	return &DB{tables: map[string]*table{}, making: map[string]*tx{}, adv: map[string]*advLock{}}
}

type tx struct {
	s        *Session
	explicit bool
	failed   bool
	iso      int
	ro       bool
	snap     int64 // -1: not taken
	writes   map[string]map[string]version
	made     map[string]*table
	locked   map[*table]bool
	wrote    bool
	waits    []*tx
	over     bool
}

// Session is one connection.
type Session struct {
	db *DB
	tx *tx
	n  int
}

// NewSession connects.
func (db *DB) NewSession(n int) *Session { return &Session{db: db, n: n} }

// Status is the transaction status as the wire protocol shows it.
func (s *Session) Status() byte {
	switch {
	case s.tx == nil || !s.tx.explicit:
		return 'I'
	case s.tx.failed:
		return 'E'
	}
	return 'T'
}

func (s *Session) begin(explicit bool) {
	s.tx = &tx{s: s, explicit: explicit, snap: -1, writes: map[string]map[string]version{}, made: map[string]*table{}, locked: map[*table]bool{}}
	s.db.txs = append(s.db.txs, s.tx)
}

// end finishes the transaction.
func (s *Session) end(commit bool) {
	t := s.tx
	s.tx = nil
	if t == nil {
		return
	}
	db := s.db
	if commit {
		for n, tb := range t.made {
			db.tables[n] = tb
		}
		if t.wrote {
			db.seq++
			for n, ws := range t.writes {
				tb := db.tables[n]
				for k, v := range ws {
					v.seq = db.seq
					tb.rows[k] = append(tb.rows[k], v)
				}
			}
			db.Seen("pg.commits")
		}
	}
	for n, m := range db.making {
		if m == t {
			delete(db.making, n)
		}
	}
	for tb := range t.locked {
		delete(tb.locks, t)
		for k, h := range tb.row {
			if h == t {
				delete(tb.row, k)
			}
		}
	}
	for k, a := range db.adv {
		if a.holder == s && a.inTx {
			delete(db.adv, k)
		}
	}
	t.over = true
	for i, x := range db.txs {
		if x == t {
			db.txs = append(db.txs[:i:i], db.txs[i+1:]...)
			break
		}
	}
}

// Close ends the session as when its connection is gone.
func (s *Session) Close() {
	s.end(false)
	for k, a := range s.db.adv {
		if a.holder == s {
			delete(s.db.adv, k)
		}
	}
}

// wait blocks until nobody is in the way.
func (s *Session) wait(point string, inWay func() []*tx) *Error {
	t := s.tx
	for {
		bs := inWay()
		if len(bs) == 0 {
			t.waits = nil
			return nil
		}
		t.waits = bs
		// Does anybody wait for us, directly or not?
		seen := map[*tx]bool{}
		var cyc func(x *tx) bool
		cyc = func(x *tx) bool {
			if x == t {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range x.waits {
				if cyc(y) {
					return true
				}
			}
			return false
		}
		for _, b := range bs {
			if cyc(b) {
				t.waits = nil
				s.db.Seen("pg.deadlock")
				return fail("40P01", "deadlock detected")
			}
		}
		s.db.Seen("pg.wait." + point)
		s.db.Wait("pg."+point, func() bool { return len(inWay()) == 0 })
	}
}

func (s *Session) find(name string) (*table, *Error) {
	if tb := s.tx.made[name]; tb != nil {
		return tb, nil
	}
	if tb := s.db.tables[name]; tb != nil {
		return tb, nil
	}
	return nil, fail("42P01", "relation %q does not exist", name)
}

func (s *Session) lockTable(tb *table, mode int, nowait bool) *Error {
	t := s.tx
	in := func() []*tx {
		var rv []*tx
		for _, o := range s.db.txs {
			if o == t {
				continue
			}
			for _, m := range conflicts[mode] {
				if tb.locks[o][m] {
					rv = append(rv, o)
					break
				}
			}
		}
		return rv
	}
	if nowait && len(in()) > 0 {
		return fail("55P03", "could not obtain lock on relation %q", tb.name)
	}
	if err := s.wait("table", in); err != nil {
		return err
	}
	if tb.locks[t] == nil {
		tb.locks[t] = map[int]bool{}
	}
	tb.locks[t][mode] = true
	t.locked[tb] = true
	return nil
}

func (s *Session) lockRow(tb *table, key string) *Error {
	t := s.tx
	err := s.wait("row", func() []*tx {
		if h := tb.row[key]; h != nil && h != t {
			return []*tx{h}
		}
		return nil
	})
	if err != nil {
		return err
	}
	tb.row[key] = t
	if t.iso >= repeatableRead {
		vs := tb.rows[key]
		if len(vs) > 0 && vs[len(vs)-1].seq > t.snap {
			return fail("40001", "could not serialize access due to concurrent update")
		}
	}
	return nil
}

func (s *Session) snapshot() int64 {
	t := s.tx
	if t.iso == readCommitted {
		return s.db.seq
	}
	if t.snap < 0 {
		t.snap = s.db.seq
	}
	return t.snap
}

func (s *Session) read(tb *table, key string, snap int64) (version, bool) {
	if v, ok := s.tx.writes[tb.name][key]; ok {
		return v, !v.del
	}
	vs := tb.rows[key]
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].seq <= snap {
			return vs[i], !vs[i].del
		}
	}
	return version{}, false
}

func (s *Session) put(tb *table, key string, v version) {
	if s.tx.writes[tb.name] == nil {
		s.tx.writes[tb.name] = map[string]version{}
	}
	s.tx.writes[tb.name][key] = v
	s.tx.wrote = true
}

// Result is the outcome of a statement.
type Result struct {
	Cols []string
	Rows [][][]byte // nil: NULL
	Tag  string
}

// Param is a bound parameter.
type Param struct {
	B   []byte
	Nil bool
}

// Exec runs one statement.
func (s *Session) Exec(st *stmt, ps []Param) (*Result, *Error) {
	if s.tx != nil && s.tx.failed {
		switch st.kind {
		case "commit", "rollback":
			s.end(false)
			return &Result{Tag: "ROLLBACK"}, nil
		}
		return nil, fail("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	switch st.kind {
	case "nop":
		return &Result{Tag: st.tag}, nil
	case "begin":
		if s.tx == nil {
			s.begin(true)
			if st.iso >= 0 {
				s.tx.iso = st.iso
			}
			s.tx.ro = st.ro == 1
		}
		return &Result{Tag: st.tag}, nil
	case "settx":
		if s.tx != nil {
			if st.iso >= 0 {
				if s.tx.snap >= 0 {
					s.tx.failed = true
					return nil, fail("25001", "SET TRANSACTION ISOLATION LEVEL must be called before any query")
				}
				s.tx.iso = st.iso
			}
			if st.ro >= 0 {
				s.tx.ro = st.ro == 1
			}
		}
		return &Result{Tag: st.tag}, nil
	case "commit":
		s.end(true)
		return &Result{Tag: st.tag}, nil
	case "rollback":
		s.end(false)
		return &Result{Tag: st.tag}, nil
	}
	implicit := s.tx == nil
	if implicit {
		s.begin(false)
	}
	r, err := s.exec(st, ps)
	if err != nil {
		if implicit {
			s.end(false)
		} else {
			s.tx.failed = true
		}
		return nil, err
	}
	if implicit {
		s.end(true)
	}
	return r, nil
}

func (s *Session) exec(st *stmt, ps []Param) (*Result, *Error) {
	t := s.tx
	if t.ro {
		switch st.kind {
		case "create", "delete", "insert", "update":
			return nil, fail("25006", "cannot execute %s in a read-only transaction", strings.ToUpper(st.kind))
		case "lock":
			if st.mode > rowShare {
				return nil, fail("25006", "cannot execute LOCK TABLE during recovery")
			}
		}
	}
	arg := func(e expr, old version) (version, *Error) {
		switch {
		case e.param > 0:
			if e.param > len(ps) {
				return version{}, fail("08P01", "bind message supplies %d parameters", len(ps))
			}
			p := ps[e.param-1]
			return version{val: p.B, nul: p.Nil}, nil
		case e.isNil:
			return version{nul: true}, nil
		case e.excl:
			return old, nil
		}
		return version{val: e.lit}, nil
	}
	switch st.kind {
	case "create":
		if t.made[st.table] != nil || s.db.tables[st.table] != nil {
			if st.ifNot {
				return &Result{Tag: st.tag}, nil
			}
			return nil, fail("42P07", "relation %q already exists", st.table)
		}
		waited := false
		err := s.wait("create", func() []*tx {
			if m := s.db.making[st.table]; m != nil && m != t {
				waited = true
				return []*tx{m}
			}
			return nil
		})
		if err != nil {
			return nil, err
		}
		if waited && s.db.tables[st.table] != nil {
			// The row that the other one made in the catalogue is a duplicate.
			s.db.Seen("pg.create-race")
			return nil, fail("23505", "duplicate key value violates unique constraint \"pg_type_typname_nsp_index\"")
		}
		s.db.making[st.table] = t
		tb := &table{name: st.table, rows: map[string][]version{}, locks: map[*tx]map[int]bool{}, row: map[string]*tx{}}
		t.made[st.table] = tb
		t.wrote = true
		return &Result{Tag: st.tag}, s.lockTable(tb, accessExclusive, false)
	case "drop":
		return nil, fail("0A000", "not simulated")
	case "lock":
		if !t.explicit {
			return nil, fail("25P01", "LOCK TABLE can only be used in transaction blocks")
		}
		tb, err := s.find(st.table)
		if err != nil {
			return nil, err
		}
		return &Result{Tag: st.tag}, s.lockTable(tb, st.mode, st.nowait)
	case "advisory", "unlock":
		a, err := arg(st.adv, version{})
		if err != nil {
			return nil, err
		}
		k := string(a.val)
		if st.kind == "unlock" {
			ok := s.db.adv[k] != nil && s.db.adv[k].holder == s && !s.db.adv[k].inTx
			if ok {
				delete(s.db.adv, k)
			}
			return &Result{Cols: []string{"true"}, Rows: [][][]byte{{boolean(ok)}}, Tag: "SELECT 1"}, nil
		}
		in := func() []*tx {
			if l := s.db.adv[k]; l != nil && l.holder != s {
				if l.holder.tx != nil {
					return []*tx{l.holder.tx}
				}
				return []*tx{{}}
			}
			return nil
		}
		got := true
		if st.try {
			got = len(in()) == 0
		} else if err := s.wait("advisory", in); err != nil {
			return nil, err
		}
		if got && s.db.adv[k] == nil {
			s.db.adv[k] = &advLock{s, st.advXact}
		}
		if st.try {
			return &Result{Cols: []string{"true"}, Rows: [][][]byte{{boolean(got)}}, Tag: "SELECT 1"}, nil
		}
		return &Result{Cols: []string{"void"}, Rows: [][][]byte{{{}}}, Tag: "SELECT 1"}, nil
	case "select":
		if st.table == "" {
			var row [][]byte
			for range st.cols {
				row = append(row, boolean(true))
			}
			return &Result{Cols: st.cols, Rows: [][][]byte{row}, Tag: "SELECT 1"}, nil
		}
	}
	tb, err := s.find(st.table)
	if err != nil {
		return nil, err
	}
	mode := rowExclusive
	if st.kind == "select" {
		mode = accessShare
		if st.forUpd {
			mode = rowShare
		}
	}
	if err := s.lockTable(tb, mode, false); err != nil {
		return nil, err
	}
	snap := s.snapshot()
	keys := func() ([]string, *Error) {
		if st.where != nil {
			a, err := arg(*st.where, version{})
			if err != nil {
				return nil, err
			}
			if a.nul {
				return nil, nil
			}
			return []string{string(a.val)}, nil
		}
		m := map[string]bool{}
		for k := range tb.rows {
			m[k] = true
		}
		for k := range t.writes[tb.name] {
			m[k] = true
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks, nil
	}
	res := &Result{Cols: st.cols}
	row := func(k string, v version) {
		var r [][]byte
		for _, c := range st.cols {
			switch c {
			case "key":
				r = append(r, []byte(k))
			case "value":
				if v.nul {
					r = append(r, nil)
				} else {
					r = append(r, append([]byte{}, v.val...))
				}
			default:
				r = append(r, boolean(true))
			}
		}
		res.Rows = append(res.Rows, r)
	}
	n := 0
	switch st.kind {
	case "select":
		ks, err := keys()
		if err != nil {
			return nil, err
		}
		for _, k := range ks {
			v, ok := s.read(tb, k, snap)
			if ok && st.forUpd {
				if err := s.lockRow(tb, k); err != nil {
					return nil, err
				}
				v, ok = s.read(tb, k, s.snapshot())
			}
			if ok {
				n++
				row(k, v)
			}
		}
		if len(st.cols) == 1 && st.cols[0] == "count" {
			res.Rows = [][][]byte{{[]byte{0, 0, 0, 0, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}}}
			n = 1
		}
		res.Tag = fmt.Sprintf("SELECT %d", n)
	case "delete", "update":
		ks, err := keys()
		if err != nil {
			return nil, err
		}
		for _, k := range ks {
			if _, ok := s.read(tb, k, snap); !ok {
				// A row that another transaction has put there in the meantime is not seen.
				if h := tb.row[k]; h == nil || h == t {
					continue
				}
				continue
			}
			if err := s.lockRow(tb, k); err != nil {
				return nil, err
			}
			old, ok := s.read(tb, k, s.snapshot())
			if !ok {
				continue
			}
			n++
			if st.kind == "delete" {
				s.put(tb, k, version{del: true})
			} else {
				v, err := arg(st.val, old)
				if err != nil {
					return nil, err
				}
				s.put(tb, k, v)
				old = v
			}
			if st.ret {
				row(k, old)
			}
		}
		res.Tag = fmt.Sprintf("%s %d", strings.ToUpper(st.kind), n)
	case "insert":
		ka, err := arg(st.key, version{})
		if err != nil {
			return nil, err
		}
		if ka.nul {
			return nil, fail("23502", "null value in column \"key\" violates not-null constraint")
		}
		k := string(ka.val)
		v, err := arg(st.val, version{})
		if err != nil {
			return nil, err
		}
		if err := s.lockRow(tb, k); err != nil {
			return nil, err
		}
		_, have := s.read(tb, k, s.db.seq) // uniqueness looks at what is committed
		switch {
		case !have:
			n++
		case st.conflict == "":
			return nil, fail("23505", "duplicate key value violates unique constraint")
		case st.conflict == "nothing":
			res.Tag = "INSERT 0 0"
			return res, nil
		default:
			if v, err = arg(st.upd, v); err != nil {
				return nil, err
			}
			n++
		}
		s.put(tb, k, v)
		if st.ret {
			row(k, v)
		}
		res.Tag = fmt.Sprintf("INSERT 0 %d", n)
	}
	return res, nil
}

func boolean(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}

// Dump gives the committed rows of a table.
func (db *DB) Dump(name string) map[string][]byte {
	rv := map[string][]byte{}
	tb := db.tables[name]
	if tb == nil {
		return rv
	}
	for k, vs := range tb.rows {
		if v := vs[len(vs)-1]; !v.del {
			rv[k] = bytes.Clone(v.val)
		}
	}
	return rv
}
