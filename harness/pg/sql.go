// Package pg is a simulated PostgreSQL server: it speaks the wire protocol to the real driver
// and gives the little SQL that a key-value table needs the server's own meaning: transactions,
// snapshots by isolation level, table and row locks, advisory locks, deadlock detection.
package pg

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

type tokKind int

const (
	tWord  tokKind = iota // keyword or plain identifier, lower case
	tIdent                // quoted identifier
	tStr                  // 'literal'
	tNum
	tParam // $n
	tOp
)

type tok struct {
	k tokKind
	s string
}

func lex(sql string) ([]tok, error) {
	var rv []tok
	for i := 0; i < len(sql); {
		c := sql[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(sql[i:], "--"):
			for i < len(sql) && sql[i] != '\n' {
				i++
			}
		case strings.HasPrefix(sql[i:], "/*"):
			j := strings.Index(sql[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 2
		case c == '"' || c == '\'':
			var b []byte
			j := i + 1
			for {
				if j >= len(sql) {
					return nil, fmt.Errorf("unterminated quoted string")
				}
				if sql[j] == c {
					if j+1 < len(sql) && sql[j+1] == c {
						b = append(b, c)
						j += 2
						continue
					}
					break
				}
				b = append(b, sql[j])
				j++
			}
			k := tIdent
			if c == '\'' {
				k = tStr
			}
			rv = append(rv, tok{k, string(b)})
			i = j + 1
		case c == '$' && i+1 < len(sql) && sql[i+1] >= '0' && sql[i+1] <= '9':
			j := i + 1
			for j < len(sql) && sql[j] >= '0' && sql[j] <= '9' {
				j++
			}
			rv = append(rv, tok{tParam, sql[i+1 : j]})
			i = j
		case c >= '0' && c <= '9' || c == '-' && i+1 < len(sql) && sql[i+1] >= '0' && sql[i+1] <= '9':
			j := i + 1
			for j < len(sql) && sql[j] >= '0' && sql[j] <= '9' {
				j++
			}
			rv = append(rv, tok{tNum, sql[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i + 1
			for j < len(sql) && (sql[j] == '_' || sql[j] == '$' || sql[j] >= '0' && sql[j] <= '9' || sql[j] >= 'a' && sql[j] <= 'z' || sql[j] >= 'A' && sql[j] <= 'Z' || sql[j] >= 0x80) {
				j++
			}
			rv = append(rv, tok{tWord, strings.ToLower(sql[i:j])})
			i = j
		case strings.HasPrefix(sql[i:], "::"):
			rv = append(rv, tok{tOp, "::"})
			i += 2
		default:
			rv = append(rv, tok{tOp, string(c)})
			i++
		}
	}
	return rv, nil
}

// Lock modes of tables, weakest first.
const (
	accessShare = iota
	rowShare
	rowExclusive
	shareUpdateExclusive
	share
	shareRowExclusive
	exclusive
	accessExclusive
)

var modes = map[string]int{
	"access share": accessShare, "row share": rowShare, "row exclusive": rowExclusive, "share update exclusive": shareUpdateExclusive,
	"share": share, "share row exclusive": shareRowExclusive, "exclusive": exclusive, "access exclusive": accessExclusive,
}

var conflicts = [8][]int{
	accessShare:          {accessExclusive},
	rowShare:             {exclusive, accessExclusive},
	rowExclusive:         {share, shareRowExclusive, exclusive, accessExclusive},
	shareUpdateExclusive: {shareUpdateExclusive, share, shareRowExclusive, exclusive, accessExclusive},
	share:                {rowExclusive, shareUpdateExclusive, shareRowExclusive, exclusive, accessExclusive},
	shareRowExclusive:    {rowExclusive, shareUpdateExclusive, share, shareRowExclusive, exclusive, accessExclusive},
	exclusive:            {rowShare, rowExclusive, shareUpdateExclusive, share, shareRowExclusive, exclusive, accessExclusive},
	accessExclusive:      {accessShare, rowShare, rowExclusive, shareUpdateExclusive, share, shareRowExclusive, exclusive, accessExclusive},
}

// Isolation levels.
const (
	readCommitted = iota
	repeatableRead
	serializable
)

// expr is a parameter or a literal.
type expr struct {
	param int // 1 is the first; 0: literal
	lit   []byte
	isNil bool
	excl  bool // excluded.value
}

type stmt struct {
	kind     string // begin, commit, rollback, settx, create, drop, lock, select, advisory, delete, insert, update, nop
	table    string
	iso      int // -1: not said
	ro       int // -1: not said
	mode     int
	nowait   bool
	ifNot    bool
	cols     []string // of a select: key, value, one, count
	where    *expr    // key = ...
	forUpd   bool
	key      expr
	val      expr
	conflict string // "", nothing, update
	upd      expr
	adv      expr
	advXact  bool
	try      bool
	ret      bool
	tag      string
	nparam   int
	oids     []uint32
}

type parser struct {
	t []tok
	i int
	s *stmt
}

type parseErr string

func (p *parser) fail(f string, a ...any) { panic(parseErr(fmt.Sprintf(f, a...))) }
func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{tOp, ""}
}
func (p *parser) next() tok { t := p.peek(); p.i++; return t }

// kw accepts a sequence of words, if it comes next.
func (p *parser) kw(words string) bool {
	ws := strings.Fields(words)
	for j, w := range ws {
		if p.i+j >= len(p.t) || p.t[p.i+j] != (tok{tWord, w}) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *parser) op(s string) bool {
	if p.peek() == (tok{tOp, s}) {
		p.i++
		return true
	}
	return false
}
func (p *parser) need(ok bool, what string) {
	if !ok {
		p.fail("syntax error at or near %q: expected %s", p.peek().s, what)
	}
}
func (p *parser) name() string {
	t := p.next()
	if t.k != tWord && t.k != tIdent {
		p.i--
		p.fail("syntax error at or near %q", t.s)
	}
	n := t.s
	if p.op(".") {
		t = p.next()
		n = t.s // public.x
	}
	return n
}
func (p *parser) col(want ...string) string {
	c := p.name()
	for _, w := range want {
		if c == w {
			return c
		}
	}
	p.fail("column %q does not exist", c)
	return ""
}

func (p *parser) expr(oid uint32) expr {
	t := p.next()
	var e expr
	switch {
	case t.k == tParam:
		n, _ := strconv.Atoi(t.s)
		if n < 1 || n > 100 {
			p.fail("there is no parameter $%s", t.s)
		}
		e.param = n
		for len(p.s.oids) < n {
			p.s.oids = append(p.s.oids, 0)
		}
		if p.s.oids[n-1] == 0 {
			p.s.oids[n-1] = oid
		}
	case t.k == tStr:
		if strings.HasPrefix(t.s, "\\x") {
			b, err := hex.DecodeString(t.s[2:])
			if err != nil {
				p.fail("invalid hexadecimal data")
			}
			e.lit = b
		} else {
			e.lit = []byte(t.s)
		}
	case t.k == tNum:
		e.lit = []byte(t.s)
	case t == tok{tWord, "null"}:
		e.isNil = true
	case t == tok{tWord, "excluded"}:
		p.need(p.op("."), ".")
		p.col("value")
		e.excl = true
	default:
		p.i--
		p.fail("syntax error at or near %q", t.s)
	}
	if p.op("::") {
		p.name()
	}
	return e
}

func (p *parser) whereKey() *expr {
	if !p.kw("where") {
		return nil
	}
	par := p.op("(")
	p.col("key")
	p.need(p.op("="), "=")
	e := p.expr(17)
	if par {
		p.need(p.op(")"), ")")
	}
	return &e
}

func (p *parser) txModes() {
	for {
		switch {
		case p.kw("isolation level serializable"):
			p.s.iso = serializable
		case p.kw("isolation level repeatable read"):
			p.s.iso = repeatableRead
		case p.kw("isolation level read committed"), p.kw("isolation level read uncommitted"):
			p.s.iso = readCommitted
		case p.kw("read only"):
			p.s.ro = 1
		case p.kw("read write"):
			p.s.ro = 0
		case p.kw("not deferrable"), p.kw("deferrable"):
		case p.op(","):
		default:
			return
		}
	}
}

func parse(sql string) (s *stmt, err error) {
	t, err := lex(sql)
	if err != nil {
		return nil, err
	}
	for len(t) > 0 && t[len(t)-1] == (tok{tOp, ";"}) {
		t = t[:len(t)-1]
	}
	s = &stmt{iso: -1, ro: -1}
	p := &parser{t: t, s: s}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(parseErr)
			if !ok {
				panic(r)
			}
			s, err = nil, fmt.Errorf("%s (in %q)", string(e), sql)
		}
	}()
	p.statement()
	if p.i < len(p.t) {
		p.fail("syntax error at or near %q", p.peek().s)
	}
	s.nparam = len(s.oids)
	return s, nil
}

func (p *parser) statement() {
	s := p.s
	switch {
	case len(p.t) == 0:
		s.kind = "nop"
	case p.kw("begin transaction"), p.kw("begin work"), p.kw("begin"), p.kw("start transaction"):
		s.kind, s.tag = "begin", "BEGIN"
		p.txModes()
	case p.kw("commit"), p.kw("end"):
		s.kind, s.tag = "commit", "COMMIT"
		_ = p.kw("transaction") || p.kw("work")
	case p.kw("rollback"), p.kw("abort"):
		s.kind, s.tag = "rollback", "ROLLBACK"
		_ = p.kw("transaction") || p.kw("work")
	case p.kw("set transaction"):
		s.kind, s.tag = "settx", "SET"
		p.txModes()
	case p.kw("set"), p.kw("deallocate"), p.kw("discard"), p.kw("reset"), p.kw("unlisten"):
		s.kind, s.tag = "nop", "SET"
		p.i = len(p.t)
	case p.kw("create unlogged table"), p.kw("create table"):
		s.kind, s.tag = "create", "CREATE TABLE"
		s.ifNot = p.kw("if not exists")
		s.table = p.name()
		p.need(p.op("("), "(")
		for d := 1; d > 0; {
			if p.i >= len(p.t) {
				p.fail("syntax error at end of input")
			}
			switch p.next() {
			case tok{tOp, "("}:
				d++
			case tok{tOp, ")"}:
				d--
			}
		}
	case p.kw("lock table only"), p.kw("lock table"), p.kw("lock"):
		s.kind, s.tag, s.mode = "lock", "LOCK TABLE", accessExclusive
		s.table = p.name()
		if p.kw("in") {
			var w []string
			for !p.kw("mode") {
				t := p.next()
				if t.k != tWord {
					p.fail("syntax error at or near %q", t.s)
				}
				w = append(w, t.s)
			}
			m, ok := modes[strings.Join(w, " ")]
			if !ok {
				p.fail("unrecognized lock mode %v", w)
			}
			s.mode = m
		}
		s.nowait = p.kw("nowait")
	case p.kw("select"):
		p.sel()
	case p.kw("delete from"):
		s.kind = "delete"
		s.table = p.name()
		s.where = p.whereKey()
		p.returning()
	case p.kw("insert into"):
		s.kind = "insert"
		s.table = p.name()
		order := []string{"key", "value"}
		if p.kw("as") {
			p.name()
		}
		if p.op("(") {
			order = []string{p.col("key", "value")}
			p.need(p.op(","), ",")
			order = append(order, p.col("key", "value"))
			p.need(p.op(")"), ")")
		}
		p.need(p.kw("values"), "VALUES")
		p.need(p.op("("), "(")
		for i, c := range order {
			if i > 0 {
				p.need(p.op(","), ",")
			}
			e := p.expr(17)
			if c == "key" {
				s.key = e
			} else {
				s.val = e
			}
		}
		p.need(p.op(")"), ")")
		if p.kw("on conflict") {
			if p.op("(") {
				p.col("key")
				p.need(p.op(")"), ")")
			} else if p.kw("on constraint") {
				p.name()
			}
			if p.kw("do nothing") {
				s.conflict = "nothing"
			} else {
				p.need(p.kw("do update set"), "DO")
				p.col("value")
				p.need(p.op("="), "=")
				s.conflict = "update"
				s.upd = p.expr(17)
			}
		}
		p.returning()
	case p.kw("update"):
		s.kind = "update"
		s.table = p.name()
		p.need(p.kw("set"), "SET")
		p.col("value")
		p.need(p.op("="), "=")
		s.val = p.expr(17)
		s.where = p.whereKey()
		p.returning()
	default:
		p.fail("syntax error at or near %q", p.peek().s)
	}
}

func (p *parser) returning() {
	if p.kw("returning") {
		p.s.ret = true
		p.s.cols = p.columns()
	}
}

func (p *parser) columns() []string {
	var cs []string
	for {
		switch {
		case p.op("*"):
			cs = append(cs, "key", "value")
		case p.peek().k == tNum:
			p.next()
			cs = append(cs, "one")
		case p.kw("true"):
			cs = append(cs, "true")
		case p.kw("count"):
			p.need(p.op("("), "(")
			p.need(p.op("*"), "*")
			p.need(p.op(")"), ")")
			cs = append(cs, "count")
		default:
			cs = append(cs, p.col("key", "value"))
		}
		if p.kw("as") {
			p.name()
		}
		if !p.op(",") {
			return cs
		}
	}
}

func (p *parser) sel() {
	s := p.s
	s.kind = "select"
	for _, f := range []string{"pg_advisory_xact_lock", "pg_advisory_lock", "pg_try_advisory_xact_lock", "pg_try_advisory_lock", "pg_advisory_unlock"} {
		if p.kw(f) {
			s.kind, s.advXact, s.try = "advisory", strings.Contains(f, "xact"), strings.Contains(f, "try")
			if f == "pg_advisory_unlock" {
				s.kind = "unlock"
			}
			p.need(p.op("("), "(")
			if p.kw("hashtext") {
				p.need(p.op("("), "(")
				s.adv = p.expr(25)
				p.need(p.op(")"), ")")
			} else {
				s.adv = p.expr(20)
			}
			p.need(p.op(")"), ")")
			return
		}
	}
	s.cols = p.columns()
	if !p.kw("from") {
		for _, c := range s.cols {
			if c != "one" && c != "true" {
				p.fail("column %q does not exist", c)
			}
		}
		return
	}
	s.table = p.name()
	s.where = p.whereKey()
	_ = p.kw("limit") && p.next().k == tNum
	if p.kw("for update") || p.kw("for no key update") || p.kw("for share") || p.kw("for key share") {
		s.forUpd = true
	}
}
