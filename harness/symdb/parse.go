package symdb

import (
	"strconv"
	"strings"
)

// A small SQL parser: the statements gorm's MySQL dialect produces for single tables.

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQuoted // `x`
	tNumber
	tString
	tParam
	tPunct
)

type token struct {
	kind tokKind
	text string // keywords are upper-cased in up
	up   string
}

type expr interface{}

type (
	eCol   struct{ name string }
	eParam struct{ n int }
	eLit   struct{ v any }
	eBin   struct {
		op   string
		l, r expr
	}
	eNot struct{ e expr }
	eIn  struct {
		e    expr
		list []expr
		not  bool
	}
	eIsNull struct {
		e   expr
		not bool
	}
	eLike struct {
		e, p expr
		not  bool
	}
	eFunc struct {
		name string
		args []expr
		star bool
	}
	eTuple   struct{ list []expr }
	eDefault struct{}
)

type selItem struct {
	star bool
	e    expr
	as   string
}

type orderItem struct {
	e    expr
	desc bool
}

type assign struct {
	col string
	e   expr
}

type stmt struct {
	kind   string // select insert update delete savepoint rollbackto release
	table  string
	items  []selItem
	dist   bool
	where  expr
	group  []expr
	having expr
	order  []orderItem
	limit  expr
	offset expr
	lock   string // "", "UPDATE", "SHARE"
	wait   string // "", "NOWAIT", "SKIP LOCKED"
	cols   []string
	rows   [][]expr
	sets   []assign
	dup    []assign
	ignore bool
	name   string // savepoint
	nparam int
}

type parser struct {
	src  string
	toks []token
	i    int
	np   int
}

type parseError struct{ msg string }

func (e parseError) Error() string { return "symdb: " + e.msg }

func isIdentStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func lex(s string) []token {
	r := make([]token, 0, 32)
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '`' || c == '"' && false:
			j := strings.IndexByte(s[i+1:], '`')
			if j < 0 {
				panic(parseError{"unterminated identifier"})
			}
			r = append(r, token{kind: tQuoted, text: s[i+1 : i+1+j]})
			i += j + 2
		case c == '\'' || c == '"':
			var b []byte
			j := i + 1
			for {
				if j >= len(s) {
					panic(parseError{"unterminated string"})
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b = append(b, c)
						j += 2
						continue
					}
					break
				}
				if s[j] == '\\' && j+1 < len(s) {
					j++
				}
				b = append(b, s[j])
				j++
			}
			r = append(r, token{kind: tString, text: string(b)})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			r = append(r, token{kind: tNumber, text: s[i:j]})
			i = j
		case c == '?':
			r = append(r, token{kind: tParam})
			i++
		case isIdentStart(c):
			j := i
			for j < len(s) && (isIdentStart(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			r = append(r, token{kind: tIdent, text: s[i:j], up: strings.ToUpper(s[i:j])})
			i = j
		default:
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "<=", ">=", "<>", "!=":
					r = append(r, token{kind: tPunct, text: s[i : i+2]})
					i += 2
					continue
				}
			}
			r = append(r, token{kind: tPunct, text: s[i : i+1]})
			i++
		}
	}
	return append(r, token{kind: tEOF})
}

func (p *parser) peek() token { return p.toks[p.i] }
func (p *parser) next() token {
	t := p.toks[p.i]
	if p.i < len(p.toks)-1 {
		p.i++
	}
	return t
}

func (p *parser) kw(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.toks) {
			return false
		}
		if t := p.toks[p.i+k]; t.kind != tIdent || t.up != w {
			return false
		}
	}
	p.i += len(words)
	return true
}

func (p *parser) punct(s string) bool {
	if t := p.peek(); t.kind == tPunct && t.text == s {
		p.i++
		return true
	}
	return false
}

func (p *parser) fail(what string) {
	panic(parseError{"cannot parse (" + what + "): " + p.src})
}

func (p *parser) want(s string) {
	if !p.punct(s) {
		p.fail("expected " + s)
	}
}

func (p *parser) wantKw(s ...string) {
	if !p.kw(s...) {
		p.fail("expected " + strings.Join(s, " "))
	}
}

func (p *parser) ident() string {
	t := p.next()
	if t.kind != tIdent && t.kind != tQuoted {
		p.fail("expected a name")
	}
	return t.text
}

// name parses `a` or `t`.`a` and gives the last part.
func (p *parser) name() string {
	n := p.ident()
	for p.punct(".") {
		n = p.ident()
	}
	return n
}

func parse(s string) *stmt {
	p := &parser{src: s, toks: lex(s)}
	st := p.stmt()
	p.punct(";")
	if p.peek().kind != tEOF {
		p.fail("trailing input")
	}
	st.nparam = p.np
	return st
}

func (p *parser) stmt() *stmt {
	switch {
	case p.kw("SELECT"):
		return p.selectStmt()
	case p.kw("INSERT"):
		return p.insertStmt()
	case p.kw("UPDATE"):
		st := &stmt{kind: "update", table: p.name()}
		p.wantKw("SET")
		st.sets = p.assigns()
		p.tail(st)
		return st
	case p.kw("DELETE"):
		p.wantKw("FROM")
		st := &stmt{kind: "delete", table: p.name()}
		p.tail(st)
		return st
	case p.kw("SAVEPOINT"):
		return &stmt{kind: "savepoint", name: p.ident()}
	case p.kw("ROLLBACK", "TO", "SAVEPOINT"), p.kw("ROLLBACK", "TO"):
		return &stmt{kind: "rollbackto", name: p.ident()}
	case p.kw("RELEASE", "SAVEPOINT"):
		return &stmt{kind: "release", name: p.ident()}
	}
	p.fail("statement")
	return nil
}

func (p *parser) assigns() []assign {
	var r []assign
	for {
		c := p.name()
		p.want("=")
		r = append(r, assign{c, p.expr()})
		if !p.punct(",") {
			return r
		}
	}
}

// tail parses WHERE ... to the end.
func (p *parser) tail(st *stmt) {
	if p.kw("WHERE") {
		st.where = p.expr()
	}
	if p.kw("GROUP", "BY") {
		for {
			st.group = append(st.group, p.expr())
			if !p.punct(",") {
				break
			}
		}
	}
	if p.kw("HAVING") {
		st.having = p.expr()
	}
	if p.kw("ORDER", "BY") {
		for {
			o := orderItem{e: p.expr()}
			if p.kw("DESC") {
				o.desc = true
			} else {
				p.kw("ASC")
			}
			st.order = append(st.order, o)
			if !p.punct(",") {
				break
			}
		}
	}
	if p.kw("LIMIT") {
		st.limit = p.prim()
		if p.punct(",") {
			st.offset = st.limit
			st.limit = p.prim()
		} else if p.kw("OFFSET") {
			st.offset = p.prim()
		}
	}
	if p.kw("FOR") {
		switch {
		case p.kw("UPDATE"):
			st.lock = "UPDATE"
		case p.kw("SHARE"):
			st.lock = "SHARE"
		default:
			p.fail("lock")
		}
		switch {
		case p.kw("NOWAIT"):
			st.wait = "NOWAIT"
		case p.kw("SKIP", "LOCKED"):
			st.wait = "SKIP LOCKED"
		}
	} else if p.kw("LOCK", "IN", "SHARE", "MODE") {
		st.lock = "SHARE"
	}
}

func (p *parser) selectStmt() *stmt {
	st := &stmt{kind: "select"}
	st.dist = p.kw("DISTINCT")
	for {
		it := selItem{}
		if p.punct("*") {
			it.star = true
		} else {
			save := p.i
			it.e = nil
			// `t`.*
			if t := p.peek(); t.kind == tQuoted || t.kind == tIdent {
				p.next()
				if p.punct(".") && p.punct("*") {
					it.star = true
				} else {
					p.i = save
				}
			}
			if !it.star {
				it.e = p.expr()
				it.as = ""
				if p.kw("AS") {
					it.as = p.ident()
				} else if t := p.peek(); t.kind == tQuoted {
					it.as = p.ident()
				}
				if it.as == "" {
					if c, ok := it.e.(*eCol); ok {
						it.as = c.name
					} else {
						it.as = "expr"
					}
				}
			}
		}
		st.items = append(st.items, it)
		if !p.punct(",") {
			break
		}
	}
	if p.kw("FROM") {
		st.table = p.name()
	}
	p.tail(st)
	return st
}

func (p *parser) insertStmt() *stmt {
	st := &stmt{kind: "insert"}
	st.ignore = p.kw("IGNORE")
	p.wantKw("INTO")
	st.table = p.name()
	p.want("(")
	for !p.punct(")") {
		st.cols = append(st.cols, p.name())
		p.punct(",")
	}
	if !p.kw("VALUES") {
		p.wantKw("VALUE")
	}
	for {
		p.want("(")
		row := []expr{}
		for !p.punct(")") {
			if p.kw("DEFAULT") {
				row = append(row, &eDefault{})
			} else {
				row = append(row, p.expr())
			}
			p.punct(",")
		}
		st.rows = append(st.rows, row)
		if !p.punct(",") {
			break
		}
	}
	if p.kw("ON", "DUPLICATE", "KEY", "UPDATE") {
		st.dup = p.assigns()
	}
	return st
}

func (p *parser) expr() expr {
	l := p.and()
	for p.kw("OR") {
		l = &eBin{"OR", l, p.and()}
	}
	return l
}

func (p *parser) and() expr {
	l := p.not()
	for p.kw("AND") {
		l = &eBin{"AND", l, p.not()}
	}
	return l
}

func (p *parser) not() expr {
	if p.kw("NOT") {
		return &eNot{p.not()}
	}
	return p.cmp()
}

func (p *parser) cmp() expr {
	l := p.add()
	for {
		t := p.peek()
		if t.kind == tPunct {
			switch t.text {
			case "=", "<", ">", "<=", ">=", "<>", "!=":
				p.next()
				op := t.text
				if op == "<>" {
					op = "!="
				}
				l = &eBin{op, l, p.add()}
				continue
			}
		}
		if p.kw("IS") {
			not := p.kw("NOT")
			p.wantKw("NULL")
			l = &eIsNull{l, not}
			continue
		}
		not := false
		save := p.i
		if p.kw("NOT") {
			not = true
		}
		switch {
		case p.kw("IN"):
			in := &eIn{e: l, not: not}
			if !p.punct("(") {
				p.fail("IN")
			}
			for !p.punct(")") {
				in.list = append(in.list, p.expr())
				p.punct(",")
			}
			l = in
			continue
		case p.kw("LIKE"):
			l = &eLike{l, p.add(), not}
			continue
		case p.kw("BETWEEN"):
			a := p.add()
			p.wantKw("AND")
			b := p.add()
			var e expr = &eBin{"AND", &eBin{">=", l, a}, &eBin{"<=", l, b}}
			if not {
				e = &eNot{e}
			}
			l = e
			continue
		}
		p.i = save
		return l
	}
}

func (p *parser) add() expr {
	l := p.mul()
	for {
		switch {
		case p.punct("+"):
			l = &eBin{"+", l, p.mul()}
		case p.punct("-"):
			l = &eBin{"-", l, p.mul()}
		default:
			return l
		}
	}
}

func (p *parser) mul() expr {
	l := p.prim()
	for p.punct("*") {
		l = &eBin{"*", l, p.prim()}
	}
	return l
}

func (p *parser) prim() expr {
	t := p.next()
	switch t.kind {
	case tParam:
		p.np++
		return &eParam{p.np - 1}
	case tNumber:
		if strings.Contains(t.text, ".") {
			f, _ := strconv.ParseFloat(t.text, 64)
			return &eLit{f}
		}
		n, _ := strconv.ParseInt(t.text, 10, 64)
		return &eLit{n}
	case tString:
		return &eLit{t.text}
	case tPunct:
		if t.text == "-" {
			return &eBin{"-", &eLit{int64(0)}, p.prim()}
		}
		if t.text == "(" {
			e := p.expr()
			if p.punct(",") {
				l := &eTuple{list: []expr{e}}
				for {
					l.list = append(l.list, p.expr())
					if !p.punct(",") {
						break
					}
				}
				p.want(")")
				return l
			}
			p.want(")")
			return e
		}
	case tIdent:
		switch t.up {
		case "NULL":
			return &eLit{nil}
		case "TRUE":
			return &eLit{int64(1)}
		case "FALSE":
			return &eLit{int64(0)}
		case "SELECT":
			p.fail("subquery")
		}
		if p.punct("(") {
			f := &eFunc{name: t.up}
			if p.punct("*") {
				f.star = true
				p.want(")")
				return f
			}
			for !p.punct(")") {
				f.args = append(f.args, p.expr())
				p.punct(",")
			}
			return f
		}
		fallthrough
	case tQuoted:
		n := t.text
		for p.punct(".") {
			n = p.ident()
		}
		return &eCol{n}
	}
	p.fail("expression")
	return nil
}
