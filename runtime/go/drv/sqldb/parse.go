// Package sqldb is a small SQL database behind database/sql: strict about syntax, tables, columns and placeholders, so
// that what a statement does can be compared with what it should do.
package sqldb

import (
	"fmt"
	"strconv"
	"strings"
)

type tok struct {
	k byte // i identifier, n number, s string, ? placeholder, p punctuation
	s string
}

func lex(s string) (out []tok, err error) {
	i := 0
	letter := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case letter(c):
			j := i
			for j < len(s) && (letter(s[j]) || digit(s[j]) || s[j] == '.') {
				j++
			}
			out = append(out, tok{'i', s[i:j]})
			i = j
		case digit(c):
			j := i
			for j < len(s) && (digit(s[j]) || s[j] == '.') {
				j++
			}
			if j < len(s) && letter(s[j]) {
				return nil, fmt.Errorf("bad number at %q", s[i:])
			}
			out = append(out, tok{'n', s[i:j]})
			i = j
		case c == '`':
			j := strings.IndexByte(s[i+1:], '`')
			if j <= 0 {
				return nil, fmt.Errorf("bad name at %q", s[i:])
			}
			out = append(out, tok{'i', "`" + s[i+1:i+1+j]})
			i += j + 2
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for ; ; j++ {
				if j >= len(s) {
					return nil, fmt.Errorf("open string at %q", s[i:])
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j++
					} else {
						break
					}
				} else if s[j] == '\\' && j+1 < len(s) {
					j++
				}
				b.WriteByte(s[j])
			}
			out = append(out, tok{'s', b.String()})
			i = j + 1
		case c == '?':
			out = append(out, tok{'?', "?"})
			i++
		default:
			for _, p := range []string{"<=", ">=", "<>", "!="} {
				if strings.HasPrefix(s[i:], p) {
					out = append(out, tok{'p', p})
					i += 2
					c = 0
					break
				}
			}
			if c == 0 {
				continue
			}
			if !strings.ContainsRune("(),=<>+-*/%", rune(c)) {
				return nil, fmt.Errorf("character %q at %q", c, s[i:])
			}
			out = append(out, tok{'p', string(c)})
			i++
		}
	}
	return
}

// expr is an expression: op with arguments, a column, a literal or a placeholder.
type expr struct {
	op   string // col lit ? or an operator or function
	name string
	val  any
	n    int // number of the placeholder
	args []*expr
}

type assign struct {
	col string
	e   *expr
}

type order struct {
	e    *expr
	desc bool
}

type stmt struct {
	kind   string // select insert update delete
	table  string
	items  []*expr
	sets   []assign
	cols   []string
	rows   [][]*expr
	where  *expr
	group  []*expr
	order  []order
	offset *expr
	limit  *expr
	ques   int
}

type parser struct {
	t    []tok
	i    int
	ques int
}

func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{'e', "the end"}
}

func (p *parser) is(w string) bool {
	t := p.peek()
	return (t.k == 'p' || t.k == 'i') && strings.EqualFold(t.s, w)
}

func (p *parser) eat(w string) bool {
	if p.is(w) {
		p.i++
		return true
	}
	return false
}

type syntax string

func (p *parser) fail(want string) {
	panic(syntax(fmt.Sprintf("%s expected at %q (token %d)", want, p.peek().s, p.i)))
}

func (p *parser) need(w string) {
	if !p.eat(w) {
		p.fail(w)
	}
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT FROM WHERE GROUP BY ORDER LIMIT INSERT INTO SET VALUES UPDATE DELETE AND OR NOT IS NULL IN LIKE BETWEEN ASC DESC") {
		reserved[w] = true
	}
}

func (p *parser) name() string {
	t := p.peek()
	if t.k != 'i' || reserved[strings.ToUpper(t.s)] {
		p.fail("a name")
	}
	p.i++
	return strings.TrimPrefix(t.s, "`")
}

func parse(text string) (s *stmt, err error) {
	t, err := lex(text)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t}
	defer func() {
		if e := recover(); e != nil {
			m, ok := e.(syntax)
			if !ok {
				panic(e)
			}
			s, err = nil, fmt.Errorf("%s", string(m))
		}
	}()
	s = &stmt{}
	switch {
	case p.eat("SELECT"):
		s.kind = "select"
		s.items = p.list()
		p.need("FROM")
		s.table = p.name()
		p.tail(s)
	case p.eat("INSERT"):
		s.kind = "insert"
		p.need("INTO")
		s.table = p.name()
		if p.eat("SET") {
			p.assigns(s)
			break
		}
		p.need("(")
		s.cols = append(s.cols, p.name())
		for p.eat(",") {
			s.cols = append(s.cols, p.name())
		}
		p.need(")")
		p.need("VALUES")
		for {
			p.need("(")
			r := p.list()
			p.need(")")
			if len(r) != len(s.cols) {
				return nil, fmt.Errorf("%d columns and %d values", len(s.cols), len(r))
			}
			s.rows = append(s.rows, r)
			if !p.eat(",") {
				break
			}
		}
	case p.eat("UPDATE"):
		s.kind = "update"
		s.table = p.name()
		p.need("SET")
		p.assigns(s)
		p.tail(s)
	case p.eat("DELETE"):
		s.kind = "delete"
		p.need("FROM")
		s.table = p.name()
		p.tail(s)
	default:
		p.fail("a statement")
	}
	if p.i < len(p.t) {
		p.fail("the end")
	}
	s.ques = p.ques
	return s, nil
}

func (p *parser) assigns(s *stmt) {
	for {
		n := p.name()
		p.need("=")
		s.sets = append(s.sets, assign{n, p.expr()})
		if !p.eat(",") {
			return
		}
	}
}

func (p *parser) list() (out []*expr) {
	out = append(out, p.expr())
	for p.eat(",") {
		out = append(out, p.expr())
	}
	return
}

func (p *parser) tail(s *stmt) {
	if p.eat("WHERE") {
		s.where = p.expr()
	}
	if s.kind == "select" && p.eat("GROUP") {
		p.need("BY")
		s.group = p.list()
	}
	if p.eat("ORDER") {
		p.need("BY")
		for {
			o := order{e: p.expr()}
			if p.eat("DESC") {
				o.desc = true
			} else {
				p.eat("ASC")
			}
			s.order = append(s.order, o)
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("LIMIT") {
		s.limit = p.primary()
		if s.kind == "select" && p.eat(",") {
			s.offset = s.limit
			s.limit = p.primary()
		} else if s.kind == "select" && p.eat("OFFSET") {
			s.offset = p.primary()
		}
	}
}

func (p *parser) expr() *expr {
	l := p.and()
	for p.eat("OR") {
		l = &expr{op: "or", args: []*expr{l, p.and()}}
	}
	return l
}

func (p *parser) and() *expr {
	l := p.not()
	for p.eat("AND") {
		l = &expr{op: "and", args: []*expr{l, p.not()}}
	}
	return l
}

func (p *parser) not() *expr {
	if p.eat("NOT") {
		return &expr{op: "not", args: []*expr{p.not()}}
	}
	l := p.sum()
	for {
		neg := false
		switch {
		case p.eat("IS"):
			neg = p.eat("NOT")
			p.need("NULL")
			l = &expr{op: "isnull", args: []*expr{l}}
		case p.is("NOT") || p.is("IN") || p.is("LIKE") || p.is("BETWEEN"):
			neg = p.eat("NOT")
			switch {
			case p.eat("IN"):
				p.need("(")
				l = &expr{op: "in", args: append([]*expr{l}, p.list()...)}
				p.need(")")
			case p.eat("LIKE"):
				l = &expr{op: "like", args: []*expr{l, p.sum()}}
			case p.eat("BETWEEN"):
				a := p.sum()
				p.need("AND")
				l = &expr{op: "and", args: []*expr{{op: ">=", args: []*expr{l, a}}, {op: "<=", args: []*expr{l, p.sum()}}}}
			default:
				p.fail("IN")
			}
		default:
			t := p.peek()
			switch t.s {
			case "=", "<", ">", "<=", ">=", "<>", "!=":
				if t.k != 'p' {
					return l
				}
				p.i++
				if t.s == "!=" {
					t.s = "<>"
				}
				l = &expr{op: t.s, args: []*expr{l, p.sum()}}
				continue
			}
			return l
		}
		if neg {
			l = &expr{op: "not", args: []*expr{l}}
		}
	}
}

func (p *parser) sum() *expr {
	l := p.product()
	for p.peek().k == 'p' && (p.is("+") || p.is("-")) {
		o := p.peek().s
		p.i++
		l = &expr{op: o, args: []*expr{l, p.product()}}
	}
	return l
}

func (p *parser) product() *expr {
	l := p.primary()
	for p.peek().k == 'p' && (p.is("*") || p.is("/") || p.is("%")) {
		o := p.peek().s
		p.i++
		l = &expr{op: o, args: []*expr{l, p.primary()}}
	}
	return l
}

func (p *parser) primary() *expr {
	t := p.peek()
	switch t.k {
	case '?':
		p.i++
		p.ques++
		return &expr{op: "?", n: p.ques - 1}
	case 'n':
		p.i++
		if n, err := strconv.ParseInt(t.s, 10, 64); err == nil {
			return &expr{op: "lit", val: n}
		}
		f, err := strconv.ParseFloat(t.s, 64)
		if err != nil {
			p.fail("a number")
		}
		return &expr{op: "lit", val: f}
	case 's':
		p.i++
		return &expr{op: "lit", val: t.s}
	case 'p':
		switch t.s {
		case "(":
			p.i++
			e := p.expr()
			p.need(")")
			return e
		case "-":
			p.i++
			return &expr{op: "-", args: []*expr{{op: "lit", val: int64(0)}, p.primary()}}
		case "*":
			p.i++
			return &expr{op: "*all"}
		}
	case 'i':
		if p.eat("NULL") {
			return &expr{op: "lit"}
		}
		n := p.name()
		if !strings.HasPrefix(t.s, "`") && p.eat("(") {
			e := &expr{op: "f", name: strings.ToUpper(n)}
			if !p.eat(")") {
				e.args = p.list()
				p.need(")")
			}
			return e
		}
		return &expr{op: "col", name: n}
	}
	p.fail("an expression")
	return nil
}
