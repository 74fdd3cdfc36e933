package dart

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

var reserved = map[string]bool{}
var builtinIdent = map[string]bool{}

func init() {
	for _, w := range strings.Fields("assert break case catch class const continue default do else enum extends false final finally for if in is new null rethrow return super switch this throw true try var void while with") {
		reserved[w] = true
	}
	for _, w := range strings.Fields("abstract as covariant deferred dynamic export extension external factory Function get implements import interface late library mixin operator part required set static typedef") {
		builtinIdent[w] = true
	}
}

type parser struct {
	file  string
	toks  []tok
	i     int
	async bool
}

func (p *parser) t() tok          { return p.toks[p.i] }
func (p *parser) peek(n int) tok  { return p.toks[min(p.i+n, len(p.toks)-1)] }
func (p *parser) fail(msg string) { panic(&SyntaxError{File: p.file, Line: p.t().line, Msg: msg}) }

func (p *parser) is(s string) bool { return p.t().k == tPunct && p.t().s == s }
func (p *parser) isKw(s string) bool {
	return p.t().k == tIdent && p.t().s == s
}

func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}

func (p *parser) acceptKw(s string) bool {
	if p.isKw(s) {
		p.i++
		return true
	}
	return false
}

func (p *parser) show() string {
	t := p.t()
	switch t.k {
	case tEOF:
		return "the end of the file"
	case tString:
		return "a string"
	}
	return "'" + t.s + "'"
}

func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected '" + s + "' before " + p.show())
	}
}

func (p *parser) ident() string {
	if p.t().k != tIdent {
		p.fail("expected an identifier before " + p.show())
	}
	s := p.t().s
	if reserved[s] {
		p.fail("'" + s + "' is a reserved word")
	}
	p.i++
	return s
}

func (p *parser) typeName() string {
	s := p.ident()
	if builtinIdent[s] && s != "dynamic" && s != "Function" {
		p.i--
		p.fail("'" + s + "' can't be the name of a type")
	}
	return s
}

func parseUnit(file, src string) (u *unit, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*SyntaxError); ok {
				e.File = file
				err = e
				return
			}
			panic(r)
		}
	}()
	p := &parser{file: file, toks: lex(src, 1)}
	u = &unit{file: file}
	for p.t().k != tEOF {
		p.topLevel(u)
	}
	return u, nil
}

func (p *parser) stringText() string {
	if p.t().k != tString {
		p.fail("expected a string before " + p.show())
	}
	var b strings.Builder
	for p.t().k == tString {
		for _, x := range p.t().parts {
			if x.code {
				p.fail("interpolation is not allowed here")
			}
			b.WriteString(x.text)
		}
		p.i++
	}
	return b.String()
}

func (p *parser) topLevel(u *unit) {
	line := p.t().line
	if (p.isKw("import") || p.isKw("export")) && p.peek(1).k == tString {
		d := &directive{export: p.isKw("export"), line: line}
		if len(u.decls) > 0 {
			p.fail("directives have to appear before any declarations")
		}
		p.i++
		d.uri = p.stringText()
		if p.acceptKw("as") {
			d.prefix = p.ident()
		}
		for p.isKw("show") || p.isKw("hide") {
			set := map[string]bool{}
			if p.isKw("show") {
				d.show = set
			} else {
				d.hide = set
			}
			p.i++
			set[p.ident()] = true
			for p.accept(",") {
				set[p.ident()] = true
			}
		}
		p.expect(";")
		u.dirs = append(u.dirs, d)
		return
	}
	p.annotations()
	if p.isKw("class") || p.isKw("abstract") && p.peek(1).s == "class" {
		u.decls = append(u.decls, p.class())
		return
	}
	for _, w := range []string{"enum", "mixin", "extension", "typedef", "part", "library"} {
		if p.isKw(w) && p.peek(1).k == tIdent {
			p.fail("this reader of Dart does not know '" + w + "'")
		}
	}
	for _, d := range p.memberDecl("", false) {
		u.decls = append(u.decls, d)
	}
}

func (p *parser) annotations() (override bool) {
	for p.is("@") {
		p.i++
		name := p.ident()
		for p.accept(".") {
			p.ident()
		}
		if p.is("(") && p.t().pos == p.toks[p.i-1].end {
			p.args()
		}
		if name == "override" {
			override = true
		}
	}
	return
}

func (p *parser) class() *classDecl {
	c := &classDecl{line: p.t().line}
	c.abstract = p.acceptKw("abstract")
	p.i++ // class
	c.name = p.typeName()
	c.tparams = p.typeParams()
	if p.acceptKw("extends") {
		c.super = p.typ()
	}
	if p.acceptKw("with") {
		c.with = p.typeList()
	}
	if p.acceptKw("implements") {
		c.ifaces = p.typeList()
	}
	p.expect("{")
	for !p.accept("}") {
		override := p.annotations()
		for _, m := range p.memberDecl(c.name, true) {
			switch m := m.(type) {
			case *funcDecl:
				m.override = override
			case *varDecl:
				m.override = override
			}
			c.members = append(c.members, m)
		}
	}
	return c
}

func (p *parser) typeList() []*typeX {
	l := []*typeX{p.typ()}
	for p.accept(",") {
		l = append(l, p.typ())
	}
	return l
}

func (p *parser) typeParams() []string {
	if !p.accept("<") {
		return nil
	}
	var l []string
	for {
		l = append(l, p.typeName())
		if p.acceptKw("extends") {
			p.typ()
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(">")
	return l
}

// typ reads a type. ">" of nested arguments come as single tokens, because the lexer does not join them.
func (p *parser) typ() *typeX {
	line := p.t().line
	var t *typeX
	if p.isKw("Function") && (p.peek(1).s == "(" || p.peek(1).s == "<") {
		t = &typeX{name: "dynamic", line: line} // the result is not written
	} else {
		t = &typeX{line: line}
		if p.isKw("void") {
			p.i++
			t.name = "void"
		} else {
			t.name = p.typeName()
		}
		if p.is(".") && p.peek(1).k == tIdent {
			p.i++
			t.name += "." + p.typeName()
		}
		if p.accept("<") {
			t.args = p.typeList()
			p.expect(">")
		}
		if p.accept("?") {
			t.null = true
		}
	}
	for p.isKw("Function") && (p.peek(1).s == "(" || p.peek(1).s == "<") {
		p.i++
		p.typeParams()
		sig := &funcSig{ret: t, params: p.fnTypeParams()}
		t = &typeX{fn: sig, line: line}
		if p.accept("?") {
			t.null = true
		}
	}
	return t
}

func (p *parser) fnTypeParams() []*param {
	p.expect("(")
	var l []*param
	end := ")"
	mode := ""
	for !p.accept(end) {
		if mode == "" && (p.is("[") || p.is("{")) {
			mode = p.t().s
			p.i++
			end = map[string]string{"[": "]", "{": "}"}[mode]
			if p.accept(end) {
				p.expect(")")
				return l
			}
		}
		x := &param{line: p.t().line, named: mode == "{", optional: mode == "["}
		if x.named && p.isKw("required") {
			p.i++
			x.required = true
		}
		x.typ = p.typ()
		if p.t().k == tIdent && !reserved[p.t().s] {
			x.name = p.ident()
		}
		l = append(l, x)
		if !p.accept(",") && !p.is(end) {
			p.fail("expected ',' or '" + end + "' before " + p.show())
		}
	}
	if mode != "" {
		p.expect(")")
	}
	return l
}

// tryType tells whether a type stands at the current position and, if so, is followed by an identifier
// (and so starts a declaration).
func (p *parser) declAhead() bool {
	if p.async && p.isKw("await") {
		return false
	}
	save := p.i
	defer func() { p.i = save }()
	ok := p.attempt(func() { p.typ() })
	if !ok {
		return false
	}
	return p.t().k == tIdent && !reserved[p.t().s] && !(p.isKw("is") || p.isKw("as") && p.peek(1).k == tIdent)
}

func (p *parser) attempt(f func()) (ok bool) {
	save := p.i
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(*SyntaxError); is {
				p.i = save
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

var operators = map[string]bool{"==": true, "<": true, ">": true, "<=": true, ">=": true, "+": true, "-": true, "*": true, "/": true, "%": true, "~/": true, "[": true, "|": true, "&": true, "^": true, "<<": true, "~": true}

func (p *parser) memberDecl(class string, in bool) []any {
	line := p.t().line
	var static, final, konst, late, factory, external bool
	for {
		if p.t().k != tIdent || p.peek(1).k == tPunct && p.peek(1).s != "<" && p.peek(1).s != "@" {
			break
		}
		switch p.t().s {
		case "static":
			if !in {
				p.fail("'static' outside of a class")
			}
			static = true
		case "final":
			final = true
		case "const":
			konst = true
		case "late":
			late = true
		case "external":
			external = true
		case "covariant":
		case "factory":
			factory = true
		default:
			goto done
		}
		p.i++
	}
done:
	f := &funcDecl{line: line, static: static, factory: factory, konst: konst, external: external}
	// constructors
	if in && p.isKw(class) && (p.peek(1).s == "(" || p.peek(1).s == "." && p.peek(2).k == tIdent && p.peek(3).s == "(") && p.peek(1).k == tPunct {
		p.i++
		if p.accept(".") {
			f.name = p.ident()
		}
		f.ctor = !factory
		f.params = p.params()
		p.ctorTail(f)
		return []any{f}
	}
	if factory {
		p.fail("expected the name of the class after 'factory'")
	}
	var t *typeX
	if p.isKw("var") {
		p.i++
	} else {
		isAccessor := func() bool {
			return (p.isKw("get") || p.isKw("set")) && p.peek(1).k == tIdent && !reserved[p.peek(1).s]
		}
		named := p.t().k == tIdent && !p.isKw("Function") && !reserved[p.t().s] && p.peek(1).k == tPunct && (p.peek(1).s == "(" || p.peek(1).s == "=" || p.peek(1).s == ";" || p.peek(1).s == ",")
		if !named && !isAccessor() && !(p.isKw("operator") && p.peek(1).k == tPunct && operators[p.peek(1).s]) {
			t = p.typ()
		}
		if p.isKw("get") && p.peek(1).k == tIdent {
			p.i++
			f.getter = true
			f.ret = t
			f.name = p.ident()
			p.funcTail(f)
			return []any{f}
		}
		if p.isKw("set") && p.peek(1).k == tIdent && p.peek(2).s == "(" {
			p.i++
			f.setter = true
			f.ret = t
			f.name = p.ident()
			f.params = p.params()
			if len(f.params) != 1 || f.params[0].named || f.params[0].optional {
				p.fail("a setter needs exactly one parameter")
			}
			p.funcTail(f)
			return []any{f}
		}
		if p.isKw("operator") && p.peek(1).k == tPunct && operators[p.peek(1).s] {
			p.i++
			f.operator = true
			f.name = p.t().s
			f.ret = t
			p.i++
			if f.name == "[" {
				p.expect("]")
				f.name = "[]"
				if p.accept("=") {
					f.name = "[]="
				}
			}
			if f.name == ">" && p.is("=") {
				p.i++
				f.name = ">="
			}
			f.params = p.params()
			p.funcTail(f)
			return []any{f}
		}
	}
	nameLine := p.t().line
	name := p.ident()
	if p.is("(") || p.is("<") && !final && !konst {
		f.name, f.ret = name, t
		f.tparams = p.typeParams()
		f.params = p.params()
		p.funcTail(f)
		return []any{f}
	}
	var out []any
	for {
		v := &varDecl{name: name, typ: t, static: static, final: final, konst: konst, late: late, line: nameLine}
		if p.accept("=") {
			v.init = p.expr()
		}
		if t == nil && !final && !konst && v.init == nil && p.toks[p.i-1].s != name {
			p.fail("a variable needs 'var', 'final', 'const' or a type")
		}
		out = append(out, v)
		if !p.accept(",") {
			break
		}
		nameLine = p.t().line
		name = p.ident()
	}
	p.expect(";")
	return out
}

func (p *parser) ctorTail(f *funcDecl) {
	if f.factory && p.accept("=") {
		p.fail("this reader of Dart does not know redirecting factories")
	}
	if p.accept(":") {
		for {
			switch {
			case p.isKw("super"):
				p.i++
				c := &call{line: p.t().line, fn: &superE{}}
				if p.accept(".") {
					c.fn = &member{x: &superE{}, name: p.ident()}
				}
				c.args = p.args()
				f.superArg = c
			case p.isKw("this") && p.peek(1).s == "(" || p.isKw("this") && p.peek(1).s == "." && p.peek(3).s == "(":
				p.i++
				c := &call{line: p.t().line, fn: &this{}}
				if p.accept(".") {
					c.fn = &member{x: &this{}, name: p.ident()}
				}
				c.args = p.args()
				f.redirect = c
			case p.isKw("assert"):
				p.i++
				p.args()
			default:
				if p.acceptKw("this") {
					p.expect(".")
				}
				n := p.ident()
				p.expect("=")
				f.inits = append(f.inits, initializer{n, p.expr()})
			}
			if !p.accept(",") {
				break
			}
		}
	}
	if p.accept(";") {
		return
	}
	p.funcTail(f)
}

func (p *parser) funcTail(f *funcDecl) {
	if p.accept(";") {
		return
	}
	save := p.async
	defer func() { p.async = save }()
	f.async = p.acceptKw("async")
	p.async = f.async
	if p.accept("=>") {
		f.arrow = p.expr()
		p.expect(";")
		return
	}
	f.body = p.block()
}

func (p *parser) params() []*param {
	p.expect("(")
	var l []*param
	end := ")"
	mode := ""
	for !p.accept(end) {
		if mode == "" && (p.is("[") || p.is("{")) {
			mode = p.t().s
			p.i++
			end = map[string]string{"[": "]", "{": "}"}[mode]
			if p.is(end) {
				p.fail("expected an identifier before '" + end + "'")
			}
		}
		p.annotations()
		x := &param{line: p.t().line, named: mode == "{", optional: mode == "["}
		if x.named && p.isKw("required") && p.peek(1).k == tIdent {
			p.i++
			x.required = true
		}
		x.cov = p.acceptKw("covariant")
		if p.isKw("final") && p.peek(1).k == tIdent {
			p.i++
		} else if p.isKw("var") {
			p.i++
		}
		if !(p.isKw("this") || p.isKw("super")) && p.declAhead() || p.isKw("void") {
			x.typ = p.typ()
		} else if p.declThis() {
			x.typ = p.typ()
		}
		if (p.isKw("this") || p.isKw("super")) && p.peek(1).s == "." {
			x.this = p.isKw("this")
			x.super = p.isKw("super")
			p.i += 2
		}
		x.name = p.ident()
		if p.is("(") { // old function type parameter
			sig := &funcSig{ret: x.typ, params: p.fnTypeParams()}
			x.typ = &typeX{fn: sig, line: x.line}
			if p.accept("?") {
				x.typ.null = true
			}
		}
		if p.accept("=") || x.named && p.accept(":") {
			x.def = p.expr()
		}
		l = append(l, x)
		if !p.accept(",") && !p.is(end) {
			p.fail("expected ',' or '" + end + "' before " + p.show())
		}
	}
	if mode != "" {
		p.expect(")")
	}
	return l
}

// declThis: "Type this.x"
func (p *parser) declThis() bool {
	save := p.i
	defer func() { p.i = save }()
	if p.isKw("this") || p.isKw("super") {
		return false
	}
	return p.attempt(func() { p.typ() }) && (p.isKw("this") || p.isKw("super"))
}

// ---- statements

func (p *parser) block() stmt {
	p.expect("{")
	b := &block{}
	for !p.accept("}") {
		if p.t().k == tEOF {
			p.fail("expected '}' before the end of the file")
		}
		b.list = append(b.list, p.stmt())
	}
	return b
}

func (p *parser) stmt() stmt {
	line := p.t().line
	if p.is("{") {
		return p.block()
	}
	if p.accept(";") {
		return &emptyS{}
	}
	if p.t().k == tIdent {
		switch p.t().s {
		case "if":
			p.i++
			p.expect("(")
			c := p.expr()
			p.expect(")")
			s := &ifS{c: c, then: p.stmt()}
			if p.acceptKw("else") {
				s.els = p.stmt()
			}
			return s
		case "for":
			return p.forStmt()
		case "while":
			p.i++
			p.expect("(")
			c := p.expr()
			p.expect(")")
			return &whileS{c: c, body: p.stmt()}
		case "do":
			p.i++
			b := p.stmt()
			if !p.acceptKw("while") {
				p.fail("expected 'while' before " + p.show())
			}
			p.expect("(")
			c := p.expr()
			p.expect(")")
			p.expect(";")
			return &whileS{c: c, body: b, do: true}
		case "switch":
			return p.switchStmt()
		case "return":
			p.i++
			r := &returnS{line: line}
			if !p.is(";") {
				r.e = p.expr()
			}
			p.expect(";")
			return r
		case "break":
			p.i++
			p.expect(";")
			return &breakS{}
		case "continue":
			p.i++
			p.expect(";")
			return &continueS{}
		case "rethrow":
			p.i++
			p.expect(";")
			return &rethrowS{}
		case "assert":
			p.i++
			p.args()
			p.expect(";")
			return &emptyS{}
		case "try":
			return p.tryStmt()
		case "var", "final", "late", "const":
			if p.t().s != "late" && p.t().s != "const" || p.peek(1).k == tIdent {
				if !(p.t().s == "const" && p.constExprAhead()) {
					return p.localVar()
				}
			}
		}
		if p.localFuncAhead() {
			f := &funcDecl{line: line}
			if !(p.peek(1).s == "(" || p.peek(1).s == "<") || p.declAhead() {
				f.ret = p.typ()
			}
			f.name = p.ident()
			f.tparams = p.typeParams()
			f.params = p.params()
			p.funcTail(f)
			return &funcS{f}
		}
		if p.declAhead() {
			return p.localVar()
		}
	}
	e := p.expr()
	p.expect(";")
	return &exprS{e}
}

func (p *parser) constExprAhead() bool {
	// "const Foo(...)" or "const [..." as an expression statement
	n := p.peek(1)
	if n.k == tPunct {
		return true
	}
	return n.k == tIdent && (p.peek(2).s == "(" || p.peek(2).s == ".")
}

// localFuncAhead: [type] name ( params ) { or =>
func (p *parser) localFuncAhead() bool {
	save := p.i
	defer func() { p.i = save }()
	if reserved[p.t().s] && !p.isKw("void") {
		return false
	}
	return p.attempt(func() {
		if p.declAhead() || p.isKw("void") {
			p.typ()
		}
		p.ident()
		if p.is("<") {
			p.typeParams()
		}
		p.params()
		p.acceptKw("async")
		if !p.is("{") && !p.is("=>") {
			p.fail("no")
		}
	})
}

func (p *parser) localVar() stmt {
	line := p.t().line
	v := &varDecl{line: line}
	for {
		if p.isKw("late") {
			v.late = true
		} else if p.isKw("final") {
			v.final = true
		} else if p.isKw("const") {
			v.konst = true
		} else {
			break
		}
		p.i++
	}
	if p.isKw("var") {
		p.i++
	} else if p.declAhead() {
		v.typ = p.typ()
	} else if !v.final && !v.konst && !v.late {
		p.fail("expected a type before " + p.show())
	}
	v.name = p.ident()
	if p.accept("=") {
		v.init = p.expr()
	}
	if p.is(",") {
		b := &declList{list: []stmt{&varS{v}}}
		for p.accept(",") {
			w := *v
			w.init = nil
			w.line = p.t().line
			w.name = p.ident()
			if p.accept("=") {
				w.init = p.expr()
			}
			b.list = append(b.list, &varS{&w})
		}
		p.expect(";")
		return b
	}
	p.expect(";")
	return &varS{v}
}

type declList struct{ list []stmt }

func (p *parser) forStmt() stmt {
	line := p.t().line
	p.i++
	p.expect("(")
	save := p.i
	// for (var x in e), for (final T x in e), for (T x in e), for (x in e)
	decl := false
	var t *typeX
	ok := p.attempt(func() {
		if p.isKw("var") || p.isKw("final") {
			decl = true
			fin := p.isKw("final")
			p.i++
			if fin && p.declAhead() {
				t = p.typ()
			}
		} else if p.declAhead() {
			decl = true
			t = p.typ()
		}
		p.ident()
		if !p.isKw("in") {
			p.fail("no")
		}
	})
	if ok {
		name := p.toks[p.i-1].s
		p.i++
		e := p.expr()
		p.expect(")")
		return &forInS{typ: t, name: name, decl: decl, in: e, body: p.stmt(), line: line}
	}
	p.i = save
	f := &forS{}
	if !p.accept(";") {
		if p.isKw("var") || p.isKw("final") || p.declAhead() {
			f.init = p.localVar()
		} else {
			e := p.expr()
			p.expect(";")
			f.init = &exprS{e}
		}
	}
	if !p.is(";") {
		f.c = p.expr()
	}
	p.expect(";")
	for !p.is(")") {
		f.post = append(f.post, p.expr())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	f.body = p.stmt()
	return f
}

func (p *parser) switchStmt() stmt {
	p.i++
	p.expect("(")
	s := &switchS{x: p.expr()}
	p.expect(")")
	p.expect("{")
	for !p.accept("}") {
		c := switchCase{line: p.t().line}
		for p.isKw("case") || p.isKw("default") {
			if p.acceptKw("case") {
				c.vals = append(c.vals, p.expr())
			} else {
				p.i++
				c.def = true
			}
			p.expect(":")
		}
		if len(c.vals) == 0 && !c.def {
			p.fail("expected 'case' or 'default' before " + p.show())
		}
		for !p.is("}") && !p.isKw("case") && !p.isKw("default") {
			c.body = append(c.body, p.stmt())
		}
		s.cases = append(s.cases, c)
	}
	return s
}

func (p *parser) tryStmt() stmt {
	p.i++
	s := &tryS{body: p.block()}
	for p.isKw("catch") || p.isKw("on") {
		c := catchC{}
		if p.acceptKw("on") {
			c.on = p.typ()
		}
		if p.acceptKw("catch") {
			p.expect("(")
			c.name = p.ident()
			if p.accept(",") {
				c.st = p.ident()
			}
			p.expect(")")
		}
		c.body = p.block()
		s.catches = append(s.catches, c)
	}
	if p.acceptKw("finally") {
		s.finally = p.block()
	}
	if len(s.catches) == 0 && s.finally == nil {
		p.fail("'try' without 'catch' or 'finally'")
	}
	return s
}

// ---- expressions

var assignOps = map[string]bool{"=": true, "+=": true, "-=": true, "*=": true, "/=": true, "~/=": true, "%=": true, "&=": true, "|=": true, "^=": true, "<<=": true, ">>=": true, "??=": true}

func (p *parser) expr() expr {
	line := p.t().line
	if p.isKw("throw") {
		p.i++
		return &throwE{p.expr(), line}
	}
	l := p.conditional()
	if p.t().k == tPunct && assignOps[p.t().s] {
		op := p.t().s
		switch l.(type) {
		case *id, *member, *index:
		default:
			p.fail("this can't be assigned to")
		}
		p.i++
		return &assign{op: op, l: l, r: p.expr(), line: line}
	}
	if p.is("..") || p.is("?..") {
		c := &cascade{x: l, na: p.is("?..")}
		for p.accept("..") || p.accept("?..") {
			var x expr
			if p.accept("[") {
				x = &index{x: &cascadeTarget{}, i: p.expr(), line: line}
				p.expect("]")
			} else {
				x = &member{x: &cascadeTarget{}, name: p.ident(), line: line}
			}
			x = p.selectors(x)
			if p.t().k == tPunct && assignOps[p.t().s] {
				op := p.t().s
				p.i++
				x = &assign{op: op, l: x, r: p.conditional(), line: line}
			}
			c.ops = append(c.ops, x)
		}
		return c
	}
	return l
}

func (p *parser) conditional() expr {
	c := p.binary(0)
	if p.accept("?") {
		a := p.exprNoCascade()
		p.expect(":")
		b := p.exprNoCascade()
		return &cond{c, a, b}
	}
	return c
}

func (p *parser) exprNoCascade() expr {
	line := p.t().line
	if p.isKw("throw") {
		p.i++
		return &throwE{p.exprNoCascade(), line}
	}
	l := p.conditional()
	if p.t().k == tPunct && assignOps[p.t().s] {
		op := p.t().s
		p.i++
		return &assign{op: op, l: l, r: p.exprNoCascade(), line: line}
	}
	return l
}

var prec = map[string]int{"??": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 5, ">": 5, "<=": 5, ">=": 5, "|": 6, "^": 7, "&": 8, "<<": 9, ">>": 9, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11, "~/": 11}

func (p *parser) binOp() (string, int, int) {
	if p.t().k != tPunct {
		return "", 0, 0
	}
	op := p.t().s
	n := 1
	if op == ">" && p.peek(1).s == ">" && p.peek(1).pos == p.t().end {
		op, n = ">>", 2
	} else if op == ">" && p.peek(1).s == "=" && p.peek(1).pos == p.t().end {
		op, n = ">=", 2
	}
	return op, prec[op], n
}

func (p *parser) binary(level int) expr {
	l := p.unary()
	used := 0
	for {
		line := p.t().line
		if p.isKw("is") || p.isKw("as") {
			if level > 5 {
				return l
			}
			if p.acceptKw("as") {
				l = &asE{x: l, t: p.typ(), line: line}
			} else {
				p.i++
				not := p.accept("!")
				// "x is T ? a : b": the question mark does not belong to the type
				l = &isE{x: l, t: p.typNoNull(), not: not, line: line}
			}
			continue
		}
		op, pr, n := p.binOp()
		if pr == 0 || pr < level {
			return l
		}
		if (pr == 4 || pr == 5) && used == pr {
			p.fail("'" + op + "' can't be chained")
		}
		used = pr
		p.i += n
		r := p.binary(pr + 1)
		l = &binary{op, l, r, line}
	}
}

// typNoNull reads a type in front of an operator: a "?" that starts a conditional expression is left.
func (p *parser) typNoNull() *typeX {
	t := p.typ()
	if t.null && p.toks[p.i-1].s == "?" {
		// a type can't be followed by the start of an expression, so the mark was an operator
		n := p.t()
		starts := n.k == tIdent && n.s != "is" && n.s != "as" || n.k == tInt || n.k == tDouble || n.k == tString || n.k == tPunct && strings.Contains("( [ { ! - ~ <", n.s)
		if starts {
			p.i--
			t.null = false
		}
	}
	return t
}

func (p *parser) unary() expr {
	line := p.t().line
	for _, op := range []string{"!", "-", "~", "++", "--"} {
		if p.is(op) {
			p.i++
			if op == "-" && (p.t().k == tInt || p.t().k == tDouble) && p.t().pos == p.toks[p.i-1].end {
				return p.selectorsAfter(p.numberLit("-"))
			}
			return &unary{op, p.unary(), line}
		}
	}
	if p.isKw("await") && p.async {
		p.i++
		return &await{p.unary()}
	}
	x := p.selectors(p.primary())
	if p.is("++") || p.is("--") {
		op := p.t().s
		p.i++
		return &postfix{op, x, line}
	}
	return x
}

func (p *parser) selectorsAfter(e expr) expr { return p.selectors(e) }

func (p *parser) numberLit(sign string) expr {
	t := p.t()
	p.i++
	if t.k == tDouble {
		f, err := strconv.ParseFloat(sign+t.s, 64)
		if err != nil && !math.IsInf(f, 0) {
			p.fail("wrong number")
		}
		return &lit{v: f, line: t.line}
	}
	if strings.HasPrefix(t.s, "0x") || strings.HasPrefix(t.s, "0X") {
		u, err := strconv.ParseUint(t.s[2:], 16, 64)
		if err != nil {
			p.fail("the number " + t.s + " can't be represented in 64 bits")
		}
		v := int64(u)
		if sign != "" {
			v = -v
		}
		return &lit{v: v, isInt: true, line: t.line}
	}
	v, err := strconv.ParseInt(sign+t.s, 10, 64)
	if err != nil {
		p.fail("the number " + sign + t.s + " can't be represented in 64 bits")
	}
	return &lit{v: v, isInt: true, line: t.line}
}

func (p *parser) selectors(x expr) expr {
	for {
		line := p.t().line
		switch {
		case p.is("."):
			p.i++
			x = &member{x: x, name: p.memberName(), line: line}
		case p.is("?."):
			p.i++
			if p.is("[") {
				p.fail("'?.[' is not Dart")
			}
			x = &member{x: x, name: p.memberName(), na: true, line: line}
		case p.is("["):
			p.i++
			i := p.expr()
			p.expect("]")
			x = &index{x: x, i: i, line: line}
		case p.is("?") && p.peek(1).s == "[" && p.peek(1).pos == p.t().end && p.nullIndexAhead():
			p.i += 2
			i := p.expr()
			p.expect("]")
			x = &index{x: x, i: i, na: true, line: line}
		case p.is("("):
			x = &call{fn: x, args: p.args(), line: line}
		case p.is("<") && p.typeArgsAhead():
			p.i++
			targs := p.typeList()
			p.expect(">")
			if p.is("(") {
				x = &call{fn: x, targs: targs, args: p.args(), line: line}
			} else { // Type<args>.name
				n, ok := x.(*id)
				if !ok {
					p.fail("type arguments without a call")
				}
				x = &typeE{t: &typeX{name: n.name, args: targs, line: line}, line: line}
			}
		case p.is("!") && p.bangAhead():
			p.i++
			x = &bang{x, line}
		default:
			return x
		}
	}
}

func (p *parser) memberName() string { return p.ident() }

func (p *parser) nullIndexAhead() bool {
	// "a?[0]" and not "a ? [0] : b"
	save := p.i
	defer func() { p.i = save }()
	return p.attempt(func() {
		p.i += 2
		p.expr()
		p.expect("]")
		if p.is(":") {
			p.fail("no")
		}
	})
}

func (p *parser) bangAhead() bool {
	// "x!" is followed by something that can't start an operand; "x != y" is another token already
	return true
}

func (p *parser) typeArgsAhead() bool {
	save := p.i
	defer func() { p.i = save }()
	return p.attempt(func() {
		p.i++
		p.typeList()
		p.expect(">")
		n := p.t()
		if !(n.k == tPunct && (n.s == "(" || n.s == ".")) {
			p.fail("no")
		}
	})
}

func (p *parser) args() []arg {
	p.expect("(")
	var l []arg
	for !p.accept(")") {
		a := arg{}
		if p.t().k == tIdent && p.peek(1).k == tPunct && p.peek(1).s == ":" && !reserved[p.t().s] {
			a.name = p.ident()
			p.i++
		}
		a.e = p.expr()
		l = append(l, a)
		if !p.accept(",") && !p.is(")") {
			p.fail("expected ',' or ')' before " + p.show())
		}
	}
	return l
}

func (p *parser) closureAhead() bool {
	if !p.is("(") {
		return false
	}
	depth := 0
	for j := p.i; j < len(p.toks); j++ {
		t := p.toks[j]
		if t.k != tPunct {
			continue
		}
		switch t.s {
		case "(":
			depth++
		case ")":
			depth--
			if depth == 0 {
				n := p.toks[min(j+1, len(p.toks)-1)]
				return n.k == tPunct && (n.s == "=>" || n.s == "{") || n.k == tIdent && n.s == "async"
			}
		}
	}
	return false
}

func (p *parser) primary() expr {
	t := p.t()
	switch t.k {
	case tInt, tDouble:
		return p.numberLit("")
	case tString:
		s := &str{line: t.line}
		for p.t().k == tString {
			for _, x := range p.t().parts {
				if !x.code {
					s.parts = append(s.parts, x.text)
					continue
				}
				sub := &parser{file: p.file, toks: lex(x.expr, x.line), async: p.async}
				e := sub.expr()
				if sub.t().k != tEOF {
					sub.fail("unexpected " + sub.show() + " in an interpolation")
				}
				s.parts = append(s.parts, e)
			}
			p.i++
		}
		return s
	case tPunct:
		switch t.s {
		case "(":
			if p.closureAhead() {
				f := &funcDecl{line: t.line}
				f.params = p.params()
				p.closureBody(f)
				return &funcE{f}
			}
			p.i++
			e := p.expr()
			p.expect(")")
			return &paren{e}
		case "[", "{", "<":
			return p.collection()
		}
	case tIdent:
		switch t.s {
		case "null":
			p.i++
			return &lit{v: nil, line: t.line}
		case "true", "false":
			p.i++
			return &lit{v: t.s == "true", line: t.line}
		case "this":
			p.i++
			return &this{t.line}
		case "super":
			p.i++
			return &superE{t.line}
		case "const", "new":
			p.i++
			if p.is("[") || p.is("{") || p.is("<") {
				return p.collection()
			}
			e := p.selectors(p.primary())
			if _, ok := e.(*call); !ok {
				p.fail("expected a constructor call after '" + t.s + "'")
			}
			return e
		}
		return &id{p.ident(), t.line}
	}
	p.fail("expected an expression before " + p.show())
	return nil
}

func (p *parser) closureBody(f *funcDecl) {
	save := p.async
	defer func() { p.async = save }()
	f.async = p.acceptKw("async")
	p.async = f.async
	if p.accept("=>") {
		f.arrow = p.expr()
		return
	}
	f.body = p.block()
}

func (p *parser) collection() expr {
	line := p.t().line
	var targs []*typeX
	if p.accept("<") {
		targs = p.typeList()
		p.expect(">")
	}
	if p.accept("[") {
		l := &listE{line: line}
		if len(targs) > 1 {
			p.fail("a list has one type argument")
		}
		if len(targs) == 1 {
			l.t = targs[0]
		}
		for !p.accept("]") {
			l.elems = append(l.elems, p.element(false))
			if !p.accept(",") && !p.is("]") {
				p.fail("expected ',' or ']' before " + p.show())
			}
		}
		return l
	}
	p.expect("{")
	m := &mapE{line: line}
	switch len(targs) {
	case 1:
		m.typed, m.isSet, m.k = true, true, targs[0]
	case 2:
		m.typed, m.k, m.v = true, targs[0], targs[1]
	}
	pairs := 0
	for !p.accept("}") {
		e := p.element(true)
		if e.isPair {
			pairs++
		}
		m.elems = append(m.elems, e)
		if !p.accept(",") && !p.is("}") {
			p.fail("expected ',' or '}' before " + p.show())
		}
	}
	if !m.typed && len(m.elems) > 0 && pairs == 0 && m.elems[0].kind == "" {
		m.isSet = true
	}
	if m.isSet && pairs > 0 || !m.isSet && pairs < len(m.elems) && func() bool {
		for _, e := range m.elems {
			if e.kind == "" && !e.isPair {
				return true
			}
		}
		return false
	}() {
		p.fail("a set or a map with wrong elements")
	}
	return m
}

func (p *parser) element(pair bool) elem {
	switch {
	case p.is("...") || p.is("...?"):
		null := p.is("...?")
		p.i++
		return elem{kind: "spread", val: p.expr(), null: null}
	case p.isKw("if"):
		p.i++
		p.expect("(")
		c := p.expr()
		p.expect(")")
		th := p.element(pair)
		e := elem{kind: "if", cond: c, then: &th, isPair: th.isPair}
		if p.acceptKw("else") {
			el := p.element(pair)
			e.els = &el
		}
		return e
	case p.isKw("for"):
		p.i++
		p.expect("(")
		if p.isKw("var") || p.isKw("final") {
			p.i++
		}
		var t *typeX
		if p.declAhead() {
			t = p.typ()
		}
		name := p.ident()
		if !p.acceptKw("in") {
			p.fail("expected 'in' before " + p.show())
		}
		in := p.expr()
		p.expect(")")
		th := p.element(pair)
		return elem{kind: "for", name: name, typ: t, in: in, then: &th, isPair: th.isPair}
	}
	e := elem{val: p.expr()}
	if pair && p.accept(":") {
		e.key = e.val
		e.val = p.expr()
		e.isPair = true
	}
	return e
}

var _ = fmt.Sprint
