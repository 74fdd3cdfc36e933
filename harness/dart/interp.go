package dart

import (
	"fmt"
	"math"
	"sort"
)

// The interpreter runs a checked program. It gives the values that the Dart VM would give: types are
// known at run time, what is dynamic is checked where it gets a type, static variables are made when
// they are first read. What is asynchronous runs at once.

// List is a list, or with Iter set something that can only be iterated.
type List struct {
	Elem  *rtype
	L     []any
	Iter  bool
	Fixed bool
	Bytes bool // Uint8List
	Set   bool
}

// Map keeps the order of insertion.
type Map struct {
	K, V   *rtype
	Keys   []any
	Values []any
}

// Inst is an instance of a class that is written in Dart.
type Inst struct {
	c    *class
	args []*rtype
	f    map[*varDecl]any
}

// Func is a function value.
type Func struct {
	decl   *funcDecl
	env    *env
	top    bool // of a library or static
	native func(a []any, named map[string]any) any
}

// Future is a finished future.
type Future struct {
	Val  any
	Err  *Thrown
	Elem *rtype
}

// TypeV is a type as a value.
type TypeV struct{ t *rtype }

// Thrown is an exception.
type Thrown struct {
	Class string
	Msg   string
	Val   any
	at    string
}

func (t *Thrown) Error() string {
	s := t.Class
	if t.Msg != "" {
		s += ": " + t.Msg
	}
	if t.at != "" {
		s += " (" + t.at + ")"
	}
	return s
}

type (
	returned   struct{ v any }
	breakSig   struct{}
	contSig    struct{}
	unfinished struct{}
)

type env struct {
	up    *env
	vars  map[string]*cell
	this  any
	cls   *class
	lib   *library
	binds map[string]*rtype
	async bool
	ret   *rtype
}

type cell struct {
	v any
	t *rtype
}

func (e *env) child() *env {
	n := *e
	n.up, n.vars = e, nil
	return &n
}

func (e *env) set(name string, v any, t *rtype) {
	if e.vars == nil {
		e.vars = map[string]*cell{}
	}
	e.vars[name] = &cell{v, t}
}

func (e *env) find(name string) *cell {
	for x := e; x != nil; x = x.up {
		if c := x.vars[name]; c != nil {
			return c
		}
	}
	return nil
}

// Machine runs a program.
type Machine struct {
	p      *Program
	static map[*varDecl]*cell
	steps  int
	depth  int
	at     string
}

// NewMachine starts a program with no static variable made yet.
func NewMachine(p *Program) *Machine {
	return &Machine{p: p, static: map[*varDecl]*cell{}}
}

func (m *Machine) throw(class, format string, args ...any) {
	panic(&Thrown{Class: class, Msg: fmt.Sprintf(format, args...), at: m.at})
}

func (m *Machine) mark(e *env, line int) {
	if e != nil && e.lib != nil && !e.lib.stub {
		m.at = fmt.Sprintf("%s:%d", e.lib.uri, line)
	}
}

func (m *Machine) core(name string, args ...*rtype) *rtype {
	return &rtype{c: m.p.world.class(name), args: args}
}

func libClass(m *Machine, uri, name string) *class {
	c, _ := m.p.world.libs[uri].decls[name].(*class)
	return c
}

// typeOf is the type of a value at run time.
func (m *Machine) typeOf(v any) *rtype {
	switch v := v.(type) {
	case nil:
		return tNull
	case bool:
		return m.core("bool")
	case int64:
		return m.core("int")
	case float64:
		return m.core("double")
	case string:
		return m.core("String")
	case *List:
		switch {
		case v.Bytes:
			return &rtype{c: libClass(m, "dart:typed_data", "Uint8List")}
		case v.Iter:
			return m.core("Iterable", v.Elem)
		case v.Set:
			return m.core("Set", v.Elem)
		}
		return m.core("List", v.Elem)
	case *Map:
		return m.core("Map", v.K, v.V)
	case *mapEntry:
		return m.core("MapEntry", v.kt, v.vt)
	case *Inst:
		return &rtype{c: v.c, args: v.args}
	case *Func:
		if v.decl != nil && v.decl.sig != nil {
			return &rtype{fn: v.decl.sig}
		}
		return m.core("Function")
	case *Future:
		return m.core("Future", v.Elem)
	case *TypeV:
		return m.core("Type")
	case Int64:
		return &rtype{c: libClass(m, "package:fixnum/fixnum.dart", "Int64")}
	case *Decimal:
		return &rtype{c: libClass(m, "package:decimal/decimal.dart", "Decimal")}
	case DateTime:
		return m.core("DateTime")
	case *regExp:
		return m.core("RegExp")
	case *byteData:
		return &rtype{c: libClass(m, "dart:typed_data", "ByteData")}
	case *byteBuffer:
		return &rtype{c: libClass(m, "dart:typed_data", "ByteBuffer")}
	case jsonCodec:
		return &rtype{c: libClass(m, "dart:convert", "JsonCodec")}
	case utf8Codec:
		return &rtype{c: libClass(m, "dart:convert", "Utf8Codec")}
	case *Thrown:
		if c, ok := m.p.world.names[v.Class]; ok {
			return &rtype{c: c}
		}
		return m.core("Exception")
	}
	panic(fmt.Sprintf("dart: typeOf %T", v))
}

// is tells whether a value has a type.
func (m *Machine) is(v any, t *rtype) bool {
	switch {
	case t.isTop() || t.tp != "":
		return true
	case v == nil:
		return t.nullable()
	case t.fn != nil:
		_, ok := v.(*Func)
		return ok
	case t.is("FutureOr"):
		return true
	}
	if f, ok := v.(*Future); ok && t.is("Future") && f.Elem == nil {
		return true
	}
	return subtype(m.typeOf(v), t)
}

func (m *Machine) want(v any, t *rtype, e *env) any {
	if e != nil {
		t = subst(t, e.binds)
	}
	if !m.is(v, t) {
		m.throw("TypeError", "a value of type '%s' isn't of type '%s'", m.typeOf(v), t)
	}
	return v
}

// ---- declarations

func (m *Machine) staticVar(v *varDecl) *cell {
	if c := m.static[v]; c != nil {
		if _, ok := c.v.(unfinished); ok {
			m.throw("StackOverflowError", "the initializer of '%s' needs itself", v.name)
		}
		return c
	}
	c := &cell{v: unfinished{}, t: m.p.varType(v)}
	m.static[v] = c
	var x any
	if v.init != nil {
		e := &env{cls: v.owner, lib: v.lib}
		x = m.want(m.eval(v.init, e), c.t, e)
	}
	c.v = x
	return c
}

func (m *Machine) create(k *class, name string, targs []*rtype, a []any, named map[string]any) any {
	f := k.ctors[name]
	if f == nil {
		m.throw("NoSuchMethodError", "'%s' has no constructor '%s'", k.name, name)
	}
	binds := map[string]*rtype{}
	for i, n := range k.decl.tparams {
		t := tDynamic
		if i < len(targs) {
			t = targs[i]
		}
		binds[n] = t
	}
	if f.external {
		m.checkArgs(f, m.p.sigOf(f), a, named, binds)
		return m.native(k.name+"."+name, nil, a, named, targs)
	}
	if f.factory {
		return m.invoke(f, &env{cls: k, lib: k.lib, binds: binds}, a, named)
	}
	o := &Inst{c: k, f: map[*varDecl]any{}}
	for _, n := range k.decl.tparams {
		o.args = append(o.args, binds[n])
	}
	m.construct(o, k, f, binds, a, named)
	return o
}

func (m *Machine) construct(o *Inst, k *class, f *funcDecl, binds map[string]*rtype, a []any, named map[string]any) {
	e := &env{cls: k, lib: k.lib, binds: binds}
	e = e.child()
	m.bind(f, e, a, named)
	if f.redirect != nil {
		name := ""
		if x, ok := f.redirect.fn.(*member); ok {
			name = x.name
		}
		ra, rn := m.args(f.redirect, e)
		m.construct(o, k, k.ctors[name], binds, ra, rn)
		return
	}
	for _, v := range k.fields {
		var x any
		if v.init != nil {
			x = m.want(m.eval(v.init, &env{cls: k, lib: k.lib, binds: binds}), m.p.varType(v), e)
		}
		o.f[v] = x
	}
	for _, x := range f.params {
		if x.this {
			v := k.vars[x.name]
			o.f[v] = m.want(e.find(x.name).v, m.p.varType(v), e)
		}
	}
	for _, i := range f.inits {
		v := k.vars[i.name]
		o.f[v] = m.want(m.eval(i.e, e), m.p.varType(v), e)
	}
	if k.super != nil && k.super.c != nil {
		sc := k.super.c
		sb := bindings(subst(k.super, binds))
		var sa []any
		var sn map[string]any
		name := ""
		if f.superArg != nil {
			if x, ok := f.superArg.fn.(*member); ok {
				name = x.name
			}
			sa, sn = m.args(f.superArg, e)
		}
		if sf := sc.ctors[name]; sf != nil && sf.ctor {
			m.construct(o, sc, sf, sb, sa, sn)
		}
	}
	if f.body != nil {
		b := &env{cls: k, lib: k.lib, binds: binds, this: o}
		b = b.child()
		for _, x := range f.params {
			if !x.this {
				c := e.find(x.name)
				b.set(x.name, c.v, c.t)
			}
		}
		m.runBody(f, b)
	}
}

func (m *Machine) checkArgs(f *funcDecl, s *rsig, a []any, named map[string]any, binds map[string]*rtype) {
	pos := positional(s.params)
	min := 0
	for _, p := range pos {
		if !p.optional {
			min++
		}
	}
	if len(a) > len(pos) || len(a) < min {
		m.throw("NoSuchMethodError", "'%s' is called with %d arguments", f.name, len(a))
	}
	for i := range a {
		t := subst(pos[i].t, binds)
		if !m.is(a[i], t) {
			m.throw("TypeError", "a value of type '%s' isn't of type '%s' of the parameter '%s' of '%s'", m.typeOf(a[i]), t, pos[i].name, f.name)
		}
	}
	for n, v := range named {
		p := namedParam(s.params, n)
		if p == nil {
			m.throw("NoSuchMethodError", "'%s' has no parameter '%s'", f.name, n)
		}
		t := subst(p.t, binds)
		if !m.is(v, t) {
			m.throw("TypeError", "a value of type '%s' isn't of type '%s' of the parameter '%s' of '%s'", m.typeOf(v), t, n, f.name)
		}
	}
	for _, p := range s.params {
		if p.named && p.required {
			if _, ok := named[p.name]; !ok {
				m.throw("NoSuchMethodError", "'%s' is called without '%s'", f.name, p.name)
			}
		}
	}
}

// bind puts the arguments of a call into e.
func (m *Machine) bind(f *funcDecl, e *env, a []any, named map[string]any) {
	s := f.sig
	if s == nil {
		s = m.p.sigOf(f)
	}
	m.checkArgs(f, s, a, named, e.binds)
	n := 0
	for i, x := range f.params {
		t := s.params[i].t
		var v any
		given := false
		if x.named {
			v, given = named[x.name]
		} else if n < len(a) {
			v, given = a[n], true
			n++
		} else {
			n++
		}
		if !given && x.def != nil {
			v = m.eval(x.def, &env{cls: e.cls, lib: e.lib, binds: e.binds})
		}
		e.set(x.name, v, t)
	}
}

func (m *Machine) invoke(f *funcDecl, e *env, a []any, named map[string]any) any {
	m.depth++
	if m.depth > 400 {
		m.throw("StackOverflowError", "")
	}
	defer func() { m.depth-- }()
	e = e.child()
	m.bind(f, e, a, named)
	return m.runBody(f, e)
}

func (m *Machine) runBody(f *funcDecl, e *env) (out any) {
	e.async = f.async
	var ret *rtype
	if f.sig != nil {
		ret = f.sig.ret
	}
	if f.ctor || f.setter {
		ret = nil
	}
	if f.async {
		elem := tDynamic
		if ret != nil && ret.c != nil && len(ret.args) == 1 {
			elem = subst(ret.args[0], e.binds)
		}
		fut := &Future{Elem: elem}
		func() {
			defer func() {
				if r := recover(); r != nil {
					t, ok := r.(*Thrown)
					if !ok {
						panic(r)
					}
					fut.Err = t
				}
			}()
			v := m.plainBody(f, e)
			if g, ok := v.(*Future); ok && f.arrow == nil {
				if g.Err != nil {
					panic(g.Err)
				}
				v = g.Val
			} else if ok {
				if g.Err != nil {
					panic(g.Err)
				}
				v = g.Val
			}
			if !elem.isTop() {
				m.want(v, elem, nil)
			}
			fut.Val = v
		}()
		return fut
	}
	v := m.plainBody(f, e)
	if ret != nil && ret.kind != "void" {
		m.want(v, ret, e)
	}
	return v
}

func (m *Machine) plainBody(f *funcDecl, e *env) any {
	if f.arrow != nil {
		return m.eval(f.arrow, e)
	}
	if f.body == nil {
		m.throw("NoSuchMethodError", "'%s' has no body", f.name)
	}
	if r, ok := m.exec(f.body, e).(returned); ok {
		return r.v
	}
	return nil
}

// ---- statements

func (m *Machine) exec(s stmt, e *env) any {
	m.steps++
	if m.steps > 20_000_000 {
		m.throw("Timeout", "")
	}
	switch s := s.(type) {
	case *block:
		e = e.child()
		for _, x := range s.list {
			if r := m.exec(x, e); r != nil {
				return r
			}
		}
	case *declList:
		for _, x := range s.list {
			if r := m.exec(x, e); r != nil {
				return r
			}
		}
	case *varS:
		var v any
		if s.v.init != nil {
			v = m.want(m.eval(s.v.init, e), s.v.rt, e)
		}
		e.set(s.v.name, v, s.v.rt)
	case *funcS:
		e.set(s.f.name, &Func{decl: s.f, env: e}, nil)
	case *exprS:
		m.eval(s.e, e)
	case *ifS:
		if m.truth(s.c, e) {
			return m.exec(s.then, e.child())
		} else if s.els != nil {
			return m.exec(s.els, e.child())
		}
	case *forS:
		e = e.child()
		if s.init != nil {
			m.exec(s.init, e)
		}
		for s.c == nil || m.truth(s.c, e) {
			if r := m.exec(s.body, e.child()); r != nil {
				if _, ok := r.(breakSig); ok {
					break
				}
				if _, ok := r.(contSig); !ok {
					return r
				}
			}
			for _, x := range s.post {
				m.eval(x, e)
			}
		}
	case *forInS:
		for _, v := range m.iterate(m.eval(s.in, e)) {
			b := e.child()
			if s.decl {
				b.set(s.name, v, nil)
			} else {
				e.find(s.name).v = v
			}
			if r := m.exec(s.body, b); r != nil {
				if _, ok := r.(breakSig); ok {
					break
				}
				if _, ok := r.(contSig); !ok {
					return r
				}
			}
		}
	case *whileS:
		for first := true; first && s.do || m.truth(s.c, e); first = false {
			if r := m.exec(s.body, e.child()); r != nil {
				if _, ok := r.(breakSig); ok {
					break
				}
				if _, ok := r.(contSig); !ok {
					return r
				}
			}
		}
	case *switchS:
		v := m.eval(s.x, e)
		hit := -1
		for i, k := range s.cases {
			for _, x := range k.vals {
				if hit < 0 && m.equal(v, m.eval(x, e)) {
					hit = i
				}
			}
		}
		for i, k := range s.cases {
			if hit < 0 && k.def {
				hit = i
			}
		}
		if hit < 0 {
			return nil
		}
		for i := hit; i < len(s.cases); i++ {
			b := e.child()
			for _, x := range s.cases[i].body {
				if r := m.exec(x, b); r != nil {
					if _, ok := r.(breakSig); ok {
						return nil
					}
					return r
				}
			}
			if len(s.cases[i].body) > 0 {
				return nil
			}
		}
	case *returnS:
		if s.e == nil {
			return returned{nil}
		}
		return returned{m.eval(s.e, e)}
	case *breakS:
		return breakSig{}
	case *continueS:
		return contSig{}
	case *tryS:
		return m.try(s, e)
	case *rethrowS:
		if c := e.find("rethrow!"); c != nil {
			panic(c.v)
		}
	case *emptyS, *assertS:
	default:
		panic(fmt.Sprintf("dart: exec %T", s))
	}
	return nil
}

func (m *Machine) try(s *tryS, e *env) (out any) {
	if s.finally != nil {
		defer func() {
			r := recover()
			if x := m.exec(s.finally, e.child()); x != nil {
				out, r = x, nil
			}
			if r != nil {
				panic(r)
			}
		}()
	}
	var t *Thrown
	depth := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				x, ok := r.(*Thrown)
				if !ok {
					panic(r)
				}
				t = x
				m.depth = depth
			}
		}()
		out = m.exec(s.body, e.child())
	}()
	if t == nil {
		return out
	}
	for _, k := range s.catches {
		var v any = t
		if t.Val != nil {
			v = t.Val
		}
		if k.on != nil && !m.is(v, m.p.typeOf(e.lib, nil, k.on)) {
			continue
		}
		b := e.child()
		b.set("rethrow!", t, nil)
		if k.name != "" {
			b.set(k.name, v, nil)
		}
		if k.st != "" {
			b.set(k.st, nil, nil)
		}
		return m.exec(k.body, b)
	}
	panic(t)
}

// ---- expressions

func (m *Machine) truth(x expr, e *env) bool {
	b, ok := m.eval(x, e).(bool)
	if !ok {
		m.throw("TypeError", "a condition is not a bool")
	}
	return b
}

func (m *Machine) iterate(v any) []any {
	l, ok := v.(*List)
	if !ok {
		m.throw("NoSuchMethodError", "'%s' can't be iterated", m.typeOf(v))
	}
	return append([]any(nil), l.L...)
}

func (m *Machine) eval(x expr, e *env) any {
	v, _ := m.chain(x, e)
	return v
}

// chain evaluates an expression. short tells that a null ended the chain that it is part of.
func (m *Machine) chain(x expr, e *env) (out any, short bool) {
	m.steps++
	if m.steps > 20_000_000 {
		m.throw("Timeout", "")
	}
	switch x := x.(type) {
	case *lit:
		if x.dbl {
			switch n := x.v.(type) {
			case int64:
				return float64(n), false
			case int:
				return float64(n), false
			}
		}
		if n, ok := x.v.(int); ok {
			return int64(n), false
		}
		return x.v, false
	case *str:
		s := ""
		for _, p := range x.parts {
			if t, ok := p.(string); ok {
				s += t
			} else {
				s += m.String(m.eval(p, e))
			}
		}
		return s, false
	case *id:
		return m.ident(x, e), false
	case *this:
		return e.this, false
	case *paren:
		return m.eval(x.e, e), false
	case *typeE:
		return &TypeV{x.rt}, false
	case *bang:
		v, s := m.chain(x.x, e)
		if s {
			return nil, true
		}
		if v == nil {
			m.mark(e, x.line)
			m.throw("TypeError", "a null check was used on null")
		}
		return v, false
	case *index:
		v, s := m.chain(x.x, e)
		if s || x.na && v == nil {
			return nil, true
		}
		m.mark(e, x.line)
		return m.callMember(v, "[]", []any{m.eval(x.i, e)}, nil, nil), false
	case *member:
		return m.member(x, e)
	case *call:
		return m.call(x, e)
	case *unary:
		switch x.op {
		case "!":
			return !m.truth(x.x, e), false
		case "++", "--":
			v := m.arith(x.op[:1], m.eval(x.x, e), int64(1))
			m.store(x.x, v, e)
			return v, false
		}
		v := m.eval(x.x, e)
		switch n := v.(type) {
		case int64:
			switch x.op {
			case "-":
				return -n, false
			case "~":
				return ^n, false
			}
		case float64:
			if x.op == "-" {
				return -n, false
			}
		}
		return m.callMember(v, "unary"+x.op, nil, nil, nil), false
	case *postfix:
		v := m.eval(x.x, e)
		m.store(x.x, m.arith(x.op[:1], v, int64(1)), e)
		return v, false
	case *binary:
		return m.binary(x, e), false
	case *cond:
		if m.truth(x.c, e) {
			return m.eval(x.a, e), false
		}
		return m.eval(x.b, e), false
	case *assign:
		return m.assign(x, e), false
	case *isE:
		return m.is(m.eval(x.x, e), subst(x.rt, e.binds)) != x.not, false
	case *asE:
		m.mark(e, x.line)
		return m.want(m.eval(x.x, e), x.rt, e), false
	case *funcE:
		return &Func{decl: x.f, env: e}, false
	case *listE:
		l := &List{Elem: subst(x.rt, e.binds)}
		for i := range x.elems {
			m.elem(&x.elems[i], e, func(_, v any) { l.L = append(l.L, m.want(v, l.Elem, nil)) })
		}
		return l, false
	case *mapE:
		if x.isSet {
			l := &List{Elem: subst(x.rk, e.binds), Set: true}
			for i := range x.elems {
				m.elem(&x.elems[i], e, func(_, v any) { m.addTo(l, m.want(v, l.Elem, nil)) })
			}
			return l, false
		}
		r := &Map{K: subst(x.rk, e.binds), V: subst(x.rv, e.binds)}
		for i := range x.elems {
			m.elem(&x.elems[i], e, func(k, v any) { m.put(r, m.want(k, r.K, nil), m.want(v, r.V, nil)) })
		}
		return r, false
	case *cascade:
		v := m.eval(x.x, e)
		b := e.child()
		b.set("", v, nil)
		for _, o := range x.ops {
			m.eval(o, b)
		}
		return v, false
	case *await:
		v := m.eval(x.x, e)
		if f, ok := v.(*Future); ok {
			if f.Err != nil {
				panic(f.Err)
			}
			return f.Val, false
		}
		return v, false
	case *throwE:
		v := m.eval(x.x, e)
		m.mark(e, x.line)
		if t, ok := v.(*Thrown); ok {
			panic(t)
		}
		t := &Thrown{Class: m.typeOf(v).String(), Val: v, at: m.at}
		t.Msg = m.String(v)
		panic(t)
	}
	panic(fmt.Sprintf("dart: eval %T", x))
}

func (m *Machine) elem(el *elem, e *env, put func(k, v any)) {
	switch el.kind {
	case "spread":
		v := m.eval(el.val, e)
		if v == nil && el.null {
			return
		}
		if mp, ok := v.(*Map); ok {
			for i, k := range mp.Keys {
				put(k, mp.Values[i])
			}
			return
		}
		for _, y := range m.iterate(v) {
			put(nil, y)
		}
	case "if":
		if m.truth(el.cond, e) {
			m.elem(el.then, e, put)
		} else if el.els != nil {
			m.elem(el.els, e, put)
		}
	case "for":
		for _, v := range m.iterate(m.eval(el.in, e)) {
			b := e.child()
			b.set(el.name, v, nil)
			m.elem(el.then, b, put)
		}
	default:
		if el.isPair || el.key != nil {
			put(m.eval(el.key, e), m.eval(el.val, e))
		} else {
			put(nil, m.eval(el.val, e))
		}
	}
}

func (m *Machine) ident(x *id, e *env) any {
	if c := e.find(x.name); c != nil {
		return c.v
	}
	m.mark(e, x.line)
	if e.cls != nil {
		if v, ok := m.staticOf(e.cls, x.name); ok {
			return v
		}
		if e.this != nil {
			if f := m.p.memberOf(m.typeOf(e.this), x.name, false); f != nil {
				return m.getMember(e.this, x.name)
			}
		}
	}
	if e.binds[x.name] != nil {
		return &TypeV{e.binds[x.name]}
	}
	d, _ := e.lib.lookup(x.name)
	switch d := d.(type) {
	case *class:
		return &TypeV{thisType(d)}
	case *funcDecl:
		if d.getter {
			return m.callFunc(d, nil, nil, nil, nil)
		}
		return m.funcValue(d)
	case *varDecl:
		return m.staticVar(d).v
	}
	switch x.name {
	case "dynamic":
		return &TypeV{tDynamic}
	case "Null":
		return &TypeV{tNull}
	case "Never":
		return &TypeV{tNever}
	}
	m.throw("NoSuchMethodError", "undefined name '%s'", x.name)
	return nil
}

// callFunc calls a top level or static function.
func (m *Machine) callFunc(d *funcDecl, a []any, named map[string]any, targs []*rtype, binds map[string]*rtype) any {
	s := m.p.sigOf(d)
	b := map[string]*rtype{}
	for n, t := range binds {
		b[n] = t
	}
	for i, n := range s.tps {
		b[n] = tDynamic
		if i < len(targs) && targs[i] != nil {
			b[n] = targs[i]
		}
	}
	if d.external {
		m.checkArgs(d, s, a, named, b)
		name := d.name
		if d.owner != nil {
			name = d.owner.name + "." + name
		}
		return m.native(name, nil, a, named, targs)
	}
	return m.invoke(d, &env{cls: d.owner, lib: d.lib, binds: b}, a, named)
}

func (m *Machine) funcValue(d *funcDecl) *Func {
	if d.external {
		return &Func{native: func(a []any, named map[string]any) any { return m.callFunc(d, a, named, nil, nil) }}
	}
	return &Func{decl: d, top: true, env: &env{cls: d.owner, lib: d.lib}}
}

func (m *Machine) staticOf(k *class, name string) (any, bool) {
	if f := k.sfuncs[name]; f != nil {
		return m.funcValue(f), true
	}
	if f := k.sgets[name]; f != nil {
		return m.callFunc(f, nil, nil, nil, nil), true
	}
	if v := k.svars[name]; v != nil {
		return m.staticVar(v).v, true
	}
	return nil, false
}

// classOf is the class that an expression names, with its type arguments.
func (m *Machine) classOf(x expr, e *env) (*class, []*rtype) {
	switch x := x.(type) {
	case *id:
		if e.find(x.name) != nil {
			return nil, nil
		}
		if e.cls != nil {
			if e.cls.sfuncs[x.name] != nil || e.cls.sgets[x.name] != nil || e.cls.svars[x.name] != nil {
				return nil, nil
			}
			if e.this != nil && m.p.memberOf(m.typeOf(e.this), x.name, false) != nil {
				return nil, nil
			}
		}
		d, _ := e.lib.lookup(x.name)
		k, _ := d.(*class)
		return k, nil
	case *member:
		if y, ok := x.x.(*id); ok && e.find(y.name) == nil && isPrefix(e.lib, y.name) {
			d, _ := e.lib.lookup(y.name + "." + x.name)
			k, _ := d.(*class)
			return k, nil
		}
	case *typeE:
		if x.rt != nil {
			t := subst(x.rt, e.binds)
			return t.c, t.args
		}
	}
	return nil, nil
}

func isPrefix(l *library, name string) bool {
	for _, i := range l.imports {
		if i.dir.prefix == name {
			return true
		}
	}
	return false
}

func (m *Machine) member(x *member, e *env) (any, bool) {
	if k, _ := m.classOf(x.x, e); k != nil {
		m.mark(e, x.line)
		if v, ok := m.staticOf(k, x.name); ok {
			return v, false
		}
		if k.ctors[x.name] != nil {
			return &Func{native: func(a []any, named map[string]any) any { return m.create(k, x.name, nil, a, named) }}, false
		}
		m.throw("NoSuchMethodError", "'%s' has no static member '%s'", k.name, x.name)
	}
	if y, ok := x.x.(*id); ok && e.find(y.name) == nil && isPrefix(e.lib, y.name) {
		return m.ident(&id{name: y.name + "." + x.name, line: x.line}, e), false
	}
	if _, ok := x.x.(*superE); ok {
		return m.getFrom(e.this, e.cls.super, x.name), false
	}
	v, s := m.chain(x.x, e)
	if s || x.na && v == nil {
		return nil, true
	}
	m.mark(e, x.line)
	return m.getMember(v, x.name), false
}

// find is the member of a value; concrete declarations come first.
func (m *Machine) find(t *rtype, name string, setter bool) (*found, *rtype) {
	for s := t; s != nil && s.c != nil; {
		if f := m.p.ownMember(s.c, name, setter); f != nil && !abstractMember(f) {
			return f, s
		}
		if s.c.super == nil {
			break
		}
		s = subst(s.c.super, bindings(s))
	}
	// the stub classes also inherit through interfaces
	for _, s := range allSupers(t) {
		if f := m.p.ownMember(s.c, name, setter); f != nil && !abstractMember(f) && s.c.lib.stub {
			return f, s
		}
	}
	return nil, nil
}

func (m *Machine) getMember(v any, name string) any {
	return m.getFrom(v, m.typeOf(v), name)
}

func (m *Machine) getFrom(v any, t *rtype, name string) any {
	if t.c == nil { // null, functions
		if t.fn != nil && name == "call" {
			return v
		}
		t = m.core("Object")
		if f := m.p.ownMember(t.c, name, false); v == nil && f == nil {
			m.throw("NoSuchMethodError", "'%s' is read from null", name)
		}
	}
	f, s := m.find(t, name, false)
	if f == nil {
		m.throw("NoSuchMethodError", "'%s' has no '%s'", t, name)
	}
	switch f.kind {
	case "field":
		return v.(*Inst).f[f.v]
	case "getter":
		return m.callOn(v, f.f, s, nil, nil, nil)
	}
	return &Func{native: func(a []any, named map[string]any) any { return m.callOn(v, f.f, s, a, named, nil) }}
}

// callOn calls a method or getter on a value.
func (m *Machine) callOn(v any, f *funcDecl, t *rtype, a []any, named map[string]any, targs []*rtype) any {
	b := bindings(t)
	sig := m.p.sigOf(f)
	if len(sig.tps) > 0 && !f.ctor {
		n := map[string]*rtype{}
		for k, x := range b {
			n[k] = x
		}
		for i, tp := range sig.tps {
			n[tp] = tDynamic
			if i < len(targs) && targs[i] != nil {
				n[tp] = targs[i]
			}
		}
		b = n
	}
	if f.external {
		m.checkArgs(f, sig, a, named, b)
		return m.native(f.owner.name+"."+f.name, v, a, named, targs)
	}
	return m.invoke(f, &env{cls: f.owner, lib: f.lib, this: v, binds: b}, a, named)
}

func (m *Machine) callMember(v any, name string, a []any, named map[string]any, targs []*rtype) any {
	return m.callFrom(v, m.typeOf(v), name, a, named, targs)
}

func (m *Machine) callFrom(v any, t *rtype, name string, a []any, named map[string]any, targs []*rtype) any {
	if fn, ok := v.(*Func); ok && name == "call" {
		return m.apply(fn, a, named, targs)
	}
	if t.c == nil {
		t = m.core("Object")
		if v == nil && m.p.ownMember(t.c, name, false) == nil {
			m.throw("NoSuchMethodError", "'%s' is called on null", name)
		}
	}
	f, s := m.find(t, name, false)
	if f == nil {
		m.throw("NoSuchMethodError", "'%s' has no method '%s'", t, name)
	}
	switch f.kind {
	case "field":
		return m.applyTo(v.(*Inst).f[f.v], a, named, targs)
	case "getter":
		return m.applyTo(m.callOn(v, f.f, s, nil, nil, nil), a, named, targs)
	}
	return m.callOn(v, f.f, s, a, named, targs)
}

func (m *Machine) applyTo(v any, a []any, named map[string]any, targs []*rtype) any {
	f, ok := v.(*Func)
	if !ok {
		if v != nil {
			return m.callMember(v, "call", a, named, targs)
		}
		m.throw("NoSuchMethodError", "null is called")
	}
	return m.apply(f, a, named, targs)
}

func (m *Machine) apply(f *Func, a []any, named map[string]any, targs []*rtype) any {
	if f.native != nil {
		return f.native(a, named)
	}
	if f.top {
		return m.callFunc(f.decl, a, named, targs, f.env.binds)
	}
	e := f.env
	if len(f.decl.tparams) > 0 {
		n := *e
		n.binds = map[string]*rtype{}
		for k, t := range e.binds {
			n.binds[k] = t
		}
		for i, tp := range f.decl.tparams {
			n.binds[tp] = tDynamic
			if i < len(targs) && targs[i] != nil {
				n.binds[tp] = targs[i]
			}
		}
		e = &n
	}
	return m.invoke(f.decl, e, a, named)
}

func (m *Machine) args(x *call, e *env) (a []any, named map[string]any) {
	for _, y := range x.args {
		v := m.eval(y.e, e)
		if y.name != "" {
			if named == nil {
				named = map[string]any{}
			}
			named[y.name] = v
		} else {
			a = append(a, v)
		}
	}
	return
}

func (m *Machine) bound(x *call, e *env) []*rtype {
	var out []*rtype
	for _, t := range x.bound {
		out = append(out, subst(t, e.binds))
	}
	return out
}

func (m *Machine) call(x *call, e *env) (any, bool) {
	if k, targs := m.classOf(x.fn, e); k != nil {
		a, named := m.args(x, e)
		if targs == nil {
			targs = m.bound(x, e)
		}
		m.mark(e, x.line)
		return m.create(k, "", targs, a, named), false
	}
	switch f := x.fn.(type) {
	case *member:
		if k, targs := m.classOf(f.x, e); k != nil {
			a, named := m.args(x, e)
			if k.ctors[f.name] != nil {
				if targs == nil {
					targs = m.bound(x, e)
				}
				m.mark(e, x.line)
				return m.create(k, f.name, targs, a, named), false
			}
			m.mark(e, x.line)
			if d := k.sfuncs[f.name]; d != nil {
				return m.callFunc(d, a, named, m.bound(x, e), nil), false
			}
			v, ok := m.staticOf(k, f.name)
			if !ok {
				m.throw("NoSuchMethodError", "'%s' has no static member '%s'", k.name, f.name)
			}
			return m.applyTo(v, a, named, m.bound(x, e)), false
		}
		if y, ok := f.x.(*id); ok && e.find(y.name) == nil && isPrefix(e.lib, y.name) {
			a, named := m.args(x, e)
			return m.applyTo(m.ident(&id{name: y.name + "." + f.name, line: f.line}, e), a, named, m.bound(x, e)), false
		}
		if _, ok := f.x.(*superE); ok {
			a, named := m.args(x, e)
			m.mark(e, x.line)
			return m.callFrom(e.this, subst(e.cls.super, e.binds), f.name, a, named, m.bound(x, e)), false
		}
		v, s := m.chain(f.x, e)
		if s || f.na && v == nil {
			return nil, true
		}
		a, named := m.args(x, e)
		m.mark(e, x.line)
		return m.callMember(v, f.name, a, named, m.bound(x, e)), false
	case *id:
		if c := e.find(f.name); c == nil {
			a, named := m.args(x, e)
			m.mark(e, x.line)
			targs := m.bound(x, e)
			if e.cls != nil {
				if d := e.cls.sfuncs[f.name]; d != nil {
					return m.callFunc(d, a, named, targs, nil), false
				}
				if v, ok := m.staticOf(e.cls, f.name); ok {
					return m.applyTo(v, a, named, targs), false
				}
				if e.this != nil && m.p.memberOf(m.typeOf(e.this), f.name, false) != nil {
					return m.callMember(e.this, f.name, a, named, targs), false
				}
			}
			d, _ := e.lib.lookup(f.name)
			if fd, ok := d.(*funcDecl); ok && !fd.getter {
				return m.callFunc(fd, a, named, targs, nil), false
			}
			return m.applyTo(m.ident(f, e), a, named, targs), false
		}
	}
	v, s := m.chain(x.fn, e)
	if s {
		return nil, true
	}
	a, named := m.args(x, e)
	m.mark(e, x.line)
	return m.applyTo(v, a, named, m.bound(x, e)), false
}

func (m *Machine) binary(x *binary, e *env) any {
	switch x.op {
	case "&&":
		return m.truth(x.l, e) && m.truth(x.r, e)
	case "||":
		return m.truth(x.l, e) || m.truth(x.r, e)
	case "??":
		if v := m.eval(x.l, e); v != nil {
			return v
		}
		return m.eval(x.r, e)
	}
	a, b := m.eval(x.l, e), m.eval(x.r, e)
	m.mark(e, x.line)
	switch x.op {
	case "==":
		return m.equal(a, b)
	case "!=":
		return !m.equal(a, b)
	}
	return m.arith(x.op, a, b)
}

func (m *Machine) arith(op string, a, b any) any {
	ai, aInt := a.(int64)
	af, aDbl := a.(float64)
	if !aInt && !aDbl {
		return m.callMember(a, op, []any{b}, nil, nil)
	}
	bi, bInt := b.(int64)
	bf, bDbl := b.(float64)
	if !bInt && !bDbl {
		m.throw("TypeError", "a value of type '%s' isn't of type 'num'", m.typeOf(b))
	}
	if aInt && bInt {
		switch op {
		case "+":
			return ai + bi
		case "-":
			return ai - bi
		case "*":
			return ai * bi
		case "~/", "%":
			if bi == 0 {
				m.throw("IntegerDivisionByZeroException", "")
			}
			if op == "~/" {
				return ai / bi
			}
			r := ai % bi
			if r < 0 {
				if bi < 0 {
					r -= bi
				} else {
					r += bi
				}
			}
			return r
		case "<":
			return ai < bi
		case ">":
			return ai > bi
		case "<=":
			return ai <= bi
		case ">=":
			return ai >= bi
		case "&":
			return ai & bi
		case "|":
			return ai | bi
		case "^":
			return ai ^ bi
		case "<<":
			return ai << uint(bi)
		case ">>":
			return ai >> uint(bi)
		}
	}
	// integers and doubles are compared by their exact values
	if op == "<" || op == ">" || op == "<=" || op == ">=" {
		c := cmpNum(a, b)
		if c == 2 {
			return false
		}
		switch op {
		case "<":
			return c < 0
		case ">":
			return c > 0
		case "<=":
			return c <= 0
		}
		return c >= 0
	}
	if aInt {
		af = float64(ai)
	}
	if bInt {
		bf = float64(bi)
	}
	switch op {
	case "+":
		return af + bf
	case "-":
		return af - bf
	case "*":
		return af * bf
	case "/":
		return af / bf
	case "~/":
		return int64(math.Trunc(af / bf))
	case "%":
		r := math.Mod(af, bf)
		if r < 0 {
			r += math.Abs(bf)
		}
		return r
	}
	m.throw("NoSuchMethodError", "'%s' has no operator '%s'", m.typeOf(a), op)
	return nil
}

func (m *Machine) assign(x *assign, e *env) any {
	switch x.op {
	case "=":
		v := m.eval(x.r, e)
		m.mark(e, x.line)
		return m.store(x.l, v, e)
	case "??=":
		if v := m.eval(x.l, e); v != nil {
			return v
		}
		return m.store(x.l, m.eval(x.r, e), e)
	}
	v := m.arith(x.op[:len(x.op)-1], m.eval(x.l, e), m.eval(x.r, e))
	return m.store(x.l, v, e)
}

func (m *Machine) store(x expr, v any, e *env) any {
	switch x := x.(type) {
	case *paren:
		return m.store(x.e, v, e)
	case *id:
		if c := e.find(x.name); c != nil {
			c.v = m.want(v, c.t, e)
			return v
		}
		if e.cls != nil {
			if s := e.cls.svars[x.name]; s != nil {
				c := m.staticVar(s)
				c.v = m.want(v, c.t, e)
				return v
			}
			if e.this != nil && m.p.memberOf(m.typeOf(e.this), x.name, true) != nil {
				m.setMember(e.this, x.name, v)
				return v
			}
		}
		d, _ := e.lib.lookup(x.name)
		if s, ok := d.(*varDecl); ok {
			c := m.staticVar(s)
			c.v = m.want(v, c.t, e)
			return v
		}
		if f := e.lib.setters[x.name]; f != nil {
			m.callFunc(f, []any{v}, nil, nil, nil)
			return v
		}
	case *member:
		if k, _ := m.classOf(x.x, e); k != nil {
			if s := k.svars[x.name]; s != nil {
				c := m.staticVar(s)
				c.v = m.want(v, c.t, e)
				return v
			}
		}
		o, s := m.chain(x.x, e)
		if s || x.na && o == nil {
			return nil
		}
		m.setMember(o, x.name, v)
		return v
	case *index:
		o, s := m.chain(x.x, e)
		if s || x.na && o == nil {
			return nil
		}
		m.callMember(o, "[]=", []any{m.eval(x.i, e), v}, nil, nil)
		return v
	}
	m.throw("NoSuchMethodError", "can't be assigned to")
	return nil
}

func (m *Machine) setMember(o any, name string, v any) {
	t := m.typeOf(o)
	if t.c != nil {
		if f, s := m.find(t, name, true); f != nil {
			if f.kind == "field" {
				m.want(v, subst(m.p.varType(f.v), bindings(s)), nil)
				o.(*Inst).f[f.v] = v
				return
			}
			m.callOn(o, f.f, s, []any{v}, nil, nil)
			return
		}
	}
	m.throw("NoSuchMethodError", "'%s' has no setter '%s'", t, name)
}

// equal is the operator ==.
func (m *Machine) equal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case int64, float64:
		switch b.(type) {
		case int64, float64:
			return cmpNum(a, b) == 0
		}
		return false
	case *Inst:
		if f, s := m.find(m.typeOf(a), "==", false); f != nil && !f.f.external {
			r, _ := m.callOn(a, f.f, s, []any{b}, nil, nil).(bool)
			return r
		}
		return a == b
	case *Decimal:
		y, ok := b.(*Decimal)
		return ok && x.R.Cmp(y.R) == 0
	case Int64:
		switch y := b.(type) {
		case Int64:
			return x == y
		case int64:
			return int64(x) == y
		}
		return false
	case *TypeV:
		y, ok := b.(*TypeV)
		return ok && sameType(x.t, y.t) && sameType(y.t, x.t)
	case *Func:
		y, ok := b.(*Func)
		return ok && (x == y || x.decl != nil && x.decl == y.decl && x.env == y.env)
	}
	return a == b
}

func (m *Machine) indexOf(l []any, v any) int {
	for i, x := range l {
		if m.equal(x, v) {
			return i
		}
	}
	return -1
}

func (m *Machine) put(mp *Map, k, v any) {
	if i := m.indexOf(mp.Keys, k); i >= 0 {
		mp.Values[i] = v
		return
	}
	mp.Keys = append(mp.Keys, k)
	mp.Values = append(mp.Values, v)
}

func (m *Machine) addTo(s *List, v any) bool {
	if m.indexOf(s.L, v) >= 0 {
		return false
	}
	s.L = append(s.L, v)
	return true
}

// ---- from outside

func (m *Machine) guard(f func() any) (v any, err error) {
	m.depth = 0
	m.at = ""
	defer func() {
		if r := recover(); r != nil {
			t, ok := r.(*Thrown)
			if !ok {
				panic(r)
			}
			err = t
		}
	}()
	v = f()
	if fu, ok := v.(*Future); ok && fu.Err != nil {
		return v, fu.Err
	}
	return v, nil
}

func (m *Machine) class(file, name string) (*class, error) {
	l := m.p.libs[file]
	if l == nil {
		return nil, fmt.Errorf("there is no file %s", file)
	}
	d, _ := l.lookup(name)
	k, ok := d.(*class)
	if !ok {
		return nil, fmt.Errorf("%s declares no class '%s'", file, name)
	}
	return k, nil
}

// Create calls a constructor.
func (m *Machine) Create(file, class, ctor string, a []any, named map[string]any) (any, error) {
	k, err := m.class(file, class)
	if err != nil {
		return nil, err
	}
	return m.guard(func() any { return m.create(k, ctor, nil, a, named) })
}

// Static calls a static function.
func (m *Machine) Static(file, class, name string, a ...any) (any, error) {
	k, err := m.class(file, class)
	if err != nil {
		return nil, err
	}
	return m.guard(func() any {
		if f := k.sfuncs[name]; f != nil {
			return m.callFunc(f, a, nil, nil, nil)
		}
		if k.ctors[name] != nil {
			return m.create(k, name, nil, a, nil)
		}
		m.throw("NoSuchMethodError", "'%s' has no static method '%s'", class, name)
		return nil
	})
}

// StaticGet reads a static field or getter.
func (m *Machine) StaticGet(file, class, name string) (any, error) {
	k, err := m.class(file, class)
	if err != nil {
		return nil, err
	}
	return m.guard(func() any {
		v, ok := m.staticOf(k, name)
		if !ok {
			m.throw("NoSuchMethodError", "'%s' has no static member '%s'", class, name)
		}
		return v
	})
}

// TopGet reads a top level variable or getter.
func (m *Machine) TopGet(file, name string) (any, error) {
	l := m.p.libs[file]
	if l == nil {
		return nil, fmt.Errorf("there is no file %s", file)
	}
	return m.guard(func() any { return m.ident(&id{name: name}, &env{lib: l}) })
}

// Top calls a top level function.
func (m *Machine) Top(file, name string, a ...any) (any, error) {
	l := m.p.libs[file]
	if l == nil {
		return nil, fmt.Errorf("there is no file %s", file)
	}
	d, _ := l.lookup(name)
	f, ok := d.(*funcDecl)
	if !ok {
		return nil, fmt.Errorf("%s declares no function '%s'", file, name)
	}
	return m.guard(func() any { return m.callFunc(f, a, nil, nil, nil) })
}

// Get reads a member of a value.
func (m *Machine) Get(v any, name string) (any, error) {
	return m.guard(func() any { return m.getMember(v, name) })
}

// Put sets a member of a value.
func (m *Machine) Put(v any, name string, x any) error {
	_, err := m.guard(func() any { m.setMember(v, name, x); return nil })
	return err
}

// Call calls a method of a value.
func (m *Machine) Call(v any, name string, a []any, named map[string]any) (any, error) {
	return m.guard(func() any { return m.callMember(v, name, a, named, nil) })
}

// Apply calls a function value.
func (m *Machine) Apply(f any, a ...any) (any, error) {
	return m.guard(func() any { return m.applyTo(f, a, nil, nil) })
}

// Equal is the operator ==.
func (m *Machine) Equal(a, b any) (bool, error) {
	v, err := m.guard(func() any { return m.equal(a, b) })
	r, _ := v.(bool)
	return r, err
}

// NewList makes a list with elements of a type, as Dart writes it.
func (m *Machine) NewList(file, elem string, l ...any) *List {
	return &List{Elem: m.parseType(file, elem), L: l}
}

// NewMap makes a map.
func (m *Machine) NewMap(file, k, v string) *Map {
	return &Map{K: m.parseType(file, k), V: m.parseType(file, v)}
}

// Native makes a function value.
func Native(f func(a []any, named map[string]any) any) *Func { return &Func{native: f} }

// Throw ends a native function with an exception.
func (m *Machine) Throw(msg string) { m.throw("Exception", "%s", msg) }

// IsA tells whether a value has the type that is written as text in a file.
func (m *Machine) IsA(file, typ string, v any) bool { return m.is(v, m.parseType(file, typ)) }

func (m *Machine) parseType(file, s string) *rtype {
	u, err := parseUnit(file, s+" x;")
	if err != nil {
		panic(fmt.Sprintf("dart: type %q: %v", s, err))
	}
	n := len(m.p.errs)
	t := m.p.typeOf(m.p.libs[file], nil, u.decls[0].(*varDecl).typ)
	if len(m.p.errs) > n {
		panic(fmt.Sprintf("dart: type %q: %v", s, m.p.errs[n]))
	}
	return t
}

// ---- what a program declares

// Member describes a member of a class as it is declared.
type Member struct {
	Name string
	Kind string // field, getter, setter, method
	Type string
}

// Classes are the classes that a file declares, in their order.
func (p *Program) Classes(file string) []string {
	var out []string
	if l := p.libs[file]; l != nil {
		for _, d := range l.unit.decls {
			if c, ok := d.(*classDecl); ok {
				out = append(out, c.name)
			}
		}
	}
	return out
}

// Members are the instance members of a class and of its supertypes (not of Object), by name.
func (p *Program) Members(file, class string) map[string]Member {
	l := p.libs[file]
	if l == nil {
		return nil
	}
	d, _ := l.lookup(class)
	k, ok := d.(*classT)
	if !ok {
		return nil
	}
	out := map[string]Member{}
	t := thisType(k)
	for _, s := range allSupers(t) {
		if s.c.lib.core {
			continue
		}
		var names []string
		for n := range s.c.vars {
			names = append(names, n)
		}
		for n := range s.c.getters {
			names = append(names, n)
		}
		for n := range s.c.methods {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if _, ok := out[n]; ok {
				continue
			}
			f := p.memberOf(t, n, false)
			out[n] = Member{n, f.kind, f.t.String()}
		}
		for n := range s.c.setters {
			if _, ok := out[n+"="]; !ok {
				f := p.memberOf(t, n, true)
				out[n+"="] = Member{n + "=", "setter", f.t.String()}
			}
		}
		for n, v := range s.c.vars {
			if _, ok := out[n+"="]; !ok && !v.final {
				f := p.memberOf(t, n, true)
				out[n+"="] = Member{n + "=", "setter", f.t.String()}
			}
		}
	}
	return out
}

type classT = class

// Supers are the classes that a class extends and implements, in any number of steps.
func (p *Program) Supers(file, class string) map[string]bool {
	out := map[string]bool{}
	if l := p.libs[file]; l != nil {
		d, _ := l.lookup(class)
		if k, ok := d.(*classT); ok {
			for _, s := range allSupers(thisType(k)) {
				out[s.String()] = true
			}
		}
	}
	return out
}

// StaticNames are the static variables and constants of a class, in their order.
func (p *Program) StaticNames(file, class string) []string {
	var out []string
	if l := p.libs[file]; l != nil {
		if k, ok := l.decls[class].(*classT); ok {
			for _, m := range k.decl.members {
				if v, ok := m.(*varDecl); ok && v.static {
					out = append(out, v.name)
				}
			}
		}
	}
	return out
}

// CtorParams are the parameters of a constructor with their types; required ones have a "!" after the name.
func (p *Program) CtorParams(file, class, ctor string) map[string]string {
	l := p.libs[file]
	if l == nil {
		return nil
	}
	d, _ := l.lookup(class)
	k, ok := d.(*classT)
	if !ok || k.ctors[ctor] == nil {
		return nil
	}
	out := map[string]string{}
	for _, x := range p.sigOf(k.ctors[ctor]).params {
		n := x.name
		if x.required {
			n += "!"
		}
		out[n] = x.t.String()
	}
	return out
}

// ClassOf names the class of an object.
func ClassOf(v any) string {
	if o, ok := v.(*Inst); ok {
		return o.c.name
	}
	return ""
}

// NewSet makes a set with elements of a type, as Dart writes it.
func (m *Machine) NewSet(file, elem string, l ...any) *List {
	s := m.NewList(file, elem)
	s.Set = true
	for _, x := range l {
		m.addTo(s, x)
	}
	return s
}
