package dart

import (
	"fmt"
	"sort"
)

// The checker reports what a Dart compiler would report, as far as the generated code can go wrong:
// names, types, arguments, null safety, missing members. It also notes in the tree the types that the
// interpreter needs (type arguments that are inferred, integer literals that stand for doubles).

type local struct {
	name  string
	t     *rtype
	prom  *rtype
	final bool
}

func (l *local) typ() *rtype {
	if l.prom != nil {
		return l.prom
	}
	return l.t
}

type checker struct {
	p      *Program
	lib    *library
	cls    *class
	static bool
	tps    []string
	scopes []map[string]*local
	ret    *rtype // what a return has to fit, nil: not known
	rets   *[]*rtype
	async  bool
	thisT  *rtype
}

func (c *checker) errf(line int, format string, args ...any) {
	c.p.report(c.lib, line, format, args...)
}

func (c *checker) push() { c.scopes = append(c.scopes, map[string]*local{}) }
func (c *checker) pop()  { c.scopes = c.scopes[:len(c.scopes)-1] }

func (c *checker) declare(name string, t *rtype, line int, final bool) {
	s := c.scopes[len(c.scopes)-1]
	if s[name] != nil {
		c.errf(line, "the name '%s' is already defined", name)
	}
	s[name] = &local{name: name, t: t, final: final}
}

func (c *checker) local(name string) *local {
	for i := len(c.scopes) - 1; i >= 0; i-- {
		if l := c.scopes[i][name]; l != nil {
			return l
		}
	}
	return nil
}

func (c *checker) typ(t *typeX) *rtype { return c.p.typeOf(c.lib, c.tps, t) }

// sigOf is the type of a function.
func (p *Program) sigOf(f *funcDecl) *rsig {
	if f.sig != nil {
		return f.sig
	}
	var tps []string
	if f.owner != nil {
		tps = append(tps, f.owner.decl.tparams...)
	}
	tps = append(tps, f.tparams...)
	s := &rsig{tps: f.tparams}
	switch {
	case f.ctor || f.factory:
		s.ret = thisType(f.owner)
		s.tps = f.owner.decl.tparams
	case f.ret == nil && f.setter:
		s.ret = tVoid
	default:
		s.ret = p.typeOf(f.lib, tps, f.ret)
	}
	for _, x := range f.params {
		t := p.typeOf(f.lib, tps, x.typ)
		if x.typ == nil && x.this {
			if v := f.owner.vars[x.name]; v != nil {
				t = p.varType(v)
			}
		}
		x.rt = t
		s.params = append(s.params, rparam{name: x.name, t: t, named: x.named, optional: x.optional, required: x.required, cov: x.cov})
	}
	f.sig = s
	return s
}

func thisType(c *class) *rtype {
	t := &rtype{c: c}
	for _, n := range c.decl.tparams {
		t.args = append(t.args, &rtype{tp: n})
	}
	return t
}

// varType is the declared or inferred type of a field or top level variable.
func (p *Program) varType(v *varDecl) *rtype {
	if v.rt != nil {
		return v.rt
	}
	if v.typ != nil {
		var tps []string
		if v.owner != nil {
			tps = v.owner.decl.tparams
		}
		v.rt = p.typeOf(v.lib, tps, v.typ)
		if v.rt == nil {
			v.rt = tDynamic
		}
		return v.rt
	}
	if v.init == nil || v.busy {
		return tDynamic
	}
	v.busy = true
	n := len(p.errs)
	c := &checker{p: p, lib: v.lib, cls: v.owner, static: true}
	if v.owner != nil {
		c.tps = v.owner.decl.tparams
	}
	c.push()
	t := c.infer(v.init, nil)
	p.errs = p.errs[:n] // reported when the variable itself is checked
	v.busy = false
	if t == nil {
		t = tDynamic
	}
	v.rt = t
	return t
}

// found is a member of a type.
type found struct {
	kind string // field, getter, setter, method
	t    *rtype // of the value, or of the parameter of a setter
	sig  *rsig  // of a method
	f    *funcDecl
	v    *varDecl
	c    *class
}

// memberOf finds an instance member in a type or its supertypes.
func (p *Program) memberOf(t *rtype, name string, setter bool) *found {
	if t == nil || t.c == nil {
		return nil
	}
	m := bindings(t)
	if f := p.ownMember(t.c, name, setter); f != nil {
		g := *f
		g.t = subst(g.t, m)
		if g.sig != nil {
			s := subst(&rtype{fn: g.sig}, m).fn
			g.sig = s
		}
		return &g
	}
	for _, s := range supers(t) {
		if f := p.memberOf(s, name, setter); f != nil {
			return f
		}
	}
	return nil
}

func (p *Program) ownMember(c *class, name string, setter bool) *found {
	if setter {
		if v := c.vars[name]; v != nil && !v.final {
			return &found{kind: "field", t: p.varType(v), v: v, c: c}
		}
		if f := c.setters[name]; f != nil {
			s := p.sigOf(f)
			return &found{kind: "setter", t: s.params[0].t, f: f, c: c}
		}
		return nil
	}
	if v := c.vars[name]; v != nil {
		return &found{kind: "field", t: p.varType(v), v: v, c: c}
	}
	if f := c.getters[name]; f != nil {
		return &found{kind: "getter", t: p.sigOf(f).ret, f: f, c: c}
	}
	if f := c.methods[name]; f != nil {
		s := p.sigOf(f)
		return &found{kind: "method", t: &rtype{fn: s}, sig: s, f: f, c: c}
	}
	return nil
}

// check checks the bodies of a library.
func (p *Program) check(l *library) {
	for _, d := range l.unit.decls {
		switch d := d.(type) {
		case *classDecl:
			p.checkClass(l, d.c)
		case *funcDecl:
			c := &checker{p: p, lib: l}
			c.function(d)
		case *varDecl:
			c := &checker{p: p, lib: l, static: true}
			c.push()
			c.variable(d)
		}
	}
	// types that are not used by any expression
}

func (c *checker) variable(v *varDecl) {
	t := c.p.varType(v)
	if v.init != nil {
		var ctx *rtype
		if v.typ != nil {
			ctx = t
		}
		c.fits(v.init, c.infer(v.init, ctx), t, v.line, "the variable '"+v.name+"'")
		return
	}
	if v.late || v.owner != nil && !v.static {
		return // instance fields: see the constructors
	}
	if !t.nullable() {
		c.errf(v.line, "the variable '%s' must be initialized", v.name)
	} else if v.final || v.konst {
		c.errf(v.line, "the final variable '%s' must be initialized", v.name)
	}
}

func (c *checker) fits(e expr, got, want *rtype, line int, what string) {
	if !assignable(got, want) {
		c.errf(line, "a value of type '%s' can't be assigned to %s of type '%s'", got, what, want)
	}
}

func (p *Program) checkClass(l *library, k *class) {
	d := k.decl
	if k.super != nil && (k.super.c == nil || k.super.null) {
		p.report(l, d.line, "'%s' can't be extended", k.super)
		return
	}
	mk := func(static bool) *checker {
		c := &checker{p: p, lib: l, cls: k, static: static, tps: d.tparams}
		if !static {
			c.thisT = thisType(k)
		}
		return c
	}
	hasCtor := false
	for _, m := range d.members {
		switch m := m.(type) {
		case *varDecl:
			c := mk(m.static)
			if !m.static {
				c.static = true // "this" can't be used in an initializer
			}
			c.push()
			c.variable(m)
		case *funcDecl:
			hasCtor = hasCtor || m.ctor || m.factory
			c := mk(m.static || m.factory)
			c.function(m)
			if m.ctor {
				p.checkCtor(l, k, m)
			}
			if !m.ctor && !m.factory && m.body == nil && m.arrow == nil && !m.external {
				if m.static {
					p.report(l, m.line, "the static method '%s' needs a body", m.name)
				} else if !d.abstract {
					p.report(l, m.line, "'%s' needs a body, because '%s' is not abstract", m.name, k.name)
				}
			}
		}
	}
	if !hasCtor {
		p.checkCtor(l, k, &funcDecl{line: d.line, ctor: true})
	}
	p.checkMembers(l, k)
}

// checkCtor: every field is initialized and the super constructor can be called.
func (p *Program) checkCtor(l *library, k *class, f *funcDecl) {
	if f.redirect != nil || f.external {
		return
	}
	set := map[string]bool{}
	for _, x := range f.params {
		if x.this {
			if k.vars[x.name] == nil {
				p.report(l, x.line, "'%s' is not a field of '%s'", x.name, k.name)
			}
			set[x.name] = true
		}
	}
	for _, i := range f.inits {
		if k.vars[i.name] == nil {
			p.report(l, f.line, "'%s' is not a field of '%s'", i.name, k.name)
		}
		if set[i.name] {
			p.report(l, f.line, "the field '%s' is initialized twice", i.name)
		}
		set[i.name] = true
	}
	for _, v := range k.fields {
		if v.init != nil || v.late || set[v.name] {
			continue
		}
		if v.final {
			p.report(l, f.line, "the final field '%s' of '%s' must be initialized", v.name, k.name)
		} else if !p.varType(v).nullable() {
			p.report(l, f.line, "the field '%s' of '%s' must be initialized, because its type '%s' doesn't allow null", v.name, k.name, p.varType(v))
		}
	}
	if f.konst {
		for _, v := range k.fields {
			if !v.final {
				p.report(l, f.line, "'%s' has a const constructor and a field '%s' that is not final", k.name, v.name)
			}
		}
	}
	if k.super != nil && k.super.c != nil && !l.stub {
		sc := k.super.c
		name := ""
		if f.superArg != nil {
			if m, ok := f.superArg.fn.(*member); ok {
				name = m.name
			}
		}
		sf := sc.ctors[name]
		if sf == nil {
			if len(sc.ctors) > 0 || name != "" {
				p.report(l, f.line, "'%s' has no constructor '%s'", sc.name, name)
			}
			return
		}
		if f.superArg == nil {
			for _, x := range p.sigOf(sf).params {
				if x.required || !x.named && !x.optional {
					p.report(l, f.line, "the constructor of '%s' has to be called with arguments", sc.name)
					break
				}
			}
		}
	}
}

// checkMembers compares a class with its supertypes.
func (p *Program) checkMembers(l *library, k *class) {
	t := thisType(k)
	names := map[string]bool{}
	var collect func(t *rtype, own bool)
	seen := map[*class]bool{}
	collect = func(t *rtype, own bool) {
		if t == nil || t.c == nil {
			return
		}
		c := t.c
		if seen[c] {
			return
		}
		seen[c] = true
		for n := range c.methods {
			names[n] = true
		}
		for n := range c.getters {
			names[n] = true
		}
		for n := range c.vars {
			names[n] = true
			if !c.vars[n].final {
				names[n+"="] = true
			}
		}
		for n := range c.setters {
			names[n+"="] = true
		}
		for _, s := range supers(t) {
			collect(s, false)
		}
	}
	collect(t, true)
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Strings(list)
	for _, key := range list {
		name, setter := key, false
		if n := len(key); key[n-1] == '=' && n > 1 && (key[0] == '_' || key[0] >= 'A') && key != "[]=" {
			name, setter = key[:n-1], true
		}
		if name[0] == '_' && false {
			continue
		}
		own := p.ownMember(k, name, setter)
		var inherited []*found
		for _, s := range supers(t) {
			if f := p.memberOf(s, name, setter); f != nil {
				if name[0] == '_' && f.c.lib != l {
					continue
				}
				inherited = append(inherited, f)
			}
		}
		impl := own
		if impl != nil && abstractMember(impl) {
			impl = nil
		}
		if own == nil && len(inherited) > 1 && k.decl.abstract {
			// several interfaces: one of the signatures has to fit the others
			ok := false
			for _, a := range inherited {
				all := true
				for _, b := range inherited {
					if !overrides(a, b) {
						all = false
					}
				}
				ok = ok || all
			}
			if !ok {
				p.report(l, k.decl.line, "'%s' inherits different declarations of '%s'", k.name, name)
			}
		}
		if own != nil {
			for _, i := range inherited {
				if !overrides(own, i) {
					p.report(l, lineOf(own), "'%s.%s' of type '%s' isn't a valid override of '%s.%s' of type '%s'", k.name, name, own.t, i.c.name, name, i.t)
				}
			}
			// a field or getter can't hide a method, and the other way round
			if !setter {
				for _, i := range inherited {
					if (i.kind == "method") != (own.kind == "method") {
						p.report(l, lineOf(own), "'%s.%s' is a %s and overrides a %s", k.name, name, own.kind, i.kind)
					}
				}
			}
		}
		if k.decl.abstract || l.stub {
			continue
		}
		if impl == nil {
			// from a superclass that has a body
			for s := k.super; s != nil && s.c != nil && impl == nil; s = s.c.super {
				if f := p.ownMember(s.c, name, setter); f != nil && !abstractMember(f) {
					impl = f
				}
			}
			if impl == nil && len(inherited) > 0 {
				what := ""
				if setter {
					what = "setter "
				}
				p.report(l, k.decl.line, "'%s' has no implementation of %s'%s.%s'", k.name, what, inherited[0].c.name, name)
			} else if impl != nil && own == nil {
				for _, i := range inherited {
					if !overrides(impl, i) {
						p.report(l, k.decl.line, "'%s.%s' of type '%s' isn't a valid implementation of '%s.%s' of type '%s'", impl.c.name, name, impl.t, i.c.name, name, i.t)
					}
				}
			}
		}
	}
}

func lineOf(f *found) int {
	if f.f != nil {
		return f.f.line
	}
	return f.v.line
}

func abstractMember(f *found) bool {
	return f.f != nil && f.f.body == nil && f.f.arrow == nil && !f.f.external
}

func overrides(a, b *found) bool {
	if a.kind == "setter" || b.kind == "setter" {
		return subtype(b.t, a.t)
	}
	if a.kind == "field" && b.kind == "field" && a.v != nil && b.v != nil && !b.v.final && !a.v.final {
		return subtype(a.t, b.t) && subtype(b.t, a.t)
	}
	return subtype(widen(a.t, b.t), b.t)
}

// widen gives a method the wider types that the one it overrides has for covariant parameters.
func widen(a, b *rtype) *rtype {
	if a == nil || b == nil || a.fn == nil || b.fn == nil {
		return a
	}
	s := *a.fn
	s.params = append([]rparam(nil), s.params...)
	for i, x := range b.fn.params {
		if x.cov && i < len(s.params) && subtype(s.params[i].t, x.t) {
			s.params[i].t = x.t
		}
	}
	t := *a
	t.fn = &s
	return &t
}

func (c *checker) function(f *funcDecl) *rsig {
	outer := c.tps
	c.tps = append(append([]string(nil), outer...), f.tparams...)
	defer func() { c.tps = outer }()
	sig := c.p.sigOf(f)
	c.push()
	defer c.pop()
	hasBody := f.body != nil || f.arrow != nil
	names := map[string]bool{}
	for i, x := range f.params {
		t := sig.params[i].t
		if x.this && x.typ != nil && f.owner != nil {
			if v := f.owner.vars[x.name]; v != nil && !subtype(t, c.p.varType(v)) {
				c.errf(x.line, "the parameter 'this.%s' of type '%s' doesn't fit the field", x.name, t)
			}
		}
		if names[x.name] {
			c.errf(x.line, "the name '%s' is already defined", x.name)
			continue
		}
		names[x.name] = true
		if x.named && x.name[0] == '_' && !f.external {
			c.errf(x.line, "named parameters can't start with an underscore")
		}
		if x.required && x.def != nil {
			c.errf(x.line, "the required parameter '%s' can't have a default", x.name)
		}
		if (hasBody || f.ctor || f.static || f.owner == nil) && (x.optional || x.named && !x.required) && x.def == nil && !t.nullable() && !f.external {
			c.errf(x.line, "the parameter '%s' can't be null because of its type '%s', but it has no default", x.name, t)
		}
		if x.def != nil {
			c.fits(x.def, c.infer(x.def, t), t, x.line, "the parameter '"+x.name+"'")
		}
		if !x.this {
			c.declare(x.name, t, x.line, false)
		} else {
			// the parameter can be seen in the initializers
			c.declare(x.name, t, x.line, true)
		}
	}
	if f.ctor {
		save := c.static
		c.static = true
		for _, i := range f.inits {
			var t *rtype
			if v := f.owner.vars[i.name]; v != nil {
				t = c.p.varType(v)
			}
			c.fits(i.e, c.infer(i.e, t), t, f.line, "the field '"+i.name+"'")
		}
		if f.superArg != nil && f.owner.super != nil && f.owner.super.c != nil {
			name := ""
			if m, ok := f.superArg.fn.(*member); ok {
				name = m.name
			}
			if sf := f.owner.super.c.ctors[name]; sf != nil {
				c.args(c.p.sigOf(sf), nil, f.superArg, nil)
			}
		}
		if f.redirect != nil {
			name := ""
			if m, ok := f.redirect.fn.(*member); ok {
				name = m.name
			}
			if sf := f.owner.ctors[name]; sf != nil {
				c.args(c.p.sigOf(sf), nil, f.redirect, nil)
			} else {
				c.errf(f.line, "'%s' has no constructor '%s'", f.owner.name, name)
			}
		}
		c.static = save
		for _, x := range f.params {
			if x.this {
				delete(c.scopes[len(c.scopes)-1], x.name)
			}
		}
	}
	if !hasBody {
		return sig
	}
	ret := sig.ret
	if f.ctor {
		ret = tVoid
	}
	if f.setter {
		ret = tVoid
	}
	c.body(f, ret)
	return sig
}

// flatten takes the future off a type.
func (c *checker) flatten(t *rtype) *rtype {
	if t != nil && t.c != nil {
		if f := asClass(t, c.p.world.class("Future")); f != nil {
			if t.null {
				return f.args[0].orNull()
			}
			return f.args[0]
		}
	}
	return t
}

// body checks the body of a function whose result has the type ret (nil: to be inferred) and returns
// the type of what it returns.
func (c *checker) body(f *funcDecl, ret *rtype) *rtype {
	sret, srets, sasync := c.ret, c.rets, c.async
	defer func() { c.ret, c.rets, c.async = sret, srets, sasync }()
	want := ret
	if f.async {
		if ret != nil && !ret.isTop() {
			fut := c.p.world.class("Future")
			if !(ret.c == fut) {
				c.errf(f.line, "an async function has to return a Future and not '%s'", ret)
			}
		}
		want = c.flatten(ret)
	}
	var rets []*rtype
	c.ret, c.rets, c.async = want, &rets, f.async
	var got *rtype
	if f.arrow != nil {
		got = c.infer(f.arrow, want)
		if f.async {
			got = c.flatten(got)
		}
		if want != nil && want.kind != "void" {
			c.fits(f.arrow, got, want, f.line, "the result")
		}
	} else {
		c.push()
		exits := false
		for _, s := range f.body.(*block).list {
			exits = c.stmt(s) || exits
		}
		c.pop()
		if !exits {
			if want != nil && !want.nullable() {
				c.errf(f.line, "the body might complete normally, but its result of type '%s' can't be null", want)
			}
			rets = append(rets, tNull)
		}
		for i, r := range rets {
			if i == 0 {
				got = r
			} else {
				got = lub(got, r)
			}
		}
	}
	if f.async {
		if got == nil {
			return nil
		}
		return &rtype{c: c.p.world.class("Future"), args: []*rtype{got}}
	}
	return got
}

type promo struct {
	l *local
	t *rtype
}

// facts are the promotions of local variables that hold when e is truth.
func (c *checker) facts(e expr, truth bool) []promo {
	switch e := e.(type) {
	case *paren:
		return c.facts(e.e, truth)
	case *unary:
		if e.op == "!" {
			return c.facts(e.x, !truth)
		}
	case *binary:
		switch e.op {
		case "&&":
			if truth {
				return append(c.facts(e.l, true), c.facts(e.r, true)...)
			}
		case "||":
			if !truth {
				return append(c.facts(e.l, false), c.facts(e.r, false)...)
			}
		case "==", "!=":
			if truth == (e.op == "!=") {
				var x expr
				if isNull(e.l) {
					x = e.r
				} else if isNull(e.r) {
					x = e.l
				}
				if l := c.promotable(x); l != nil && !l.typ().isDyn() {
					return []promo{{l, l.typ().nonNull()}}
				}
			}
		}
	case *isE:
		if truth != e.not {
			if l := c.promotable(e.x); l != nil && e.rt != nil {
				if l.typ().isDyn() || subtype(e.rt, l.typ()) {
					return []promo{{l, e.rt}}
				}
			}
		}
	}
	return nil
}

func isNull(e expr) bool {
	l, ok := e.(*lit)
	return ok && l.v == nil
}

func (c *checker) promotable(e expr) *local {
	switch e := e.(type) {
	case *id:
		return c.local(e.name)
	case *paren:
		return c.promotable(e.e)
	case *bang:
		return c.promotable(e.x)
	case *assign:
		if e.op == "=" {
			return c.promotable(e.l)
		}
	}
	return nil
}

func (c *checker) with(ps []promo, f func()) {
	old := make([]*rtype, len(ps))
	for i, p := range ps {
		old[i] = p.l.prom
		p.l.prom = p.t
	}
	f()
	for i := len(ps) - 1; i >= 0; i-- {
		ps[i].l.prom = old[i]
	}
}

// stmt checks a statement and tells whether what follows it can't be reached.
func (c *checker) stmt(s stmt) bool {
	switch s := s.(type) {
	case *block:
		c.push()
		defer c.pop()
		exits := false
		for _, x := range s.list {
			exits = c.stmt(x) || exits
		}
		return exits
	case *declList:
		for _, x := range s.list {
			c.stmt(x)
		}
	case *varS:
		v := s.v
		var t *rtype
		if v.typ != nil {
			t = c.typ(v.typ)
			v.rt = t
		}
		prom := (*rtype)(nil)
		if v.init != nil {
			got := c.infer(v.init, t)
			if v.typ == nil {
				t = got
				if t != nil && t.kind == "Null" {
					t = tDynamic
				}
				v.rt = t
			} else {
				c.fits(v.init, got, t, v.line, "the variable '"+v.name+"'")
				if t != nil && t.null && got != nil && !got.nullable() {
					prom = t.nonNull()
				}
			}
		} else if v.konst {
			c.errf(v.line, "the const variable '%s' must be initialized", v.name)
		} else if t != nil && !t.nullable() && !v.late {
			// may be assigned before it is used; the generated code does not do that
			c.errf(v.line, "the variable '%s' must be initialized", v.name)
		}
		c.declare(v.name, t, v.line, (v.final || v.konst) && v.init != nil)
		c.local(v.name).prom = prom
	case *funcS:
		sig := c.p.sigOfLocal(c, s.f)
		c.declare(s.f.name, &rtype{fn: sig}, s.f.line, true)
		c.closureBody(s.f, sig)
	case *exprS:
		c.infer(s.e, nil)
		_, isThrow := s.e.(*throwE)
		return isThrow
	case *ifS:
		c.boolean(s.c, "a condition")
		var a, b bool
		c.with(c.facts(s.c, true), func() { a = c.scoped(s.then) })
		if s.els != nil {
			c.with(c.facts(s.c, false), func() { b = c.scoped(s.els) })
		}
		if a && s.els == nil {
			for _, p := range c.facts(s.c, false) {
				p.l.prom = p.t
			}
		}
		return a && b && s.els != nil
	case *forS:
		c.push()
		defer c.pop()
		if s.init != nil {
			c.stmt(s.init)
		}
		if s.c != nil {
			c.boolean(s.c, "a condition")
		}
		c.scoped(s.body)
		for _, e := range s.post {
			c.infer(e, nil)
		}
		return s.c == nil
	case *forInS:
		t := c.iterated(s.in, s.line)
		c.push()
		defer c.pop()
		if s.decl {
			if s.typ != nil {
				d := c.typ(s.typ)
				if !assignable(t, d) {
					c.errf(s.line, "'%s' can't be iterated as '%s'", t, d)
				}
				t = d
			}
			c.declare(s.name, t, s.line, false)
		} else if c.local(s.name) == nil {
			c.errf(s.line, "undefined name '%s'", s.name)
		}
		c.scoped(s.body)
	case *whileS:
		c.boolean(s.c, "a condition")
		c.scoped(s.body)
		if l, ok := s.c.(*lit); ok && l.v == true {
			return true
		}
	case *switchS:
		t := c.infer(s.x, nil)
		all, def := true, false
		seen := map[any]bool{}
		for i, k := range s.cases {
			def = def || k.def
			for _, v := range k.vals {
				vt := c.infer(v, t)
				if !assignable(vt, t) {
					c.errf(k.line, "the case of type '%s' can't be equal to a value of type '%s'", vt, t)
				}
				var key any
				switch v := v.(type) {
				case *lit:
					key = v.v
				case *str:
					if len(v.parts) == 1 {
						key = v.parts[0]
					} else if len(v.parts) == 0 {
						key = ""
					}
				}
				if key != nil {
					if seen[key] {
						c.errf(k.line, "the case '%v' stands twice in a switch", key)
					}
					seen[key] = true
				}
			}
			c.push()
			exits := false
			for _, x := range k.body {
				if _, ok := x.(*breakS); ok {
					exits = true
					all = false
					continue
				}
				if _, ok := x.(*continueS); ok {
					exits = true
					all = false
					continue
				}
				exits = c.stmt(x) || exits
			}
			c.pop()
			if !exits && len(k.body) > 0 && i < len(s.cases)-1 {
				c.errf(k.line, "a case may fall through")
			}
			all = all && (exits || len(k.body) == 0 && i < len(s.cases)-1)
		}
		return all && def
	case *returnS:
		if s.e == nil {
			if c.ret != nil && !c.ret.isTop() && c.ret.kind != "Null" {
				c.errf(s.line, "a return without a value in a function of type '%s'", c.ret)
			}
			*c.rets = append(*c.rets, tNull)
			return true
		}
		ctx := c.ret
		got := c.infer(s.e, ctx)
		if c.async {
			got = c.flatten(got)
		}
		if c.ret != nil {
			if c.ret.kind == "void" {
				if got != nil && got.kind != "void" && got.kind != "dynamic" && got.kind != "Null" {
					c.errf(s.line, "a value of type '%s' is returned from a void function", got)
				}
			} else if got != nil && got.kind == "void" && !c.ret.isTop() {
				c.errf(s.line, "this expression has the type 'void' and can't be used")
			} else {
				c.fits(s.e, got, c.ret, s.line, "the result")
			}
		}
		if got == nil {
			got = tDynamic
		}
		*c.rets = append(*c.rets, got)
		return true
	case *breakS, *continueS:
		return true
	case *rethrowS:
		return true
	case *tryS:
		a := c.scoped(s.body)
		for _, k := range s.catches {
			c.push()
			t := &rtype{c: c.p.world.class("Object")}
			if k.on != nil {
				t = c.typ(k.on)
			}
			if k.name != "" {
				c.declare(k.name, t, 0, true)
			}
			if k.st != "" {
				c.declare(k.st, tDynamic, 0, true)
			}
			a = c.scoped(k.body) && a
			c.pop()
		}
		if s.finally != nil {
			a = c.scoped(s.finally) || a
		}
		return a
	}
	return false
}

func (c *checker) scoped(s stmt) bool {
	c.push()
	defer c.pop()
	return c.stmt(s)
}

func (c *checker) boolean(e expr, what string) {
	t := c.infer(e, nil)
	if !assignable(t, &rtype{c: c.p.world.class("bool")}) {
		c.errf(lineOfExpr(e), "%s has to be a bool and not '%s'", what, t)
	}
}

func (c *checker) iterated(e expr, line int) *rtype {
	t := c.infer(e, nil)
	if t.isDyn() {
		return tDynamic
	}
	if t.nullable() {
		c.errf(line, "'%s' can be null and can't be iterated", t)
		return nil
	}
	i := asClass(t, c.p.world.class("Iterable"))
	if i == nil {
		c.errf(line, "'%s' can't be iterated", t)
		return nil
	}
	return i.args[0]
}

func (p *Program) sigOfLocal(c *checker, f *funcDecl) *rsig {
	s := &rsig{tps: f.tparams}
	tps := c.tps
	c.tps = append(append([]string(nil), tps...), f.tparams...)
	s.ret = tDynamic
	if f.ret != nil {
		s.ret = c.typ(f.ret)
	}
	for _, x := range f.params {
		t := tDynamic
		if x.typ != nil {
			t = c.typ(x.typ)
		}
		x.rt = t
		s.params = append(s.params, rparam{name: x.name, t: t, named: x.named, optional: x.optional, required: x.required})
	}
	c.tps = tps
	f.sig = s
	return s
}

// closureBody checks the body of a local function with the types of sig and returns its result type.
func (c *checker) closureBody(f *funcDecl, sig *rsig) *rtype {
	c.push()
	defer c.pop()
	for i, x := range f.params {
		x.rt = sig.params[i].t
		if x.def != nil {
			c.fits(x.def, c.infer(x.def, x.rt), x.rt, x.line, "the parameter '"+x.name+"'")
		}
		c.declare(x.name, sig.params[i].t, x.line, false)
	}
	// what is promoted outside may be assigned again before the closure runs; the generated code
	// only uses variables that are not
	return c.body(f, sig.ret)
}

func lineOfExpr(e expr) int {
	switch e := e.(type) {
	case *lit:
		return e.line
	case *str:
		return e.line
	case *id:
		return e.line
	case *member:
		return e.line
	case *index:
		return e.line
	case *call:
		return e.line
	case *unary:
		return e.line
	case *postfix:
		return e.line
	case *binary:
		return e.line
	case *assign:
		return e.line
	case *isE:
		return e.line
	case *asE:
		return e.line
	case *bang:
		return e.line
	case *paren:
		return lineOfExpr(e.e)
	case *cond:
		return lineOfExpr(e.c)
	case *listE:
		return e.line
	case *mapE:
		return e.line
	case *funcE:
		return e.f.line
	}
	return 0
}

var _ = fmt.Sprint
