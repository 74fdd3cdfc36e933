package dart

func (c *checker) cls0(name string, args ...*rtype) *rtype {
	return &rtype{c: c.p.world.class(name), args: args}
}

// infer checks an expression and returns its type, nil when it is not known (because something in it
// is wrong and reported). ctx is the type that is wanted, or nil.
func (c *checker) infer(e expr, ctx *rtype) *rtype {
	switch e.(type) {
	case *member, *index, *call, *bang:
		t, short := c.chain(e, ctx)
		if short {
			return t.orNull()
		}
		return t
	}
	if ctx != nil && hasTP(ctx) {
		ctx = nil
	}
	switch e := e.(type) {
	case *lit:
		switch e.v.(type) {
		case nil:
			return tNull
		case bool:
			return c.cls0("bool")
		case float64:
			return c.cls0("double")
		}
		if ctx.is("double") {
			e.dbl = true
			return c.cls0("double")
		}
		return c.cls0("int")
	case *str:
		for _, x := range e.parts {
			if _, ok := x.(string); !ok {
				c.infer(x, nil)
			}
		}
		return c.cls0("String")
	case *id:
		return c.ident(e)
	case *this:
		if c.thisT == nil || c.static {
			c.errf(e.line, "'this' can't be used here")
			return nil
		}
		return c.thisT
	case *superE:
		c.errf(e.line, "'super' can't be used here")
		return nil
	case *paren:
		return c.infer(e.e, ctx)
	case *unary:
		if e.op == "!" {
			c.boolean(e.x, "the operand of '!'")
			return c.cls0("bool")
		}
		t := c.infer(e.x, ctx)
		if t.isDyn() {
			return tDynamic
		}
		if e.op == "++" || e.op == "--" {
			c.assignTo(e.x, t, e.line)
		}
		if t.nullable() {
			c.errf(e.line, "the operator '%s' can't be used on '%s', which can be null", e.op, t)
			return nil
		}
		if asClass(t, c.p.world.class("num")) == nil {
			if e.op == "-" {
				if f := c.p.memberOf(t, "-", false); f != nil {
					return f.sig.ret
				}
			}
			c.errf(e.line, "'%s' has no operator '%s'", t, e.op)
			return nil
		}
		return t
	case *postfix:
		t := c.infer(e.x, nil)
		c.assignTo(e.x, t, e.line)
		if !t.isDyn() && (t.nullable() || asClass(t, c.p.world.class("num")) == nil) {
			c.errf(e.line, "the operator '%s' can't be used on '%s'", e.op, t)
		}
		return t
	case *binary:
		return c.binary(e, ctx)
	case *cond:
		c.boolean(e.c, "a condition")
		var a, b *rtype
		c.with(c.facts(e.c, true), func() { a = c.infer(e.a, ctx) })
		c.with(c.facts(e.c, false), func() { b = c.infer(e.b, ctx) })
		return c.join(a, b, ctx)
	case *assign:
		return c.assign(e)
	case *isE:
		c.infer(e.x, nil)
		e.rt = c.typ(e.t)
		return c.cls0("bool")
	case *asE:
		c.infer(e.x, nil)
		e.rt = c.typ(e.t)
		return e.rt
	case *funcE:
		return c.closure(e.f, ctx)
	case *listE:
		return c.list(e, ctx)
	case *mapE:
		return c.mapLit(e, ctx)
	case *cascade:
		t := c.infer(e.x, nil)
		if !e.put {
			for i := range e.ops {
				if a, ok := e.ops[i].(*assign); ok {
					a.l = replaceTarget(a.l)
				} else {
					e.ops[i] = replaceTarget(e.ops[i])
				}
			}
			e.put = true
		}
		for _, o := range e.ops {
			c.cascadeOp(o, t)
		}
		return t
	case *await:
		return c.flatten(c.infer(e.x, nil))
	case *throwE:
		c.infer(e.x, nil)
		return tNever
	case *typeE:
		e.rt = c.typ(e.t)
		return c.cls0("Type")
	}
	panic("infer: unknown expression")
}

func (c *checker) join(a, b, ctx *rtype) *rtype {
	if a == nil || b == nil {
		return nil
	}
	if a.kind == "dynamic" || b.kind == "dynamic" {
		return tDynamic
	}
	// what fits the wanted type keeps its own type, so that a wrong part is still seen
	r := lub(a, b)
	if r == nil && ctx != nil && assignable(a, ctx) && assignable(b, ctx) {
		return ctx
	}
	if r == nil {
		o := c.cls0("Object")
		if a.nullable() || b.nullable() {
			o = o.orNull()
		}
		return o
	}
	return r
}

func hasTP(t *rtype) bool {
	if t == nil {
		return false
	}
	if t.tp != "" {
		return true
	}
	for _, a := range t.args {
		if hasTP(a) {
			return true
		}
	}
	if t.fn != nil {
		if hasTP(t.fn.ret) {
			return true
		}
		for _, p := range t.fn.params {
			if hasTP(p.t) {
				return true
			}
		}
	}
	return false
}

// decl finds what a name means: a local variable, a member of the class, or a declaration of the library.
func (c *checker) decl(name string, line int) (l *local, m *found, d any) {
	if l = c.local(name); l != nil {
		return
	}
	if c.cls != nil {
		if f := c.cls.sfuncs[name]; f != nil {
			return nil, nil, f
		}
		if f := c.cls.sgets[name]; f != nil {
			return nil, nil, f
		}
		if v := c.cls.svars[name]; v != nil {
			return nil, nil, v
		}
		if c.thisT != nil {
			if m = c.p.memberOf(c.thisT, name, false); m != nil {
				if name[0] == '_' && m.c.lib != c.lib {
					m = nil
				} else {
					if c.static {
						c.errf(line, "the instance member '%s' can't be used here", name)
					}
					return nil, m, nil
				}
			}
		} else if f := c.p.memberOf(thisType(c.cls), name, false); f != nil {
			c.errf(line, "the instance member '%s' can't be used in a static one", name)
			return nil, f, nil
		}
	}
	d, amb := c.lib.lookup(name)
	if amb {
		c.errf(line, "'%s' is imported from more than one library", name)
	}
	return nil, nil, d
}

func (c *checker) ident(e *id) *rtype {
	l, m, d := c.decl(e.name, e.line)
	if l != nil {
		return l.typ()
	}
	if m != nil {
		return m.t
	}
	switch d := d.(type) {
	case *class:
		return c.cls0("Type")
	case *funcDecl:
		s := c.p.sigOf(d)
		if d.getter {
			return s.ret
		}
		return &rtype{fn: s}
	case *varDecl:
		return c.p.varType(d)
	}
	for _, tp := range c.tps {
		if tp == e.name {
			return c.cls0("Type")
		}
	}
	switch e.name {
	case "dynamic", "Null", "Never":
		return c.cls0("Type")
	}
	c.errf(e.line, "undefined name '%s'", e.name)
	return nil
}

// classOf tells whether an expression names a class.
func (c *checker) classOf(e expr) *class {
	switch e := e.(type) {
	case *id:
		if c.local(e.name) != nil {
			return nil
		}
		if c.thisT != nil {
			if m := c.p.memberOf(c.thisT, e.name, false); m != nil && (e.name[0] != '_' || m.c.lib == c.lib) {
				return nil
			}
		}
		d, _ := c.lib.lookup(e.name)
		k, _ := d.(*class)
		return k
	case *member: // prefix.Class
		if x, ok := e.x.(*id); ok && c.local(x.name) == nil && c.isPrefix(x.name) {
			d, _ := c.lib.lookup(x.name + "." + e.name)
			k, _ := d.(*class)
			return k
		}
	case *typeE:
		if e.rt == nil {
			e.rt = c.typ(e.t)
		}
		if e.rt != nil {
			return e.rt.c
		}
	}
	return nil
}

func (c *checker) isPrefix(name string) bool {
	for _, i := range c.lib.imports {
		if i.dir.prefix == name {
			return true
		}
	}
	return false
}

// receiver infers the receiver of a chain.
func (c *checker) receiver(e expr) (*rtype, bool) {
	switch e.(type) {
	case *member, *index, *call, *bang:
		return c.chain(e, nil)
	}
	return c.infer(e, nil), false
}

func (c *checker) chain(e expr, ctx *rtype) (t *rtype, short bool) {
	switch e := e.(type) {
	case *bang:
		t, short = c.receiver(e.x)
		if l := c.promotable(e.x); l != nil && !l.typ().isDyn() {
			l.prom = l.typ().nonNull()
		}
		return t.nonNull(), short
	case *index:
		t, short = c.receiver(e.x)
		i := c.infer(e.i, nil)
		if e.na {
			short = true
			t = t.nonNull()
		}
		return c.indexed(t, i, e.line), short
	case *member:
		if k := c.classOf(e.x); k != nil {
			return c.staticMember(k, e), false
		}
		if x, ok := e.x.(*id); ok && c.local(x.name) == nil && c.isPrefix(x.name) {
			return c.ident(&id{name: x.name + "." + e.name, line: e.line}), false
		}
		if _, ok := e.x.(*superE); ok {
			if c.cls == nil || c.static {
				c.errf(e.line, "'super' can't be used here")
				return nil, false
			}
			return c.property(c.cls.super, e.name, e.line), false
		}
		t, short = c.receiver(e.x)
		if e.na {
			if t != nil && t.nullable() && t.kind != "dynamic" {
				t = t.nonNull()
			}
			short = true
		}
		return c.property(t, e.name, e.line), short
	case *call:
		return c.call(e, ctx)
	}
	panic("chain")
}

func (c *checker) staticMember(k *class, e *member) *rtype {
	if e.name[0] == '_' && k.lib != c.lib {
		c.errf(e.line, "'%s.%s' is private", k.name, e.name)
		return nil
	}
	if f := k.sfuncs[e.name]; f != nil {
		return &rtype{fn: c.p.sigOf(f)}
	}
	if f := k.sgets[e.name]; f != nil {
		return c.p.sigOf(f).ret
	}
	if v := k.svars[e.name]; v != nil {
		return c.p.varType(v)
	}
	if k.ctors[e.name] != nil {
		return &rtype{fn: c.p.sigOf(k.ctors[e.name])} // a tear-off, since Dart 2.15
	}
	c.errf(e.line, "'%s' has no static member '%s'", k.name, e.name)
	return nil
}

func (c *checker) objectMember(name string) *found {
	return c.p.ownMember(c.p.world.class("Object"), name, false)
}

// property is the type of the member name of a value of type t.
func (c *checker) property(t *rtype, name string, line int) *rtype {
	if t == nil {
		return tDynamic
	}
	if t.kind == "dynamic" {
		if f := c.objectMember(name); f != nil {
			return f.t
		}
		return tDynamic
	}
	if t.kind == "Never" {
		return tNever
	}
	if t.kind == "void" {
		c.errf(line, "this expression has the type 'void' and can't be used")
		return nil
	}
	if t.nullable() {
		if f := c.objectMember(name); f != nil {
			return f.t
		}
		c.errf(line, "'%s' can't be read from '%s', which can be null", name, t)
		t = t.nonNull()
		if t.kind != "" {
			return nil
		}
	}
	if t.fn != nil {
		if name == "call" {
			return t
		}
		if f := c.objectMember(name); f != nil {
			return f.t
		}
		c.errf(line, "a function has no member '%s'", name)
		return nil
	}
	if t.tp != "" {
		if f := c.objectMember(name); f != nil {
			return f.t
		}
		c.errf(line, "'%s' has no member '%s'", t, name)
		return nil
	}
	f := c.p.memberOf(t, name, false)
	if f == nil || name[0] == '_' && f.c.lib != c.lib {
		c.errf(line, "'%s' has no getter or method '%s'", t, name)
		return nil
	}
	return f.t
}

func (c *checker) indexed(t, i *rtype, line int) *rtype {
	if t == nil || t.kind == "dynamic" {
		return tDynamic
	}
	if t.nullable() {
		c.errf(line, "'[]' can't be used on '%s', which can be null", t)
		return nil
	}
	f := c.p.memberOf(t, "[]", false)
	if f == nil {
		c.errf(line, "'%s' has no operator '[]'", t)
		return nil
	}
	if !assignable(i, f.sig.params[0].t) {
		c.errf(line, "'%s' can't be an index of '%s'", i, t)
	}
	return f.sig.ret
}

func (c *checker) call(e *call, ctx *rtype) (*rtype, bool) {
	// constructors
	if k := c.classOf(e.fn); k != nil {
		return c.create(k, "", e, ctx), false
	}
	if m, ok := e.fn.(*member); ok {
		if k := c.classOf(m.x); k != nil {
			if f := k.ctors[m.name]; f != nil && (m.name[0] != '_' || k.lib == c.lib) {
				return c.create(k, m.name, e, ctx), false
			}
		}
	}
	var t *rtype
	var short bool
	switch f := e.fn.(type) {
	case *member:
		t, short = c.chain(f, nil)
	default:
		t, short = c.receiver(e.fn)
	}
	if t == nil || t.kind == "dynamic" || t.is("Function") && !t.null {
		for _, a := range e.args {
			c.infer(a.e, nil)
		}
		return tDynamic, short
	}
	if t.nullable() {
		c.errf(e.line, "a function of type '%s', which can be null, can't be called", t)
		return nil, short
	}
	if t.fn == nil {
		if f := c.p.memberOf(t, "call", false); f != nil && f.sig != nil {
			t = f.t
		} else {
			c.errf(e.line, "'%s' is not a function", t)
			return nil, short
		}
	}
	return c.args(t.fn, nil, e, ctx), short
}

func (c *checker) create(k *class, name string, e *call, ctx *rtype) *rtype {
	f := k.ctors[name]
	if f == nil {
		c.errf(e.line, "'%s' has no constructor '%s'", k.name, name)
		return nil
	}
	if f.ctor && k.decl.abstract {
		c.errf(e.line, "the abstract class '%s' can't be created", k.name)
	}
	var explicit []*rtype
	if te, ok := e.fn.(*typeE); ok && te.rt != nil {
		explicit = te.rt.args
	}
	if m, ok := e.fn.(*member); ok {
		if te, ok := m.x.(*typeE); ok && te.rt != nil {
			explicit = te.rt.args
		}
	}
	return c.args(c.p.sigOf(f), explicit, e, ctx)
}

// args checks the arguments of a call and returns the type of its result.
func (c *checker) args(s *rsig, explicit []*rtype, e *call, ctx *rtype) *rtype {
	bind := map[string]*rtype{}
	if len(e.targs) > 0 {
		for _, t := range e.targs {
			explicit = append(explicit, c.typ(t))
		}
	}
	if len(explicit) > 0 && len(explicit) != len(s.tps) {
		c.errf(e.line, "%d type arguments are given and not %d", len(explicit), len(s.tps))
		explicit = nil
	}
	for i, t := range explicit {
		bind[s.tps[i]] = t
	}
	open := map[string]bool{}
	for _, n := range s.tps {
		if bind[n] == nil {
			open[n] = true
		}
	}
	if ctx != nil && !hasTP(ctx) && len(open) > 0 {
		// what is wanted decides first
		want := map[string]*rtype{}
		unify(s.ret, ctx, open, want)
		for n, t := range want {
			if t != nil && !t.isDyn() {
				bind[n] = t
				delete(open, n)
			}
		}
	}
	pos := positional(s.params)
	n := 0
	given := map[string]bool{}
	type job struct {
		a arg
		p rparam
	}
	var first, later []job
	for _, a := range e.args {
		var p rparam
		if a.name != "" {
			q := namedParam(s.params, a.name)
			if q == nil {
				c.errf(e.line, "there is no parameter '%s'", a.name)
				c.infer(a.e, nil)
				continue
			}
			if given[a.name] {
				c.errf(e.line, "the argument '%s' is given twice", a.name)
			}
			given[a.name] = true
			p = *q
		} else {
			if n >= len(pos) {
				c.errf(e.line, "too many arguments: %d are expected", len(pos))
				c.infer(a.e, nil)
				n++
				continue
			}
			p = pos[n]
			n++
		}
		if _, ok := a.e.(*funcE); ok {
			later = append(later, job{a, p})
		} else {
			first = append(first, job{a, p})
		}
	}
	for i := n; i < len(pos); i++ {
		if !pos[i].optional {
			c.errf(e.line, "%d arguments are given and not %d", n, len(pos))
			break
		}
	}
	for _, p := range s.params {
		if p.named && p.required && !given[p.name] {
			c.errf(e.line, "the required argument '%s' is missing", p.name)
		}
	}
	do := func(j job) {
		want := subst(j.p.t, bind)
		got := c.inferArg(j.a.e, want, open)
		if len(open) > 0 {
			unify(want, got, open, bind)
		}
		want = subst(j.p.t, bind)
		want = eraseOpen(want, open, bind)
		if got != nil && got.kind == "void" && !want.isTop() {
			c.errf(e.line, "this expression has the type 'void' and can't be used")
			return
		}
		if !assignable(got, want) {
			c.errf(e.line, "an argument of type '%s' can't be given for the parameter '%s' of type '%s'", got, j.p.name, want)
		}
	}
	for _, j := range first {
		do(j)
	}
	for _, j := range later {
		do(j)
	}
	e.bound = nil
	for _, tp := range s.tps {
		t := bind[tp]
		if t == nil {
			t = tDynamic
			bind[tp] = t
		}
		e.bound = append(e.bound, t)
	}
	return subst(s.ret, bind)
}

// inferArg infers an argument for a parameter whose type may still have open type parameters.
func (c *checker) inferArg(e expr, want *rtype, open map[string]bool) *rtype {
	if f, ok := e.(*funcE); ok {
		return c.closure(f.f, want)
	}
	return c.infer(e, want)
}

func eraseOpen(t *rtype, open map[string]bool, bind map[string]*rtype) *rtype {
	m := map[string]*rtype{}
	for n := range open {
		if bind[n] == nil {
			m[n] = tDynamic
		}
	}
	return subst(t, m)
}

// unify finds the type parameters in p that make it a.
func unify(p, a *rtype, open map[string]bool, bind map[string]*rtype) {
	if p == nil || a == nil {
		return
	}
	if p.tp != "" && open[p.tp] {
		if p.null {
			a = a.nonNull()
			if a.kind == "Never" {
				return
			}
		}
		if old := bind[p.tp]; old != nil {
			if l := lub(old, a); l != nil {
				a = l
			} else {
				a = old
			}
		}
		bind[p.tp] = a
		return
	}
	switch {
	case p.fn != nil && a.fn != nil:
		unify(p.fn.ret, a.fn.ret, open, bind)
		pp, ap := positional(p.fn.params), positional(a.fn.params)
		for i := range pp {
			if i < len(ap) {
				unify(pp[i].t, ap[i].t, open, bind)
			}
		}
	case p.c != nil && a.c != nil:
		if s := asClass(a, p.c); s != nil {
			for i := range p.args {
				if i < len(s.args) {
					unify(p.args[i], s.args[i], open, bind)
				}
			}
		}
	}
}

// closure infers a function expression with the wanted function type.
func (c *checker) closure(f *funcDecl, want *rtype) *rtype {
	var w *rsig
	if want != nil && want.fn != nil {
		w = want.fn
	}
	s := &rsig{tps: f.tparams}
	n := 0
	var wp []rparam
	if w != nil {
		wp = positional(w.params)
	}
	for _, x := range f.params {
		t := tDynamic
		switch {
		case x.typ != nil:
			t = c.typ(x.typ)
		case w != nil && x.named:
			if q := namedParam(w.params, x.name); q != nil && !hasTP(q.t) {
				t = q.t
			}
		case n < len(wp):
			if !hasTP(wp[n].t) {
				t = wp[n].t
			}
		}
		if !x.named {
			n++
		}
		s.params = append(s.params, rparam{name: x.name, t: t, named: x.named, optional: x.optional, required: x.required})
	}
	if w != nil && !hasTP(w.ret) && !w.ret.isDyn() {
		s.ret = w.ret
		if f.async && s.ret.kind == "void" {
			s.ret = nil
		}
	}
	f.sig = s
	save := c.static
	got := c.closureBody(f, s)
	c.static = save
	r := *s
	if got == nil {
		got = tDynamic
	}
	if s.ret != nil && s.ret.kind == "void" {
		got = tVoid
	}
	if s.ret != nil && !subtype(got, s.ret) && assignable(c.flatten(got), c.flatten(s.ret)) {
		got = s.ret // what is dynamic is cast
	}
	r.ret = got
	return &rtype{fn: &r}
}

func (c *checker) binary(e *binary, ctx *rtype) *rtype {
	boolT := c.cls0("bool")
	switch e.op {
	case "&&", "||":
		c.boolean(e.l, "an operand of '"+e.op+"'")
		c.with(c.facts(e.l, e.op == "&&"), func() { c.boolean(e.r, "an operand of '"+e.op+"'") })
		return boolT
	case "==", "!=":
		a, b := c.infer(e.l, nil), c.infer(e.r, nil)
		if a != nil && a.kind == "void" || b != nil && b.kind == "void" {
			c.errf(e.line, "this expression has the type 'void' and can't be used")
		}
		return boolT
	case "??":
		a := c.infer(e.l, ctx.orNull())
		want := ctx
		if want == nil && a != nil && !a.isDyn() {
			want = a.nonNull()
			if want.kind != "" {
				want = nil
			}
		}
		b := c.infer(e.r, want)
		if a == nil || b == nil {
			return nil
		}
		if a.kind == "dynamic" {
			return tDynamic
		}
		return c.join(a.nonNull(), b, ctx)
	}
	var lctx *rtype
	if ctx.is("double") {
		lctx = ctx
	}
	a := c.infer(e.l, lctx)
	if a == nil || a.kind == "dynamic" {
		c.infer(e.r, nil)
		if e.op == "<" || e.op == ">" || e.op == "<=" || e.op == ">=" {
			return boolT
		}
		return tDynamic
	}
	if a.nullable() {
		c.errf(e.line, "the operator '%s' can't be used on '%s', which can be null", e.op, a)
		c.infer(e.r, nil)
		return nil
	}
	num := c.p.world.class("num")
	if asClass(a, num) != nil {
		var rctx *rtype
		if a.is("double") {
			rctx = a
		}
		b := c.infer(e.r, rctx)
		if !assignable(b, &rtype{c: num}) {
			c.errf(e.line, "'%s' can't be the right operand of '%s' on '%s'", b, e.op, a)
			return nil
		}
		switch e.op {
		case "<", ">", "<=", ">=":
			return boolT
		case "/":
			return c.cls0("double")
		case "~/":
			return c.cls0("int")
		case "|", "&", "^", "<<", ">>":
			if !a.is("int") || b != nil && !b.isDyn() && !b.is("int") {
				c.errf(e.line, "'%s' needs integers and not '%s' and '%s'", e.op, a, b)
			}
			return c.cls0("int")
		}
		if a.is("int") && b.is("int") {
			return a
		}
		if a.is("double") || b.is("double") {
			return c.cls0("double")
		}
		return c.cls0("num")
	}
	f := c.p.memberOf(a, e.op, false)
	if f == nil || f.sig == nil {
		c.errf(e.line, "'%s' has no operator '%s'", a, e.op)
		c.infer(e.r, nil)
		return nil
	}
	b := c.infer(e.r, f.sig.params[0].t)
	if !assignable(b, f.sig.params[0].t) {
		c.errf(e.line, "'%s' can't be the right operand of '%s' on '%s'", b, e.op, a)
	}
	return f.sig.ret
}

func (c *checker) assign(e *assign) *rtype {
	want := c.assignTo(e.l, nil, e.line)
	if e.op != "=" {
		t := c.infer(e.l, nil)
		if e.op == "??=" {
			r := c.infer(e.r, want)
			c.fits(e.r, r, want, e.line, "the target")
			if t != nil && r != nil && !t.isDyn() {
				return c.join(t.nonNull(), r, want)
			}
			return tDynamic
		}
		r := c.binary(&binary{op: e.op[:len(e.op)-1], l: e.l, r: e.r, line: e.line}, nil)
		c.fits(e.r, r, want, e.line, "the target")
		return r
	}
	r := c.infer(e.r, want)
	if r != nil && r.kind == "void" && !want.isTop() {
		c.errf(e.line, "this expression has the type 'void' and can't be used")
		return nil
	}
	c.fits(e.r, r, want, e.line, "the target")
	if x, ok := e.l.(*id); ok {
		if l := c.local(x.name); l != nil {
			l.prom = nil
			if l.t != nil && l.t.null && r != nil && !r.nullable() {
				l.prom = l.t.nonNull()
			}
		}
	}
	if want.isDyn() && r == nil {
		return tDynamic
	}
	return r
}

// assignTo is the type that the target of an assignment takes.
func (c *checker) assignTo(e expr, _ *rtype, line int) *rtype {
	switch e := e.(type) {
	case *id:
		if l := c.local(e.name); l != nil {
			if l.final {
				c.errf(line, "'%s' is final and can't be assigned to", e.name)
			}
			return l.t
		}
		if c.cls != nil {
			if v := c.cls.svars[e.name]; v != nil {
				if v.final || v.konst {
					c.errf(line, "'%s' is final and can't be assigned to", e.name)
				}
				return c.p.varType(v)
			}
			if c.thisT != nil {
				if f := c.p.memberOf(c.thisT, e.name, true); f != nil {
					return f.t
				}
				if f := c.p.memberOf(c.thisT, e.name, false); f != nil {
					c.errf(line, "'%s' has no setter and can't be assigned to", e.name)
					return nil
				}
			}
		}
		d, _ := c.lib.lookup(e.name)
		if v, ok := d.(*varDecl); ok {
			if v.final || v.konst {
				c.errf(line, "'%s' is final and can't be assigned to", e.name)
			}
			return c.p.varType(v)
		}
		if f := c.lib.setters[e.name]; f != nil {
			return c.p.sigOf(f).params[0].t
		}
		c.errf(line, "undefined name '%s'", e.name)
		return nil
	case *member:
		if k := c.classOf(e.x); k != nil {
			if v := k.svars[e.name]; v != nil && !v.final && !v.konst {
				return c.p.varType(v)
			}
			c.errf(line, "'%s.%s' can't be assigned to", k.name, e.name)
			return nil
		}
		t, _ := c.receiver(e.x)
		return c.setterOf(t, e, line)
	case *index:
		t, _ := c.receiver(e.x)
		i := c.infer(e.i, nil)
		if t == nil || t.kind == "dynamic" {
			return tDynamic
		}
		if t.nullable() && !e.na {
			c.errf(line, "'[]=' can't be used on '%s', which can be null", t)
			return nil
		}
		f := c.p.memberOf(t, "[]=", false)
		if f == nil {
			c.errf(line, "'%s' has no operator '[]='", t)
			return nil
		}
		if !assignable(i, f.sig.params[0].t) {
			c.errf(line, "'%s' can't be an index of '%s'", i, t)
		}
		return f.sig.params[1].t
	}
	return nil
}

func (c *checker) setterOf(t *rtype, e *member, line int) *rtype {
	if t == nil || t.kind == "dynamic" {
		return tDynamic
	}
	if e.na {
		t = t.nonNull()
	}
	if t.nullable() {
		c.errf(line, "'%s' can't be set on '%s', which can be null", e.name, t)
		return nil
	}
	f := c.p.memberOf(t, e.name, true)
	if f == nil {
		c.errf(line, "'%s' has no setter '%s'", t, e.name)
		return nil
	}
	return f.t
}

func (c *checker) cascadeOp(e expr, t *rtype) *rtype {
	// the target of the cascade is put in as a local variable
	c.push()
	defer c.pop()
	c.scopes[len(c.scopes)-1][""] = &local{t: t}
	switch e := e.(type) {
	case *assign:
		want := c.assignTo(e.l, nil, e.line)
		c.fits(e.r, c.infer(e.r, want), want, e.line, "the target")
		return want
	}
	return c.infer(e, nil)
}

func replaceTarget(e expr) expr {
	switch e := e.(type) {
	case *cascadeTarget:
		return &id{name: ""}
	case *member:
		n := *e
		n.x = replaceTarget(e.x)
		return &n
	case *index:
		n := *e
		n.x = replaceTarget(e.x)
		return &n
	case *call:
		n := *e
		n.fn = replaceTarget(e.fn)
		return &n
	}
	return e
}

func (c *checker) elemType(el *elem, ctx *rtype) *rtype {
	switch el.kind {
	case "spread":
		t := c.infer(el.val, nil)
		if t.isDyn() {
			return tDynamic
		}
		i := asClass(t.nonNull(), c.p.world.class("Iterable"))
		if i == nil || t.nullable() && !el.null {
			c.errf(lineOfExpr(el.val), "'%s' can't be spread", t)
			return nil
		}
		return i.args[0]
	case "if":
		c.boolean(el.cond, "a condition")
		var a *rtype
		c.with(c.facts(el.cond, true), func() { a = c.elemType(el.then, ctx) })
		if el.els != nil {
			b := c.elemType(el.els, ctx)
			return c.join(a, b, ctx)
		}
		return a
	case "for":
		t := c.iterated(el.in, 0)
		if el.typ != nil {
			t = c.typ(el.typ)
		}
		c.push()
		defer c.pop()
		c.declare(el.name, t, 0, false)
		return c.elemType(el.then, ctx)
	}
	return c.infer(el.val, ctx)
}

func (c *checker) list(e *listE, ctx *rtype) *rtype {
	var el *rtype
	if e.t != nil {
		el = c.typ(e.t)
	} else if ctx != nil && ctx.c != nil {
		l := c.cls0("List", &rtype{tp: "E"})
		bind := map[string]*rtype{}
		up := asClass(&rtype{c: l.c, args: l.args}, ctx.c)
		if up != nil {
			unify(up, ctx.nonNull(), map[string]bool{"E": true}, bind)
			el = bind["E"]
		}
	}
	var got *rtype
	for i := range e.elems {
		t := c.elemType(&e.elems[i], el)
		if el != nil && !assignable(t, el) {
			c.errf(e.line, "an element of type '%s' can't be in a list of '%s'", t, el)
		}
		if i == 0 {
			got = t
		} else {
			got = c.join(got, t, nil)
		}
	}
	if el == nil {
		el = got
	}
	if el == nil {
		el = tDynamic
	}
	e.rt = el
	return c.cls0("List", el)
}

func (c *checker) mapLit(e *mapE, ctx *rtype) *rtype {
	var k, v *rtype
	if e.typed {
		k = c.typ(e.k)
		if !e.isSet {
			v = c.typ(e.v)
		}
	} else if ctx != nil && ctx.c != nil {
		if ctx.is("Map") && len(ctx.args) == 2 && !e.isSet {
			k, v = ctx.args[0], ctx.args[1]
		} else if (ctx.is("Set") || ctx.is("Iterable")) && len(ctx.args) == 1 && (e.isSet || len(e.elems) == 0) {
			e.isSet = true
			k = ctx.args[0]
		}
	}
	var gk, gv *rtype
	var one func(el *elem)
	n := 0
	one = func(el *elem) {
		switch el.kind {
		case "if":
			c.boolean(el.cond, "a condition")
			c.with(c.facts(el.cond, true), func() { one(el.then) })
			if el.els != nil {
				one(el.els)
			}
			return
		case "for":
			t := c.iterated(el.in, 0)
			c.push()
			c.declare(el.name, t, 0, false)
			one(el.then)
			c.pop()
			return
		case "spread":
			c.infer(el.val, nil)
			return
		}
		var tk, tv *rtype
		if e.isSet {
			tk = c.infer(el.val, k)
		} else {
			tk, tv = c.infer(el.key, k), c.infer(el.val, v)
		}
		if k != nil && !assignable(tk, k) {
			c.errf(e.line, "a key of type '%s' can't be in a map of '%s'", tk, k)
		}
		if v != nil && !e.isSet && !assignable(tv, v) {
			c.errf(e.line, "a value of type '%s' can't be in a map of '%s'", tv, v)
		}
		if tv != nil && tv.kind == "void" {
			c.errf(e.line, "this expression has the type 'void' and can't be used")
		}
		if n == 0 {
			gk, gv = tk, tv
		} else {
			gk = c.join(gk, tk, nil)
			if !e.isSet {
				gv = c.join(gv, tv, nil)
			}
		}
		n++
	}
	for i := range e.elems {
		one(&e.elems[i])
	}
	if k == nil {
		k = gk
	}
	if k == nil {
		k = tDynamic
	}
	if e.isSet {
		e.rk = k
		return c.cls0("Set", k)
	}
	if v == nil {
		v = gv
	}
	if v == nil {
		v = tDynamic
	}
	e.rk, e.rv = k, v
	return c.cls0("Map", k, v)
}
