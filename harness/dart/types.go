package dart

import (
	"fmt"
	"sort"
	"strings"
)

// rtype is a resolved type. Exactly one of kind, c, tp and fn is set.
type rtype struct {
	kind string // dynamic, void, Never, Null
	c    *class
	args []*rtype
	tp   string
	fn   *rsig
	null bool
}

type rsig struct {
	ret    *rtype
	params []rparam
	tps    []string
}

type rparam struct {
	name     string
	t        *rtype
	named    bool
	optional bool
	required bool
	cov      bool
}

var (
	tDynamic = &rtype{kind: "dynamic"}
	tVoid    = &rtype{kind: "void"}
	tNever   = &rtype{kind: "Never"}
	tNull    = &rtype{kind: "Null", null: true}
)

type class struct {
	name    string
	decl    *classDecl
	lib     *library
	super   *rtype
	ifaces  []*rtype
	fields  []*varDecl // own instance fields
	methods map[string]*funcDecl
	getters map[string]*funcDecl
	setters map[string]*funcDecl
	vars    map[string]*varDecl // own instance fields by name
	ctors   map[string]*funcDecl
	sfuncs  map[string]*funcDecl
	sgets   map[string]*funcDecl
	svars   map[string]*varDecl
}

func (t *rtype) String() string {
	if t == nil {
		return "?unknown"
	}
	q := ""
	if t.null && t.kind != "Null" {
		q = "?"
	}
	switch {
	case t.kind != "":
		return t.kind
	case t.tp != "":
		return t.tp + q
	case t.fn != nil:
		var ps []string
		for _, p := range t.fn.params {
			s := p.t.String()
			if p.named {
				s += " " + p.name
			}
			if p.optional && !p.named {
				s = "[" + s + "]"
			}
			ps = append(ps, s)
		}
		return t.fn.ret.String() + " Function(" + strings.Join(ps, ", ") + ")" + q
	}
	s := t.c.name
	if len(t.args) > 0 {
		var as []string
		for _, a := range t.args {
			as = append(as, a.String())
		}
		s += "<" + strings.Join(as, ", ") + ">"
	}
	return s + q
}

func (t *rtype) isDyn() bool { return t == nil || t.kind == "dynamic" }

// top types take every value
func (t *rtype) isTop() bool {
	return t == nil || t.kind == "dynamic" || t.kind == "void" || t.c != nil && t.c.name == "Object" && t.null
}

func (t *rtype) nullable() bool {
	return t == nil || t.null || t.kind == "dynamic" || t.kind == "void" || t.kind == "Null"
}

func (t *rtype) nonNull() *rtype {
	if t == nil || !t.null {
		return t
	}
	if t.kind == "Null" {
		return tNever
	}
	n := *t
	n.null = false
	return &n
}

func (t *rtype) orNull() *rtype {
	if t == nil || t.null || t.kind == "dynamic" || t.kind == "void" {
		return t
	}
	if t.kind == "Never" {
		return tNull
	}
	n := *t
	n.null = true
	return &n
}

func (t *rtype) is(name string) bool {
	return t != nil && t.c != nil && t.c.name == name && t.c.lib.core
}

func subst(t *rtype, m map[string]*rtype) *rtype {
	if t == nil || len(m) == 0 {
		return t
	}
	switch {
	case t.tp != "":
		r, ok := m[t.tp]
		if !ok {
			return t
		}
		if t.null {
			return r.orNull()
		}
		return r
	case t.fn != nil:
		n := *t
		s := *t.fn
		s.ret = subst(s.ret, m)
		s.params = append([]rparam(nil), s.params...)
		for i := range s.params {
			s.params[i].t = subst(s.params[i].t, m)
		}
		n.fn = &s
		return &n
	case len(t.args) > 0:
		n := *t
		n.args = make([]*rtype, len(t.args))
		for i, a := range t.args {
			n.args[i] = subst(a, m)
		}
		return &n
	}
	return t
}

func bindings(t *rtype) map[string]*rtype {
	if t == nil || t.c == nil || len(t.c.decl.tparams) == 0 {
		return nil
	}
	m := map[string]*rtype{}
	for i, n := range t.c.decl.tparams {
		if i < len(t.args) {
			m[n] = t.args[i]
		} else {
			m[n] = tDynamic
		}
	}
	return m
}

// supers returns the direct supertypes with the type arguments put in.
func supers(t *rtype) []*rtype {
	var out []*rtype
	m := bindings(t)
	if t.c.super != nil {
		out = append(out, subst(t.c.super, m))
	}
	for _, i := range t.c.ifaces {
		out = append(out, subst(i, m))
	}
	return out
}

// asClass finds the supertype of t that is an instance of class c.
func asClass(t *rtype, c *class) *rtype {
	if t == nil || t.c == nil {
		return nil
	}
	if t.c == c {
		return t
	}
	for _, s := range supers(t) {
		if r := asClass(s, c); r != nil {
			return r
		}
	}
	return nil
}

func sameType(a, b *rtype) bool { return subtype(a, b) && subtype(b, a) }

// subtype follows the rules of sound null safety. Unknown types are taken to fit.
func subtype(a, b *rtype) bool {
	if a == nil || b == nil || b.isTop() {
		return true
	}
	if a.kind == "Never" {
		return true
	}
	if a.kind == "dynamic" || a.kind == "void" {
		return false // only top types, see above
	}
	if a.nullable() && !b.nullable() {
		return false
	}
	if a.kind == "Null" {
		return b.nullable()
	}
	if b.kind == "Null" || b.kind == "Never" {
		return false
	}
	if b.c != nil && b.c.name == "Object" && b.c.lib.core {
		return true
	}
	switch {
	case a.tp != "" || b.tp != "":
		return a.tp == b.tp
	case a.fn != nil && b.fn != nil:
		return subSig(a.fn, b.fn)
	case a.fn != nil:
		return b.is("Function")
	case b.fn != nil:
		return false
	}
	s := asClass(a, b.c)
	if s == nil {
		return false
	}
	for i := range b.args {
		if i < len(s.args) && !subtype(s.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func subSig(a, b *rsig) bool {
	if b.ret != nil && b.ret.kind != "void" && !subtype(a.ret, b.ret) {
		return false
	}
	ap, bp := positional(a.params), positional(b.params)
	for i, p := range bp {
		if i >= len(ap) {
			return false
		}
		if p.optional && !ap[i].optional {
			return false
		}
		if !subtype(p.t, ap[i].t) {
			return false
		}
	}
	for i := len(bp); i < len(ap); i++ {
		if !ap[i].optional {
			return false
		}
	}
	for _, p := range b.params {
		if p.named {
			q := namedParam(a.params, p.name)
			if q == nil || !subtype(p.t, q.t) {
				return false
			}
		}
	}
	for _, q := range a.params {
		if q.named && q.required && namedParam(b.params, q.name) == nil {
			return false
		}
	}
	return true
}

func positional(l []rparam) []rparam {
	var out []rparam
	for _, p := range l {
		if !p.named {
			out = append(out, p)
		}
	}
	return out
}

func namedParam(l []rparam, name string) *rparam {
	for i := range l {
		if l[i].named && l[i].name == name {
			return &l[i]
		}
	}
	return nil
}

// assignable adds the implicit downcast from dynamic.
func assignable(a, b *rtype) bool {
	if a == nil || b == nil || a.kind == "dynamic" {
		return true
	}
	if a.kind == "void" {
		return b.isTop()
	}
	return subtype(a, b)
}

// lub is the least upper bound, as far as the generated code needs it.
func lub(a, b *rtype) *rtype {
	if a == nil || b == nil {
		return nil
	}
	if subtype(a, b) {
		return b
	}
	if subtype(b, a) {
		return a
	}
	if a.kind == "Null" {
		return b.orNull()
	}
	if b.kind == "Null" {
		return a.orNull()
	}
	if a.c != nil && b.c != nil {
		null := a.null || b.null
		var best *rtype
		depth := -1
		for _, s := range allSupers(a.nonNull()) {
			if t := asClass(b.nonNull(), s.c); t != nil && sameType(s, t) {
				if d := classDepth(s.c); d > depth {
					best, depth = s, d
				}
			}
		}
		if best != nil && null {
			return best.orNull()
		}
		return best
	}
	return nil
}

func allSupers(t *rtype) []*rtype {
	out := []*rtype{t}
	for _, s := range supers(t) {
		out = append(out, allSupers(s)...)
	}
	return out
}

func classDepth(c *class) int {
	d := 0
	if c.super != nil {
		d = 1 + classDepth(c.super.c)
	}
	for _, i := range c.ifaces {
		if x := 1 + classDepth(i.c); x > d {
			d = x
		}
	}
	return d
}

// ---- libraries

type library struct {
	uri     string
	unit    *unit
	decls   map[string]any // *class, *funcDecl, *varDecl
	setters map[string]*funcDecl
	imports []*imported
	core    bool // dart:core
	stub    bool
	prog    *Program
}

type imported struct {
	lib *library
	dir *directive
}

// Problem is something that a Dart compiler or run would report.
type Problem struct {
	File string
	Line int
	Msg  string
}

func (p *Problem) Error() string {
	if p.File == "" {
		return p.Msg
	}
	return fmt.Sprintf("%s:%d: %s", p.File, p.Line, p.Msg)
}

// Program is a set of libraries.
type Program struct {
	files map[string]string
	libs  map[string]*library
	errs  []*Problem
	world *world
}

func (p *Program) report(lib *library, line int, format string, args ...any) {
	p.errs = append(p.errs, &Problem{File: lib.uri, Line: line, Msg: fmt.Sprintf(format, args...)})
}

// Load reads files (path relative to a root, with slashes, to text) and checks all of them.
// The problems come in the order of the files.
func Load(files map[string]string) (*Program, []*Problem) {
	p := &Program{files: files, libs: map[string]*library{}}
	p.world = newWorld(p)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p.library(n, nil, 0)
	}
	if len(p.errs) > 0 {
		return p, p.errs
	}
	for _, n := range names {
		p.resolve(p.libs[n])
	}
	for _, n := range names {
		p.cycles(p.libs[n])
	}
	if len(p.errs) > 0 {
		return p, p.errs
	}
	for _, n := range names {
		p.check(p.libs[n])
	}
	return p, p.errs
}
