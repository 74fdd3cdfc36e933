package dart

import (
	"path"
	"strings"
)

func (p *Program) library(uri string, from *library, line int) *library {
	if l := p.world.libs[uri]; l != nil {
		return l
	}
	if l, ok := p.libs[uri]; ok {
		return l
	}
	src, ok := p.files[uri]
	if !ok {
		if from != nil {
			p.report(from, line, "the imported file '%s' does not exist", uri)
		}
		return nil
	}
	l := &library{uri: uri, prog: p}
	p.libs[uri] = l
	p.fill(l, src)
	return l
}

// fill parses a library and declares what is in it.
func (p *Program) fill(l *library, src string) {
	l.decls, l.setters = map[string]any{}, map[string]*funcDecl{}
	u, err := parseUnit(l.uri, src)
	if err != nil {
		e := err.(*SyntaxError)
		l.unit = &unit{file: l.uri}
		p.report(l, e.Line, "syntax: %s", e.Msg)
		return
	}
	l.unit = u
	for _, d := range u.decls {
		var name string
		var line int
		var v any
		switch d := d.(type) {
		case *classDecl:
			c := &class{name: d.name, decl: d, lib: l}
			d.c, d.lib = c, l
			name, line, v = d.name, d.line, c
		case *funcDecl:
			d.lib = l
			name, line, v = d.name, d.line, d
			if d.setter {
				if l.setters[name] != nil {
					p.report(l, line, "the name '%s' is already defined", name)
				}
				l.setters[name] = d
				continue
			}
		case *varDecl:
			d.lib = l
			name, line, v = d.name, d.line, d
		}
		if _, dup := l.decls[name]; dup {
			p.report(l, line, "the name '%s' is already defined", name)
		}
		l.decls[name] = v
	}
	for _, d := range u.dirs {
		target := d.uri
		if !strings.Contains(target, ":") {
			target = path.Join(path.Dir(l.uri), target)
			if strings.HasPrefix(target, "..") {
				target = d.uri
			}
		}
		if strings.Contains(target, ":") && p.world.libs[target] == nil {
			p.report(l, d.line, "unknown library '%s'", target)
			continue
		}
		if t := p.library(target, l, d.line); t != nil {
			l.imports = append(l.imports, &imported{t, d})
		}
	}
}

// exported finds a name among those a library gives to the libraries that import it.
func exported(l *library, name string, seen map[*library]bool) any {
	if strings.HasPrefix(name, "_") || seen[l] {
		return nil
	}
	seen[l] = true
	if d, ok := l.decls[name]; ok {
		return d
	}
	for _, i := range l.imports {
		if i.dir.export && visible(i.dir, name) {
			if d := exported(i.lib, name, seen); d != nil {
				return d
			}
		}
	}
	return nil
}

func visible(d *directive, name string) bool {
	return (d.show == nil || d.show[name]) && !d.hide[name]
}

// lookup finds a name that a library can see. ambiguous is set when two imports give it different meanings.
func (l *library) lookup(name string) (d any, ambiguous bool) {
	if d, ok := l.decls[name]; ok {
		return d, false
	}
	prefix, rest, isPrefixed := strings.Cut(name, ".")
	for _, i := range l.imports {
		if i.dir.export {
			continue
		}
		n := name
		if i.dir.prefix != "" {
			if !isPrefixed || prefix != i.dir.prefix {
				continue
			}
			n = rest
		}
		if !visible(i.dir, n) {
			continue
		}
		x := exported(i.lib, n, map[*library]bool{})
		if x == nil || x == d {
			continue
		}
		if d != nil {
			// what a library of the system declares is hidden by what another library declares
			ld, lx := strings.HasPrefix(libOf(d).uri, "dart:"), strings.HasPrefix(libOf(x).uri, "dart:")
			if ld && !lx {
				d = x
				continue
			}
			if lx && !ld {
				continue
			}
			return nil, true
		}
		d = x
	}
	if d == nil && !l.core && !isPrefixed {
		if theWorld != nil && theWorld.core != nil {
			d = exported(theWorld.core, name, map[*library]bool{})
		}
	}
	return d, false
}

func libOf(d any) *library {
	switch d := d.(type) {
	case *class:
		return d.lib
	case *funcDecl:
		return d.lib
	case *varDecl:
		return d.lib
	}
	return nil
}

func (p *Program) typeOf(l *library, tps []string, t *typeX) *rtype {
	if t == nil {
		return tDynamic
	}
	if t.fn != nil {
		sig := &rsig{ret: p.typeOf(l, tps, t.fn.ret)}
		for _, x := range t.fn.params {
			sig.params = append(sig.params, rparam{name: x.name, t: p.typeOf(l, tps, x.typ), named: x.named, optional: x.optional, required: x.required})
		}
		return &rtype{fn: sig, null: t.null}
	}
	switch t.name {
	case "dynamic":
		return tDynamic
	case "void":
		return tVoid
	case "Never":
		return tNever
	case "Null":
		return tNull
	}
	for i := len(tps) - 1; i >= 0; i-- {
		if tps[i] == t.name {
			return &rtype{tp: t.name, null: t.null}
		}
	}
	d, amb := l.lookup(t.name)
	if amb {
		p.report(l, t.line, "'%s' is imported from more than one library", t.name)
		return nil
	}
	c, ok := d.(*class)
	if !ok {
		if d == nil {
			p.report(l, t.line, "undefined class '%s'", t.name)
		} else {
			p.report(l, t.line, "'%s' is not a type", t.name)
		}
		return nil
	}
	r := &rtype{c: c, null: t.null}
	if len(t.args) > 0 && len(t.args) != len(c.decl.tparams) {
		p.report(l, t.line, "'%s' has %d type parameters and not %d", t.name, len(c.decl.tparams), len(t.args))
		return nil
	}
	for i := range c.decl.tparams {
		if i < len(t.args) {
			r.args = append(r.args, p.typeOf(l, tps, t.args[i]))
		} else {
			r.args = append(r.args, tDynamic)
		}
	}
	return r
}

// resolve fills the tables of the classes of a library.
func (p *Program) resolve(l *library) {
	for _, d := range l.unit.decls {
		cd, ok := d.(*classDecl)
		if !ok {
			continue
		}
		c := cd.c
		c.methods, c.getters, c.setters = map[string]*funcDecl{}, map[string]*funcDecl{}, map[string]*funcDecl{}
		c.ctors, c.sfuncs, c.sgets = map[string]*funcDecl{}, map[string]*funcDecl{}, map[string]*funcDecl{}
		c.vars, c.svars = map[string]*varDecl{}, map[string]*varDecl{}
		if cd.super != nil {
			c.super = p.typeOf(l, cd.tparams, cd.super)
		} else if !(l.core && c.name == "Object") {
			c.super = &rtype{c: p.world.class("Object")}
		}
		if len(cd.with) > 0 {
			p.report(l, cd.line, "this reader of Dart does not know 'with'")
		}
		seen := map[*class]bool{}
		for _, i := range cd.ifaces {
			t := p.typeOf(l, cd.tparams, i)
			if t == nil {
				continue
			}
			if t.c == nil || t.null {
				p.report(l, i.line, "'%s' can't be implemented", t)
				continue
			}
			if seen[t.c] {
				p.report(l, i.line, "'%s' can only be implemented once", t.c.name)
				continue
			}
			seen[t.c] = true
			c.ifaces = append(c.ifaces, t)
		}
		names := map[string]string{} // name to what it is
		declare := func(name, what string, line int) {
			key := name
			if what == "setter" {
				key = name + "="
			}
			if what == "constructor" {
				key = "new " + name
			}
			if names[key] != "" {
				p.report(l, line, "the name '%s' is already defined in '%s'", name, c.name)
			}
			names[key] = what
			if what != "constructor" && name == c.name {
				p.report(l, line, "a member can't have the name of its class '%s'", name)
			}
		}
		for _, m := range cd.members {
			switch m := m.(type) {
			case *funcDecl:
				m.lib, m.owner = l, c
				switch {
				case m.ctor || m.factory:
					declare(m.name, "constructor", m.line)
					c.ctors[m.name] = m
				case m.static && m.getter:
					declare(m.name, "getter", m.line)
					c.sgets[m.name] = m
				case m.static && m.setter:
					p.report(l, m.line, "this reader of Dart does not know static setters")
				case m.static:
					declare(m.name, "method", m.line)
					c.sfuncs[m.name] = m
				case m.getter:
					declare(m.name, "getter", m.line)
					c.getters[m.name] = m
				case m.setter:
					declare(m.name, "setter", m.line)
					c.setters[m.name] = m
				default:
					declare(m.name, "method", m.line)
					c.methods[m.name] = m
				}
			case *varDecl:
				m.lib, m.owner = l, c
				declare(m.name, "field", m.line)
				if !m.final && !m.konst {
					declare(m.name, "setter", m.line)
				}
				if m.static {
					c.svars[m.name] = m
				} else {
					if m.konst {
						p.report(l, m.line, "only static fields can be const")
					}
					c.vars[m.name] = m
					c.fields = append(c.fields, m)
				}
			}
		}
		if len(c.ctors) == 0 {
			c.ctors[""] = &funcDecl{ctor: true, owner: c, lib: l, sig: &rsig{ret: thisType(c), tps: cd.tparams}, line: cd.line}
		}
		for name, what := range names {
			// the name of a constructor can't be that of a static member
			if what == "constructor" && strings.HasPrefix(name, "new ") && name != "new " {
				n := name[4:]
				if c.sfuncs[n] != nil || c.svars[n] != nil || c.sgets[n] != nil {
					p.report(l, cd.line, "'%s.%s' is a constructor and a static member", c.name, n)
				}
			}
		}
		// a static and an instance member can't have the same name
		for n := range c.sfuncs {
			if c.methods[n] != nil || c.vars[n] != nil || c.getters[n] != nil {
				p.report(l, cd.line, "'%s' is static and not static in '%s'", n, c.name)
			}
		}
		// a method can't have the name of a setter
		for n := range c.setters {
			if c.methods[n] != nil {
				p.report(l, cd.line, "'%s' is a method and a setter in '%s'", n, c.name)
			}
		}
	}
}

func (p *Program) cycles(l *library) {
	for _, d := range l.unit.decls {
		if cd, ok := d.(*classDecl); ok && cycle(cd.c, cd.c, map[*class]bool{}) {
			p.report(l, cd.line, "'%s' is a supertype of itself", cd.name)
			cd.c.ifaces = nil
			cd.c.super = &rtype{c: p.world.class("Object")}
		}
	}
}

func cycle(from, c *class, seen map[*class]bool) bool {
	if seen[c] {
		return false
	}
	seen[c] = true
	var next []*rtype
	if c.super != nil {
		next = append(next, c.super)
	}
	next = append(next, c.ifaces...)
	for _, n := range next {
		if n.c == nil {
			continue
		}
		if n.c == from || cycle(from, n.c, seen) {
			return true
		}
	}
	return false
}
