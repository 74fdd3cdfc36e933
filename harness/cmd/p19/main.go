// P19: generated Dart is well formed and faithful. There is no Dart SDK here, so the generated files are read, checked and
// run by package dart, which knows the part of the language that is generated. Every schema of the enumerated families is
// compiled; what the files declare is compared with the schema, clients and routers are called; and every assignment of
// boundary values to the data types of dunits goes through toMap, fromMap, copy, copyWith, == and hashCode.
package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/dunits"
	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/schemas"
	"verif/harness/sem"
)

// letters are names that no identifier of Dart can be, see the known findings.
var letters = []string{"é", "a名", "aé", "名字"}

func main() {
	guard.Main("P19", func(c *ev.Check, g *guard.Guard) { static(c, g); units(c, g) }, func(kind byte, data string) {})
}

func static(c *ev.Check, g *guard.Guard) {
	var ss []schemas.Schema
	for _, s := range schemas.Of(c.Thorough()) {
		switch s.Family {
		case "verify", "db", "dbfields": // nothing of these tags is in these files
			if len(ss)%10 != 0 && len(s.Key)%17 != 0 {
				continue
			}
		}
		ss = append(ss, s)
	}
	for _, n := range letters {
		ss = append(ss, schemas.Schema{Family: "letters", Key: "letters:" + n, Files: map[string]string{"a.hbuf": schemas.Head("p") + "data D {\n string " + n + " = 1\n}\n"}})
	}
	g.Par(c)("schemas", len(ss), func(w, i int) {
		s := ss[i]
		g.Slots[w].Begin(0, s.Key)
		defer g.Slots[w].End()
		r := hb.Run(s.Files, "*.hbuf", "dart", "")
		c.Step(1)
		if r.Err != nil || r.Panic != "" {
			c.Violate(s.Key, fmt.Sprintf("%s: %s\n%s", s.Key, r.Brief(), hb.Text(s.Files)))
			return
		}
		m, err := sem.Load(s.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		c.State(s.Key)
		c.Outcome(s.Family)
		if i%1999 == 0 {
			c.Sample(s.Key)
		}
		out := dartval.Part(r.Out)
		if p := judge(c, m, out); len(p) > 0 {
			c.Violate(s.Key, fmt.Sprintf("%s: generated Dart:\n%s\n%s%s", s.Key, strings.Join(p, "\n"), hb.Text(s.Files), hb.Text(out)))
		}
		c.Trace(1)
	})
}

// judge says what is wrong with the Dart of a schema.
func judge(c *ev.Check, m *sem.Model, out map[string]string) (bad []string) {
	no := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	p, problems := dart.Load(out)
	for i, x := range problems {
		if i == 5 {
			no("...")
			break
		}
		no("%v", x)
	}
	if len(problems) > 0 {
		return
	}
	// the public classes of every file
	want, got := map[string]bool{}, map[string]bool{}
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			file, class := dartval.Where(r)
			want[file+" "+class] = true
			if r.Kind == hb.Server {
				want[file+" "+class+"Client"], want[file+" "+class+"Router"] = true, true
			}
		}
	}
	for fn := range out {
		if strings.HasSuffix(fn, ".ui.dart") {
			continue
		}
		for _, k := range p.Classes(path.Base(fn)) {
			if !strings.HasPrefix(k, "_") {
				got[path.Base(fn)+" "+k] = true
			}
		}
	}
	for k := range want {
		if !got[k] {
			no("there is no class %s", k)
		}
	}
	for k := range got {
		if !want[k] {
			no("there is a class %s", k)
		}
	}
	if len(bad) > 0 {
		return
	}
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			file, class := dartval.Where(r)
			at := file + " " + class
			switch r.Kind {
			case hb.Data:
				data(p, m, r, file, class, func(f string, a ...any) { no(at+": "+f, a...) })
			case hb.Enum:
				enum(c, p, r, file, class, func(f string, a ...any) { no(at+": "+f, a...) })
			case hb.Server:
				methods(p, m, r, file, class, func(f string, a ...any) { no(at+": "+f, a...) })
			}
		}
	}
	if len(bad) == 0 {
		bad = serve(c, m, out, p)
	}
	return
}

func supers(p *dart.Program, m *sem.Model, r *sem.Ref, file, class string, no func(string, ...any), also ...string) {
	ss := p.Supers(file, class)
	for _, e := range r.Exts {
		if x := m.Resolve(r.File, e.Name); x != nil {
			if _, n := dartval.Where(x); !ss[n] {
				no("is no %s", n)
			}
		}
	}
	for _, n := range also {
		if !ss[n] {
			no("is no %s", n)
		}
	}
}

func data(p *dart.Program, m *sem.Model, r *sem.Ref, file, class string, no func(string, ...any)) {
	supers(p, m, r, file, class, no, "Data")
	ms := p.Members(file, class)
	left := map[string]bool{}
	for n, x := range ms {
		if x.Kind != "method" && x.Kind != "setter" {
			left[n] = true
		}
	}
	for _, f := range m.Fields(r) {
		n := dartval.Pick(ms, f.Name)
		if n == "" || !left[n] {
			no("has no field for %s", f.Name)
			continue
		}
		delete(left, n)
		t := dartval.Type(m, f.File, f.Type)
		if ms[n].Type != t {
			no("the field %s is of type %s, not %s", n, ms[n].Type, t)
		}
		if s, ok := ms[n+"="]; !ok || s.Type != t {
			no("the field %s is set with type %q, not %s", n, s.Type, t)
		}
		opt := f.Type.Null
		if f.Type.Kind == hb.Array || f.Type.Kind == hb.Map {
			opt = f.Type.Out
		}
		ps := p.CtorParams(file, class, "")
		x, free := ps[n]
		if !free {
			x = ps[n+"!"]
		}
		if x != t || free != opt {
			no("the factory takes %s as %q, left out: %v", n, x, free)
		}
	}
	for n := range left {
		no("has a field %s", n)
	}
	for _, n := range []string{"copy", "copyWith", "toMap", "toData"} {
		if ms[n].Kind != "method" {
			no("has no method %s", n)
		}
	}
}

func enum(c *ev.Check, p *dart.Program, r *sem.Ref, file, class string, no func(string, ...any)) {
	mc := dart.NewMachine(p)
	c.Step(1)
	vs, err := mc.StaticGet(file, class, "values")
	if err != nil {
		no("values: %v", err)
		return
	}
	l := vs.(*dart.List)
	var want, got []string
	for _, x := range r.Items {
		n, err := sem.Number(x.Id)
		if err != nil {
			return // no number of 64 bits
		}
		want = append(want, fmt.Sprintf("%s = %d", sem.Hump(x.Name), n))
	}
	for i, x := range l.L {
		n, err := mc.Get(x, "name")
		v, err2 := mc.Get(x, "value")
		if err != nil || err2 != nil {
			no("item %d: %v %v", i, err, err2)
			return
		}
		got = append(got, fmt.Sprintf("%s = %v", n, v))
		for f, by := range map[string]any{"valueOf": v, "nameOf": n} {
			c.Step(1)
			y, err := mc.Static(file, class, f, by)
			if err != nil || y != x {
				no("%s(%v) is %s %v, not the item %s", f, by, mc.String(y), err, n)
			}
		}
		if s := mc.String(x); s != n {
			no("toString of %s is %q", n, s)
		}
		for j, y := range l.L {
			eq, err := mc.Equal(x, y)
			if err != nil || eq != (i == j) {
				no("item %d equals item %d: %v %v", i, j, eq, err)
			}
		}
	}
	if strings.Join(want, ", ") != strings.Join(got, ", ") {
		no("the values are %s, not %s", strings.Join(got, ", "), strings.Join(want, ", "))
	}
	for f, by := range map[string]any{"valueOf": int64(-77), "nameOf": "no such item"} {
		if y, err := mc.Static(file, class, f, by); err == nil {
			no("%s(%v) is %s", f, by, mc.String(y))
		}
	}
	// every item is a static member with the name of the item
	ns := map[string]bool{}
	for _, n := range p.StaticNames(file, class) {
		ns[n] = true
	}
	for i, x := range r.Items {
		ok := false
		for n := range ns {
			if norm(n) == norm(x.Name) {
				v, err := mc.StaticGet(file, class, n)
				ok = ok || err == nil && i < len(l.L) && v == l.L[i]
			}
		}
		if !ok {
			no("has no static member for %s", x.Name)
		}
	}
	if len(ns) != len(r.Items)+1 {
		no("has the static members %v", ns)
	}
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// signature is the type of a method.
func signature(m *sem.Model, x sem.Method) string {
	res := "void"
	if x.Result.Name != "void" {
		t := x.Result
		t.Null = false
		res = dartval.Type(m, x.File, t)
	}
	return fmt.Sprintf("Future<%s> Function(%s, [Context?])", res, dartval.Type(m, x.File, x.Param))
}

func methods(p *dart.Program, m *sem.Model, r *sem.Ref, file, class string, no func(string, ...any)) {
	supers(p, m, r, file, class, no)
	ms := p.Members(file, class)
	left := map[string]bool{}
	for n := range ms {
		left[n] = true
	}
	for _, x := range m.Methods(r) {
		n := dartval.Pick(ms, x.Name)
		if n == "" || !left[n] {
			no("has no method for %s", x.Name)
			continue
		}
		delete(left, n)
		if t := signature(m, x); ms[n].Type != t || ms[n].Kind != "method" {
			no("the method %s is of type %s, not %s", n, ms[n].Type, t)
		}
	}
	for n := range left {
		no("has a member %s", n)
	}
	if ss := p.Supers(file, class+"Client"); !ss[class] || !ss["ServerClient"] {
		no("the client implements %v", ss)
	}
	if ss := p.Supers(file, class+"Router"); !ss["ServerRouter"] {
		no("the router extends %v", ss)
	}
}

// serve runs the clients and routers of a schema against servers that note their calls.
func serve(c *ev.Check, m *sem.Model, out map[string]string, p *dart.Program) (bad []string) {
	no := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	type server struct {
		r           *sem.Ref
		file, class string
		ms          map[string]dart.Member
	}
	var sv []server
	var b strings.Builder
	b.WriteString("import 'dart:typed_data';\nimport 'package:hbuf_dart/hbuf_dart.dart';\n")
	var fs []string
	for n := range out {
		if strings.HasSuffix(n, ".data.dart") || strings.HasSuffix(n, ".server.dart") {
			fs = append(fs, path.Base(n))
		}
	}
	sort.Strings(fs)
	b.WriteString("import '" + strings.Join(fs, "';\nimport '") + "';\n")
	b.WriteString("class ZzClient implements Client {\n final List<dynamic> calls = [];\n @override\n Future<T> invoke<T>(String name, int id, Data data, T Function(Map<String, dynamic> map) fromMap, T Function(ByteData data) fromData) async {\n" +
		"  calls.add(name);\n calls.add(data);\n return fromMap({});\n }\n}\n")
	w := dmodel.New()
	if err := w.Add("", m, func(string, *sem.Ref) {}); err != nil {
		w = nil // a wire name is open
	}
	seen, same := map[string]bool{}, false // no library can use all when two are named the same
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			if _, n := dartval.Where(r); seen[n] {
				same = true
			} else {
				seen[n] = true
			}
			if r.Kind != hb.Server {
				continue
			}
			file, class := dartval.Where(r)
			ms := p.Members(file, class)
			sv = append(sv, server{r, file, class, ms})
			fmt.Fprintf(&b, "class Zz%s implements %s {\n final List<dynamic> calls = [];\n final Map<String, dynamic> zzResults = {};\n", class, class)
			for _, x := range m.Methods(r) {
				n := dartval.Pick(ms, x.Name)
				res := dartval.Type(m, x.File, x.Result)
				ret := fmt.Sprintf(" return zzResults['%s'] as %s;\n", x.Name, strings.TrimSuffix(res, "?"))
				if x.Result.Name == "void" {
					res, ret = "void", ""
				}
				fmt.Fprintf(&b, " @override\n Future<%s> %s(%s zzReq, [Context? zzCtx]) async {\n  this.calls.add('%s');\n  this.calls.add(zzReq);\n  this.calls.add(zzCtx);\n %s }\n", strings.TrimSuffix(res, "?"), n, dartval.Type(m, x.File, x.Param), x.Name, ret)
			}
			b.WriteString("}\n")
		}
	}
	if len(sv) == 0 || same {
		return
	}
	all := map[string]string{"zz.dart": b.String()}
	for n, t := range out {
		all[n] = t
	}
	q, problems := dart.Load(all)
	if len(problems) > 0 {
		no("servers written by hand: %v\n%s", problems[0], b.String())
		return
	}
	mc := dart.NewMachine(q)
	for _, s := range sv {
		at := s.file + " " + s.class
		must := func(v any, err error) any {
			if err != nil {
				no("%s: %v", at, err)
			}
			c.Step(1)
			return v
		}
		tc := must(mc.Create("zz.dart", "ZzClient", "", nil, nil))
		client := must(mc.Create(s.file, s.class+"Client", "", []any{tc}, nil))
		impl := must(mc.Create("zz.dart", "Zz"+s.class, "", nil, nil))
		router := must(mc.Create(s.file, s.class+"Router", "", []any{impl}, nil))
		if len(bad) > 0 {
			return
		}
		us, known := sem.Under(s.r.Name)
		for _, x := range []any{client, router} {
			if n := must(mc.Get(x, "name")); known && n != any(us) {
				no("%s: the name is %v, not %s", at, n, us)
			}
		}
		routes, _ := must(mc.Get(router, "invokeNames")).(*dart.Map)
		xs := m.Methods(s.r)
		if routes == nil || len(routes.Keys) != len(xs) {
			no("%s: the router has the routes %s", at, mc.String(routes))
			return
		}
		for _, x := range xs {
			n := dartval.Pick(s.ms, x.Name)
			pr := m.Resolve(x.File, x.Param.Name)
			pf, pc := dartval.Where(pr)
			um, ok := sem.Under(x.Name)
			route := us + "/" + um
			if w != nil && (endless(w, pr) || x.Result.Name != "void" && endless(w, m.Resolve(x.File, x.Result.Name))) {
				continue
			}
			req, err := mc.Static(pf, pc, "fromMap", empty(mc, pf))
			if err != nil {
				if strings.Contains(err.Error(), "by value error") {
					continue // an enum without an item of number 0
				}
				no("%s: %v", at, err)
				continue
			}
			ctx, _ := mc.Create("zz.dart", "Context", "", nil, nil)
			// the client
			res, err := mc.Call(client, n, []any{req}, nil)
			if err != nil && !strings.Contains(err.Error(), "by value error") {
				no("%s: the client's %s: %v", at, n, err)
				continue
			}
			calls := must(mc.Get(tc, "calls")).(*dart.List)
			if len(calls.L) != 2 || known && ok && calls.L[0] != any(route) || calls.L[1] != req {
				no("%s: the client's %s sends %s as %v, not %s", at, n, mc.String(calls), calls.L, route)
				continue
			}
			sent := calls.L[0]
			calls.L = nil
			if fu, _ := res.(*dart.Future); err == nil && x.Result.Name != "void" {
				rf, rc := dartval.Where(m.Resolve(x.File, x.Result.Name))
				if fu == nil || !mc.IsA(rf, rc, fu.Val) {
					no("%s: the client's %s gives %s", at, n, mc.String(res))
				}
			}
			// the router
			var entry any
			for k, key := range routes.Keys {
				if key == sent {
					entry = routes.Values[k]
				}
			}
			if entry == nil {
				no("%s: the router has no %v", at, sent)
				continue
			}
			reply := any(nil)
			zr := must(mc.Get(impl, "zzResults")).(*dart.Map)
			zr.Keys, zr.Values = nil, nil
			if x.Result.Name != "void" {
				rf, rc := dartval.Where(m.Resolve(x.File, x.Result.Name))
				if reply, err = mc.Static(rf, rc, "fromMap", empty(mc, rf)); err != nil {
					continue
				}
				zr.Keys, zr.Values = []any{x.Name}, []any{reply}
			}
			text, err := bytesOf(mc, entry, req)
			if err != nil {
				no("%s: %v formData: %v", at, sent, err)
				continue
			}
			want, _ := mc.Call(req, "toMap", nil, nil)
			if j, err := mc.Encode(want); err != nil || j != text {
				no("%s: %v formData writes %s, not %s %v", at, sent, text, j, err)
			}
			f := must(mc.Get(entry, "toData"))
			fu, err := mc.Apply(f, bytesList(mc, text))
			d, _ := fu.(*dart.Future)
			if err != nil || d == nil || !mc.IsA(pf, pc, d.Val) {
				no("%s: %v toData: %s %v", at, sent, mc.String(fu), err)
				continue
			}
			f = must(mc.Get(entry, "invoke"))
			fu, err = mc.Apply(f, ctx, d.Val)
			y, _ := fu.(*dart.Future)
			if err != nil || y == nil || y.Val != reply {
				no("%s: %v gives %s %v, not what %s returned", at, sent, mc.String(fu), err, n)
				continue
			}
			ic := must(mc.Get(impl, "calls")).(*dart.List)
			if len(ic.L) != 3 || ic.L[0] != any(x.Name) || ic.L[1] != d.Val || ic.L[2] != ctx {
				no("%s: %v calls %v", at, sent, ic.L)
			}
			ic.L = nil
			c.Step(6)
		}
	}
	return
}

func endless(w *dmodel.World, r *sem.Ref) bool {
	return r != nil && worldOf(w).Endless(dmodel.Key("", r))
}

func empty(mc *dart.Machine, file string) any { return mc.NewMap(file, "String", "dynamic") }

func bytesList(mc *dart.Machine, s string) any {
	var l []any
	for _, b := range []byte(s) {
		l = append(l, int64(b))
	}
	return mc.NewList("zz.dart", "int", l...)
}

func bytesOf(mc *dart.Machine, entry, v any) (string, error) {
	f, err := mc.Get(entry, "formData")
	if err != nil {
		return "", err
	}
	fu, err := mc.Apply(f, v)
	if err != nil {
		return "", err
	}
	x, _ := fu.(*dart.Future)
	if x == nil {
		return "", fmt.Errorf("no future")
	}
	l, _ := x.Val.(*dart.List)
	if l == nil {
		return "", fmt.Errorf("no list: %s", mc.String(x.Val))
	}
	var b []byte
	for _, y := range l.L {
		n, _ := y.(int64)
		b = append(b, byte(n))
	}
	return string(b), nil
}

// ---- values

func units(c *ev.Check, g *guard.Guard) {
	us := dunits.Of(c.Thorough(), append([]string{dunits.Redeclared}, letters...)...)
	type job struct {
		u     *dartval.Unit
		key   string
		group string
		text  string
	}
	var jobs []job
	for i, u := range us {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "dart", "")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			continue
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		world := dmodel.New()
		type dt struct{ key, group, text string }
		var ds []dt
		if err := world.Add(dir, m, func(key string, x *sem.Ref) {
			if x.Kind != hb.Data {
				return
			}
			f := hb.File{Name: x.File, Decls: []hb.Decl{*x.Decl}}
			d := dt{key, u.Group + " " + x.Name, f.Render()}
			if n, ok := u.Names[x.Name]; ok {
				d.group = n
			}
			ds = append(ds, d)
		}); err != nil {
			c.Fatal("%s: %v", u.Group, err)
		}
		p, problems := dart.Load(dartval.Part(r.Out))
		if len(problems) > 0 {
			c.Violate("unit "+u.Group, fmt.Sprintf("the Dart of %s is not well formed: %v\n%s", u.Group, problems[0], hb.Text(u.Files)))
			continue
		}
		un, err := dartval.NewUnit(p, world, dir, m)
		if err != nil {
			c.Violate("unit "+u.Group, fmt.Sprintf("%v\n%s", err, hb.Text(u.Files)))
			continue
		}
		for _, d := range ds {
			jobs = append(jobs, job{un, d.key, d.group, d.text})
		}
	}
	g.Par(c)("values", len(jobs), func(w, i int) {
		j := jobs[i]
		g.Slots[w].Begin(1, j.group)
		defer g.Slots[w].End()
		values(c, j.u, j.key, j.group, j.text)
		if i%97 == 0 {
			c.Sample(j.group)
		}
	})
}
