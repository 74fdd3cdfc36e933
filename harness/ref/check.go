package ref

import (
	"strconv"
	"strings"

	"verif/harness/hb"
	"verif/harness/sem"
)

// Bad is one broken rule: the declaration of a file that breaks it.
type Bad struct {
	File string
	Decl int
	Rule string
}

// Base is the set of base types.
var Base = map[string]bool{"int8": true, "int16": true, "int32": true, "int64": true, "uint8": true, "uint16": true, "uint32": true,
	"uint64": true, "bool": true, "float": true, "double": true, "string": true, "date": true, "decimal": true}

func reserved(n string) bool {
	return Base[n] || n == "data" || n == "server" || n == "enum" || n == "import" || n == "package"
}

// Num is the value of a number literal.
func Num(s string) string {
	v, err := strconv.ParseUint(strings.ReplaceAll(s, "_", ""), 0, 64)
	if err != nil {
		return s
	}
	return strconv.FormatUint(v, 10)
}

// Check applies the schema rules. Imports name other files of the list. ambiguous: a name is visible from two imports.
func Check(files []hb.File) (bad []Bad, ambiguous bool) {
	byName := map[string]*hb.File{}
	for i := range files {
		byName[files[i].Name] = &files[i]
	}
	type ref struct {
		f string
		i int
	}
	in := func(f *hb.File, n string) (ref, bool) {
		for i := range f.Decls {
			if f.Decls[i].Name == n {
				return ref{f.Name, i}, true
			}
		}
		return ref{}, false
	}
	for fi := range files {
		f := &files[fi]
		look := func(n string) (ref, int, bool) {
			if r, ok := in(f, n); ok {
				return r, f.Decls[r.i].Kind, true
			}
			var got ref
			found := map[string]bool{}
			for _, im := range f.Imports {
				g := byName[im]
				if g == nil || g == f {
					continue
				}
				if r, ok := in(g, n); ok {
					if len(found) == 0 {
						got = r
					}
					found[g.Name] = true
				}
			}
			if len(found) > 1 {
				ambiguous = true
			}
			if len(found) == 0 {
				return ref{}, 0, false
			}
			return got, byName[got.f].Decls[got.i].Kind, true
		}
		add := func(i int, rule string) { bad = append(bad, Bad{f.Name, i, rule}) }
		tags := func(i int, ts []hb.Tag) {
			seen := map[string]bool{}
			for _, t := range ts {
				if seen[t.Name] {
					add(i, "repeated tag")
				}
				seen[t.Name] = true
				ks := map[string]bool{}
				for _, kv := range t.KV {
					if ks[kv.K] {
						add(i, "repeated tag key")
					}
					ks[kv.K] = true
				}
			}
		}
		typ := func(n string) bool {
			if Base[n] {
				return true
			}
			_, k, ok := look(n)
			return ok && k != hb.Server
		}
		for i := range f.Decls {
			d := &f.Decls[i]
			tags(i, d.Tags)
			if reserved(d.Name) {
				add(i, "reserved name")
			}
			for j := i + 1; j < len(f.Decls); j++ {
				if f.Decls[j].Name == d.Name {
					add(i, "repeated name")
					add(j, "repeated name")
				}
			}
			for _, im := range f.Imports {
				if g := byName[im]; g != nil && g != f {
					if _, ok := in(g, d.Name); ok {
						add(i, "name of an imported type")
					}
				}
			}
			es := map[string]bool{}
			for _, e := range d.Exts {
				if es[e.Name] {
					add(i, "repeated inheritance")
				}
				es[e.Name] = true
				if reserved(e.Name) {
					add(i, "inherits a reserved name")
					continue
				}
				if _, k, ok := look(e.Name); !ok || k != d.Kind {
					add(i, "inherits an unknown type")
				}
			}
			ns, is := map[string]bool{}, map[string]bool{}
			for _, x := range d.Fields {
				tags(i, x.Tags)
				if reserved(x.Name) {
					add(i, "reserved field name")
				}
				if ns[x.Name] {
					add(i, "repeated field name")
				}
				if is[Num(x.Id)] {
					add(i, "repeated field number")
				}
				ns[x.Name], is[Num(x.Id)] = true, true
				if !typ(x.Type.Name) {
					add(i, "unknown field type")
				}
				if x.Type.Kind == hb.Map {
					ok := Base[x.Type.Key]
					if !ok {
						_, k, o := look(x.Type.Key)
						ok = o && k == hb.Enum
					}
					if !ok || x.Type.KeyN {
						add(i, "map key")
					}
				}
			}
			for _, x := range d.Items {
				tags(i, x.Tags)
				if reserved(x.Name) {
					add(i, "reserved item name")
				}
				if ns[x.Name] {
					add(i, "repeated item name")
				}
				if is[Num(x.Id)] {
					add(i, "repeated item number")
				}
				ns[x.Name], is[Num(x.Id)] = true, true
			}
			for _, x := range d.Methods {
				tags(i, x.Tags)
				if reserved(x.Name) || reserved(x.ParamName) {
					add(i, "reserved method name")
				}
				if ns[x.Name] {
					add(i, "repeated method name")
				}
				ns[x.Name] = true
				for k, t := range []hb.Type{x.Result, x.Param} {
					if k == 0 && t.Name == "void" {
						continue
					}
					_, kd, ok := look(t.Name)
					if t.Null || !ok || kd != hb.Data {
						add(i, "method type")
					}
				}
			}
			// circular inheritance
			var walk func(r ref, seen map[ref]bool) bool
			walk = func(r ref, seen map[ref]bool) bool {
				if seen[r] {
					return false
				}
				seen[r] = true
				g := byName[r.f]
				for _, e := range g.Decls[r.i].Exts {
					var t ref
					ok := false
					if x, o := in(g, e.Name); o {
						t, ok = x, true
					} else {
						for _, im := range g.Imports {
							if h := byName[im]; h != nil && h != g {
								if x, o := in(h, e.Name); o {
									t, ok = x, true
									break
								}
							}
						}
					}
					if ok && byName[t.f].Decls[t.i].Kind == g.Decls[r.i].Kind {
						if t == (ref{f.Name, i}) || walk(t, seen) {
							return true
						}
					}
				}
				return false
			}
			if walk(ref{f.Name, i}, map[ref]bool{}) {
				add(i, "circular inheritance")
			}
			// names of members that differ and are one name in generated code or on the wire
			mem := map[string]bool{}
			reach := map[ref]bool{}
			walk(ref{f.Name, i}, reach)
			reach[ref{f.Name, i}] = true
			for r := range reach {
				g := &byName[r.f].Decls[r.i]
				for _, x := range g.Fields {
					mem[x.Name] = true
				}
				for _, x := range g.Methods {
					mem[x.Name] = true
				}
				for _, x := range g.Items {
					mem[x.Name] = true
				}
			}
			for a := range mem {
				for b := range mem {
					if a >= b {
						continue
					}
					ua, oka := sem.Under(a)
					ub, okb := sem.Under(b)
					if sem.Hump(a) == sem.Hump(b) || oka && okb && ua == ub {
						add(i, "names of members that become one")
					} else if !oka || !okb {
						ambiguous = true
					}
				}
			}
		}
	}
	return
}
