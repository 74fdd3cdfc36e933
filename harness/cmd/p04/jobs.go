package main

import (
	"fmt"

	"verif/harness/hb"
)

func field(t, n, id string, tags ...hb.Tag) hb.Field {
	return hb.Field{Type: hb.ParseType(t), Name: n, Id: id, Tags: tags}
}
func method(r, n, p, pn, id string, tags ...hb.Tag) hb.Method {
	return hb.Method{Result: hb.ParseType(r), Name: n, Param: hb.ParseType(p), ParamName: pn, Id: id, Tags: tags}
}
func exts(ns ...string) []hb.Ext {
	var e []hb.Ext
	for i, n := range ns {
		e = append(e, hb.Ext{Name: n, Id: fmt.Sprint(i + 1)})
	}
	return e
}

var goPack = [][2]string{{"go", "p"}, {"java", "com.p"}}

func one(ds ...hb.Decl) []hb.File {
	return []hb.File{{Name: "a.hbuf", Packages: goPack, Decls: ds}}
}

// env is a file's worth of valid context: data A, enum E, server S.
func env() []hb.Decl {
	return []hb.Decl{
		{Kind: hb.Data, Name: "A", Fields: []hb.Field{field("int32", "x", "1")}},
		{Kind: hb.Enum, Name: "E", Items: []hb.Item{{Name: "X", Id: "1"}}},
		{Kind: hb.Server, Name: "S", Methods: []hb.Method{method("A", "m", "A", "q", "1")}},
	}
}

func jobs(thorough bool) []job {
	var out []job
	add := func(space string, files []hb.File) { out = append(out, job{space, files}) }
	addEnv := func(space string, d ...hb.Decl) { add(space, one(append(env(), d...)...)) }

	// fields
	types := []string{"int32", "string?", "A", "A?", "E", "S", "Z", "D", "void", "A[]", "Z[]", "S[]?", "A<string>", "A<E>", "A<A>", "A<Z>", "A<S>", "A<string?>", "A<E?>?", "Z<string>", "int32<date>", "decimal?<bool>?", "A<D>", "data1"}
	for _, t := range types {
		for _, n := range []string{"a", "int8", "date", "string", "decimal", "A", "D", "void", "Data", "int"} {
			for _, id := range []string{"0", "1", "0x10"} {
				addEnv("field", hb.Decl{Kind: hb.Data, Name: "D", Fields: []hb.Field{field(t, n, id)}})
			}
		}
	}
	tagsets := [][]hb.Tag{nil, {hb.T("t", "a", "1"), hb.T("u", "a", "1")}, {hb.T("t"), hb.T("t")}}
	var fs []hb.Field
	for _, t := range []string{"int32", "A[]", "Z"} {
		for _, n := range []string{"a", "b", "A"} {
			for _, id := range []string{"1", "2", "0x1", "1_0", "10"} {
				for _, ts := range tagsets {
					fs = append(fs, field(t, n, id, ts...))
				}
			}
		}
	}
	for i, f := range fs {
		for k, h := range fs {
			if !thorough && (i*len(fs)+k)%3 != 0 && (len(f.Tags) > 0 || len(h.Tags) > 0) {
				continue
			}
			addEnv("field pair", hb.Decl{Kind: hb.Data, Name: "D", Fields: []hb.Field{f, h}})
		}
	}
	var small []hb.Field
	for _, n := range []string{"a", "b", "c"} {
		for _, id := range []string{"1", "2", "3", "0b1", "03"} {
			small = append(small, field("int32", n, id))
		}
	}
	for _, x := range small {
		for _, y := range small {
			for _, z := range small {
				add("field triple", one(hb.Decl{Kind: hb.Data, Name: "D", Fields: []hb.Field{x, y, z}}))
			}
		}
	}
	// names of members that differ
	members := []string{"a", "A", "b", "ab", "aB", "a_b", "A_b", "a_B", "AB", "abC", "a_bC", "a_b_c", "ab_c", "aBC", "a1", "a_1", "é", "É", "aé", "URL", "url", "uRL", "UR_L", "_a", "a_", "a__b"}
	for _, x := range members {
		for _, y := range members {
			fx, fy := field("int32", x, "1"), field("string?", y, "2")
			mx, my := method("A", x, "A", "q", "1"), method("void", y, "A", "q", "2")
			add("member names", one(hb.Decl{Kind: hb.Data, Name: "D", Fields: []hb.Field{fx, field("int32", "zz", "3"), fy}}))
			addEnv("member names", hb.Decl{Kind: hb.Server, Name: "T", Methods: []hb.Method{mx, my}})
			add("member names", one(hb.Decl{Kind: hb.Enum, Name: "F", Items: []hb.Item{{Name: x, Id: "1"}, {Name: "zz", Id: "0"}, {Name: y, Id: "2"}}}))
			fy.Id = "1"
			addEnv("inherited names", hb.Decl{Kind: hb.Data, Name: "D", Fields: []hb.Field{fx}, Exts: exts("B")}, hb.Decl{Kind: hb.Data, Name: "B", Exts: exts("C")}, hb.Decl{Kind: hb.Data, Name: "C", Fields: []hb.Field{fy}})
			addEnv("inherited names", hb.Decl{Kind: hb.Data, Name: "D", Exts: exts("B", "C")}, hb.Decl{Kind: hb.Data, Name: "B", Fields: []hb.Field{fx}}, hb.Decl{Kind: hb.Data, Name: "C", Fields: []hb.Field{fy}})
			addEnv("inherited names", hb.Decl{Kind: hb.Server, Name: "T", Methods: []hb.Method{mx}, Exts: exts("S", "U")}, hb.Decl{Kind: hb.Server, Name: "U", Methods: []hb.Method{my}})
			add("inherited names", []hb.File{
				{Name: "a.hbuf", Packages: goPack, Imports: []string{"b.hbuf"}, Decls: []hb.Decl{{Kind: hb.Data, Name: "D", Fields: []hb.Field{fx}, Exts: exts("C")}}},
				{Name: "b.hbuf", Packages: goPack, Decls: []hb.Decl{{Kind: hb.Data, Name: "C", Fields: []hb.Field{fy}}}}})
		}
	}
	// items
	var its []hb.Item
	for _, n := range []string{"a", "b", "c", "int32"} {
		for _, id := range []string{"0", "1", "0x1", "10", "1_0", "0b1010"} {
			its = append(its, hb.Item{Name: n, Id: id})
		}
	}
	for _, x := range its {
		add("item", one(hb.Decl{Kind: hb.Enum, Name: "F", Items: []hb.Item{x}}))
		for _, y := range its {
			add("item pair", one(hb.Decl{Kind: hb.Enum, Name: "F", Items: []hb.Item{x, y}}))
			for _, z := range its {
				add("item triple", one(hb.Decl{Kind: hb.Enum, Name: "F", Items: []hb.Item{x, y, z}}))
			}
		}
	}
	// methods
	mt := []string{"A", "A?", "E", "S", "Z", "int32", "T", "void", "B"}
	var ms []hb.Method
	for _, r := range mt {
		for _, p := range mt {
			for _, n := range []string{"f", "g", "int64"} {
				for _, pn := range []string{"q", "string"} {
					ms = append(ms, method(r, n, p, pn, "1"))
				}
			}
		}
	}
	b := hb.Decl{Kind: hb.Data, Name: "B", Exts: exts("A")}
	for _, m := range ms {
		addEnv("method", hb.Decl{Kind: hb.Server, Name: "T", Methods: []hb.Method{m}}, b)
	}
	var m2 []hb.Method
	for _, r := range []string{"A", "void", "Z"} {
		for _, n := range []string{"f", "g", "h"} {
			for _, id := range []string{"1", "2"} {
				m2 = append(m2, method(r, n, "A", "q", id))
			}
		}
	}
	for _, x := range m2 {
		for _, y := range m2 {
			for _, z := range m2 {
				addEnv("method triple", hb.Decl{Kind: hb.Server, Name: "T", Methods: []hb.Method{x, y, z}})
			}
			for _, e := range []string{"S", "T", "A", "Z", "E"} {
				addEnv("method pair", hb.Decl{Kind: hb.Server, Name: "T", Exts: exts(e), Methods: []hb.Method{x, y}})
			}
		}
	}
	// a type named void
	for _, k := range []int{hb.Data, hb.Enum, hb.Server} {
		for _, r := range mt {
			for _, p := range mt {
				addEnv("void", hb.Decl{Kind: k, Name: "void"}, hb.Decl{Kind: hb.Server, Name: "T", Methods: []hb.Method{method(r, "f", p, "q", "1")}})
			}
		}
	}
	// names of declarations
	names := []string{"X", "Y", "int8", "uint64", "bool", "float", "double", "void", "Int32"}
	for _, k1 := range []int{0, 1, 2} {
		for _, k2 := range []int{0, 1, 2} {
			for _, a := range names {
				for _, b := range names {
					add("names", one(hb.Decl{Kind: k1, Name: a}, hb.Decl{Kind: k2, Name: b}))
					add("names", one(hb.Decl{Kind: k1, Name: a}, hb.Decl{Kind: 0, Name: "Q"}, hb.Decl{Kind: k2, Name: b}))
				}
			}
		}
	}
	// tags
	var tags []hb.Tag
	var kvs [][]hb.KV
	kvs = append(kvs, nil)
	for _, x := range []string{"a", "b"} {
		kvs = append(kvs, []hb.KV{{K: x, V: []string{"1"}}})
		for _, y := range []string{"a", "b"} {
			kvs = append(kvs, []hb.KV{{K: x, V: []string{"1"}}, {K: y, V: []string{"2", "3"}}})
			kvs = append(kvs, []hb.KV{{K: x, V: []string{"1"}}, {K: "c", V: []string{"1"}}, {K: y, V: []string{"2", "3"}}})
		}
	}
	for _, n := range []string{"t", "u"} {
		for _, kv := range kvs {
			tags = append(tags, hb.Tag{Name: n, KV: kv})
		}
	}
	lists := [][]hb.Tag{nil}
	for _, x := range tags {
		lists = append(lists, []hb.Tag{x})
		for _, y := range tags {
			lists = append(lists, []hb.Tag{x, y})
		}
	}
	for _, x := range []string{"t", "u", "v"} {
		for _, y := range []string{"t", "u", "v"} {
			for _, z := range []string{"t", "u", "v"} {
				lists = append(lists, []hb.Tag{hb.T(x, "a", "1"), hb.T(y, "a", "1"), hb.T(z, "a", "1", "b", "2")}, []hb.Tag{hb.T(x), hb.T(y), hb.T(z, "a", "1", "a", "2")})
			}
		}
	}
	place := func(p int, ts []hb.Tag) []hb.Decl {
		d := env()
		switch p {
		case 0, 1, 2:
			d[p].Tags = ts
		case 3:
			d[0].Fields[0].Tags = ts
		case 4:
			d[1].Items[0].Tags = ts
		case 5:
			d[2].Methods[0].Tags = ts
		case 6:
			d[0].Fields = append(d[0].Fields, field("A[]", "y", "2", ts...))
		case 7:
			d[1].Items = append(d[1].Items, hb.Item{Name: "Y", Id: "2", Tags: ts})
		case 8:
			d[2].Methods = append(d[2].Methods, method("void", "n", "A", "q", "2", ts...))
		}
		return d
	}
	for p := 0; p < 9; p++ {
		for _, l := range lists {
			add("tags", one(place(p, l)...))
		}
	}
	// the same tag on two places is no repetition
	for p := 0; p < 6; p++ {
		for q := 0; q < 6; q++ {
			for _, l := range lists[:30] {
				d := place(p, l)
				e := place(q, []hb.Tag{hb.T("t", "a", "1")})
				if p != q {
					switch q {
					case 0, 1, 2:
						d[q].Tags = e[q].Tags
					case 3:
						d[0].Fields[0].Tags = e[0].Fields[0].Tags
					case 4:
						d[1].Items[0].Tags = e[1].Items[0].Tags
					case 5:
						d[2].Methods[0].Tags = e[2].Methods[0].Tags
					}
				}
				add("tag places", one(d...))
			}
		}
	}
	// inheritance graphs over n types of given kinds
	graph := func(space string, kinds []int, edges int, split int) {
		n := len(kinds)
		var fs []hb.File
		nm := func(i int) string { return string(rune('A' + i)) }
		var ds []hb.Decl
		for i := 0; i < n; i++ {
			d := hb.Decl{Kind: kinds[i], Name: nm(i)}
			if kinds[i] != hb.Enum {
				var es []string
				for j := 0; j < n; j++ {
					if edges&(1<<uint(i*n+j)) != 0 {
						es = append(es, nm(j))
					}
				}
				d.Exts = exts(es...)
			}
			ds = append(ds, d)
		}
		switch split {
		case 0:
			fs = one(ds...)
		case 1: // every type in its own file, everything imports everything
			for i := range ds {
				f := hb.File{Name: nm(i) + ".hbuf", Packages: goPack, Decls: []hb.Decl{ds[i]}}
				for j := range ds {
					if j != i {
						f.Imports = append(f.Imports, nm(j)+".hbuf")
					}
				}
				fs = append(fs, f)
			}
		case 2: // a chain of imports
			for i := range ds {
				f := hb.File{Name: nm(i) + ".hbuf", Packages: goPack, Decls: []hb.Decl{ds[i]}}
				if i+1 < n {
					f.Imports = []string{nm(i+1) + ".hbuf"}
				}
				fs = append(fs, f)
			}
		}
		add(space, fs)
	}
	for e := 0; e < 1<<9; e++ {
		for ks := 0; ks < 27; ks++ {
			kinds := []int{ks % 3, ks / 3 % 3, ks / 9}
			skip := false
			for i, k := range kinds {
				if k == hb.Enum && e>>(uint(i)*3)&7 != 0 {
					skip = true
				}
			}
			if skip {
				continue
			}
			if ks == 0 || ks == 26 || thorough {
				graph("inheritance 3", kinds, e, 1)
				graph("inheritance 3", kinds, e, 2)
			}
			graph("inheritance 3", kinds, e, 0)
		}
	}
	for e := 0; e < 1<<16; e++ {
		if !thorough && (e&0x8421 != 0) { // quick: self loops are covered with 3 types
			continue
		}
		graph("inheritance 4", []int{0, 0, 0, 0}, e, 0)
		if thorough {
			graph("inheritance 4", []int{2, 2, 2, 2}, e, 0)
			graph("inheritance 4", []int{0, 0, 0, 0}, e, 1)
		}
	}
	// lists with repetitions
	en := []string{"A", "E", "S", "Z", "B", "int32", "D"}
	for _, k := range []int{hb.Data, hb.Server} {
		for _, x := range en {
			addEnv("inheritance list", hb.Decl{Kind: k, Name: "D", Exts: exts(x)}, hb.Decl{Kind: k, Name: "B"})
			for _, y := range en {
				addEnv("inheritance list", hb.Decl{Kind: k, Name: "D", Exts: exts(x, y)}, hb.Decl{Kind: k, Name: "B"})
				for _, z := range en {
					addEnv("inheritance list", hb.Decl{Kind: k, Name: "D", Exts: exts(x, y, z)}, hb.Decl{Kind: k, Name: "B"})
				}
			}
		}
	}
	// several files: who sees what
	contents := [][]hb.Decl{
		nil,
		{{Kind: hb.Data, Name: "X"}},
		{{Kind: hb.Enum, Name: "X"}},
		{{Kind: hb.Server, Name: "X"}},
		{{Kind: hb.Data, Name: "Y", Exts: exts("X")}},
		{{Kind: hb.Data, Name: "Y", Fields: []hb.Field{field("X", "a", "1")}}},
		{{Kind: hb.Data, Name: "Y", Fields: []hb.Field{field("int32<X>", "a", "1")}}},
		{{Kind: hb.Server, Name: "Y", Exts: exts("X")}},
		{{Kind: hb.Server, Name: "T", Methods: []hb.Method{method("X", "f", "Y", "q", "1")}}},
		{{Kind: hb.Data, Name: "X", Fields: []hb.Field{field("Y[]?", "a", "1")}}},
		{{Kind: hb.Data, Name: "V"}, {Kind: hb.Data, Name: "X", Exts: exts("V")}},
	}
	fn := []string{"a.hbuf", "b.hbuf", "c.hbuf"}
	emit := func(idx []int, imp int) {
		var fs []hb.File
		bit := 0
		n := len(idx)
		for i := 0; i < n; i++ {
			f := hb.File{Name: fn[i], Packages: goPack, Decls: contents[idx[i]]}
			for j := 0; j < n; j++ {
				if j == i {
					continue
				}
				if imp&(1<<uint(bit)) != 0 {
					f.Imports = append(f.Imports, fn[j])
				}
				bit++
			}
			fs = append(fs, f)
		}
		add("files", fs)
	}
	nc := len(contents)
	for i := 0; i < nc; i++ {
		for j := 0; j < nc; j++ {
			for m := 0; m < 4; m++ {
				emit([]int{i, j}, m)
			}
			for k := 0; k < nc; k++ {
				for m := 0; m < 64; m++ {
					if !thorough && (m>>4 != 0 && k > 5) {
						continue
					}
					emit([]int{i, j, k}, m)
				}
			}
		}
	}
	return out
}
