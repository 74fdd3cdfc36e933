package main

import (
	"strings"

	"verif/harness/hb"
)

var layouts = []hb.Layout{
	{Indent: "    ", Space: " ", NL: "\n"},
	{Indent: "\t", Space: "\t", NL: "\r\n"},
	{Indent: "", Space: " ", NL: "\n", Tight: true},
	{Indent: " ", Space: " ", NL: "\n", Semi: true},
	{Indent: " ", Space: " ", NL: "\n", OneLine: true},
	{Indent: " ", Space: " ", NL: "\n", OneLine: true, Tight: true, NoFinal: true},
	{Indent: "  ", Space: "  ", NL: "\n", Comment: "// end"},
	{Indent: "  ", Space: " ", NL: "\n", Comment: "/* end */", Blank: true},
	{Indent: "  ", Space: " ", NL: "\n", Lead: "/* lead\n more */"},
	{Indent: "  ", Space: " ", NL: "\n", Lead: "// lead", Blank: true, Semi: true},
	{Indent: "  ", Space: " ", NL: "\n", BlockIn: "/*in*/"},
	{Indent: "", Space: " ", NL: "\n", BlockIn: "/*in*/", Tight: true, NoFinal: true},
	{Indent: "  ", Space: " ", NL: "\n", RawQuote: true, NoFinal: true},
	{Indent: "  ", Space: " ", NL: "\n\n"},
	{Indent: "  ", Space: " ", NL: "\r\n", Comment: "//é", Semi: true, Blank: true},
}

// undoc drops the documentation, which a one-line body cannot hold.
func undoc(f hb.File) hb.File {
	g := f
	g.Decls = append([]hb.Decl{}, f.Decls...)
	for i := range g.Decls {
		d := &g.Decls[i]
		d.Fields = append([]hb.Field{}, d.Fields...)
		for j := range d.Fields {
			d.Fields[j].Doc = ""
		}
		d.Items = append([]hb.Item{}, d.Items...)
		for j := range d.Items {
			d.Items[j].Doc = ""
		}
		d.Methods = append([]hb.Method{}, d.Methods...)
		for j := range d.Methods {
			d.Methods[j].Doc = ""
		}
	}
	return g
}

// raw gives strings and comments their spelling, as hb.Abstract does.
func raw(f hb.File, l hb.Layout) *hb.File {
	q := `"`
	if l.RawQuote {
		q = "`"
	}
	g := &hb.File{}
	for _, p := range f.Packages {
		g.Packages = append(g.Packages, [2]string{p[0], q + p[1] + q})
	}
	for _, i := range f.Imports {
		g.Imports = append(g.Imports, q+i+q)
	}
	doc := func(s string) string {
		if s != "" {
			s = "//" + s
			// documentation right after a line's end comment stays its own group only when on its own line
		}
		return s
	}
	tags := func(ts []hb.Tag) []hb.Tag {
		var o []hb.Tag
		for _, t := range ts {
			x := hb.Tag{Name: t.Name}
			for _, kv := range t.KV {
				k := hb.KV{K: kv.K}
				for _, v := range kv.V {
					k.V = append(k.V, q+v+q)
				}
				x.KV = append(x.KV, k)
			}
			o = append(o, x)
		}
		return o
	}
	for _, d := range f.Decls {
		e := d
		e.Doc = doc(d.Doc)
		e.Tags = tags(d.Tags)
		e.Fields, e.Items, e.Methods = nil, nil, nil
		for _, x := range d.Fields {
			x.Doc, x.Tags = doc(x.Doc), tags(x.Tags)
			e.Fields = append(e.Fields, x)
		}
		for _, x := range d.Items {
			x.Doc, x.Tags = doc(x.Doc), tags(x.Tags)
			e.Items = append(e.Items, x)
		}
		for _, x := range d.Methods {
			x.Doc, x.Tags = doc(x.Doc), tags(x.Tags)
			e.Methods = append(e.Methods, x)
		}
		g.Decls = append(g.Decls, e)
	}
	return g
}

var typeSpellings = []string{"int32", "A?", "A[]", "A?[]", "A[]?", "A?[]?", "A<string>", "A?<string>", "A<string>?", "A?<E?>?", "string", "é?"}
var ids = []string{"0", "1", "0x1F", "0b10", "0o17", "1_000", "017", "4294967296"}

func tagSets() [][]hb.Tag {
	return [][]hb.Tag{
		nil,
		{hb.T("t")},
		{hb.T("t", "a", "1")},
		{hb.T("t", "a", "1", "b", "")},
		{hb.T("t", "a", "x y//z"), hb.T("u", "b", "q")},
		{{Name: "t", KV: []hb.KV{{K: "a", V: []string{"1", "2", "3"}}, {K: "a", V: []string{"4"}}}}, hb.T("t")},
	}
}

func exts() [][]hb.Ext {
	return [][]hb.Ext{nil, {{Name: "B", Id: "1"}}, {{Name: "B", Id: "0x2"}, {Name: "C", Id: "3"}}, {{Name: "B", Id: "1"}, {Name: "B", Id: "1"}, {Name: "é", Id: "0"}}}
}

// members is the alphabet of members of one kind.
func members(kind int) []hb.Decl {
	var out []hb.Decl
	docs := []string{"", "doc", " d d"}
	k := 0
	add := func(d hb.Decl) { d.Kind = kind; out = append(out, d) }
	for _, ts := range tagSets() {
		for _, doc := range docs {
			id := ids[k%len(ids)]
			switch kind {
			case hb.Data:
				for _, t := range typeSpellings {
					id = ids[k%len(ids)]
					k++
					add(hb.Decl{Fields: []hb.Field{{Doc: doc, Tags: ts, Type: hb.ParseType(t), Name: "f", Id: id}}})
				}
			case hb.Enum:
				for _, id := range ids {
					add(hb.Decl{Items: []hb.Item{{Doc: doc, Tags: ts, Name: "f", Id: id}}})
				}
			case hb.Server:
				for _, t := range []string{"A", "A?", "void", "string"} {
					id = ids[k%len(ids)]
					k++
					add(hb.Decl{Methods: []hb.Method{{Doc: doc, Tags: ts, Result: hb.ParseType(t), Name: "f", Param: hb.ParseType("P"), ParamName: "p", Id: id}}})
				}
				add(hb.Decl{Methods: []hb.Method{{Doc: doc, Tags: ts, Result: hb.ParseType("void"), Name: "f", Param: hb.ParseType("P?"), ParamName: "p", Id: id}}})
			}
		}
	}
	return out
}

func pick(ms []hb.Decl, max int) []hb.Decl {
	if len(ms) <= max {
		return ms
	}
	var o []hb.Decl
	st := len(ms) / max
	for i := 0; i < len(ms); i += st {
		o = append(o, ms[i])
	}
	return o
}

// models are: every member alone; every pair and triple of a member subset; every head; every pair of declarations.
func models(thorough bool) []hb.File {
	var out []hb.File
	var decls []hb.Decl
	join := func(kind int, parts ...hb.Decl) hb.Decl {
		d := hb.Decl{Kind: kind, Name: "D"}
		for i, p := range parts {
			for _, x := range p.Fields {
				x.Name += strings.Repeat("x", i)
				d.Fields = append(d.Fields, x)
			}
			for _, x := range p.Items {
				x.Name += strings.Repeat("x", i)
				d.Items = append(d.Items, x)
			}
			for _, x := range p.Methods {
				x.Name += strings.Repeat("x", i)
				d.Methods = append(d.Methods, x)
			}
		}
		return d
	}
	n2, n3 := 24, 7
	if thorough {
		n2, n3 = 80, 16
	}
	for _, kind := range []int{hb.Data, hb.Enum, hb.Server} {
		ms := members(kind)
		for _, m := range ms {
			decls = append(decls, join(kind, m))
		}
		for _, a := range pick(ms, n2) {
			for _, b := range pick(ms, n2) {
				decls = append(decls, join(kind, a, b))
			}
		}
		for _, a := range pick(ms, n3) {
			for _, b := range pick(ms, n3) {
				for _, x := range pick(ms, n3) {
					decls = append(decls, join(kind, a, b, x))
				}
			}
		}
	}
	for _, d := range decls {
		out = append(out, hb.File{Decls: []hb.Decl{d}})
	}
	var heads []hb.Decl
	for _, kind := range []int{hb.Data, hb.Enum, hb.Server} {
		ms := members(kind)
		for _, ts := range tagSets() {
			for _, doc := range []string{"", "doc"} {
				for _, ex := range exts() {
					if kind == hb.Enum && ex != nil {
						continue
					}
					for _, name := range []string{"D", "_", "é1"} {
						for nm := 0; nm < 2; nm++ {
							d := hb.Decl{Kind: kind}
							if nm == 1 {
								d = join(kind, ms[len(ms)/3])
							}
							d.Name, d.Doc, d.Tags, d.Exts = name, doc, ts, ex
							heads = append(heads, d)
						}
					}
				}
			}
		}
	}
	packs := [][][2]string{nil, {{"go", "p"}}, {{"go", "p/q"}, {"java", "com.x"}}, {{"a", ""}, {"b", ""}, {"c", "z"}}}
	imps := [][]string{nil, {"b.hbuf"}, {"../x/b.hbuf", "b.hbuf", "b.hbuf"}}
	for _, d := range heads {
		for _, p := range packs {
			for _, im := range imps {
				out = append(out, hb.File{Packages: p, Imports: im, Decls: []hb.Decl{d}})
			}
		}
	}
	hp := pick(heads, map[bool]int{false: 40, true: 120}[thorough])
	for _, a := range hp {
		for _, b := range hp {
			out = append(out, hb.File{Decls: []hb.Decl{a, b}})
		}
	}
	return out
}
