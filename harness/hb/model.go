// Package hb holds the reference model of an hbuf schema, its renderer to text and the in-process runner of the compiler.
package hb

import (
	"strings"
)

// Kinds of declarations.
const (
	Data = iota
	Enum
	Server
)

// Kinds of types.
const (
	Var = iota
	Array
	Map
)

type KV struct {
	K string
	V []string
}

type Tag struct {
	Name string
	KV   []KV
}

// T makes a tag from k, v pairs.
func T(name string, kv ...string) Tag {
	t := Tag{Name: name}
	for i := 0; i+1 < len(kv); i += 2 {
		t.KV = append(t.KV, KV{kv[i], []string{kv[i+1]}})
	}
	return t
}

// Type is T, T?, T[], T?[], T[]?, V<K>, V<K>? ...
type Type struct {
	Kind int
	Name string
	Null bool // T?
	Out  bool // outer '?' of an array or map
	Key  string
	KeyN bool // key written nullable
}

func (t Type) String() string {
	s := t.Name
	if t.Null {
		s += "?"
	}
	switch t.Kind {
	case Array:
		s += "[]"
	case Map:
		s += "<" + t.Key
		if t.KeyN {
			s += "?"
		}
		s += ">"
	}
	if t.Kind != Var && t.Out {
		s += "?"
	}
	return s
}

type Ext struct{ Name, Id string }

type Field struct {
	Doc  string
	Tags []Tag
	Type Type
	Name string
	Id   string
}

type Item struct {
	Doc  string
	Tags []Tag
	Name string
	Id   string
}

type Method struct {
	Doc       string
	Tags      []Tag
	Result    Type
	Name      string
	Param     Type
	ParamName string
	Id        string
}

type Decl struct {
	Kind    int
	Doc     string
	Tags    []Tag
	Name    string
	Exts    []Ext
	Fields  []Field
	Items   []Item
	Methods []Method
}

type File struct {
	Name     string
	Packages [][2]string
	Imports  []string
	Decls    []Decl
}

// V makes a plain type.
func V(name string) Type { return Type{Name: name} }

// N makes a nullable plain type.
func N(name string) Type { return Type{Name: name, Null: true} }

// Parse reads a type from its spelling.
func ParseType(s string) Type {
	var t Type
	if strings.HasSuffix(s, "?") && (strings.HasSuffix(s, "]?") || strings.HasSuffix(s, ">?")) {
		t.Out = true
		s = s[:len(s)-1]
	}
	if strings.HasSuffix(s, "[]") {
		t.Kind = Array
		s = s[:len(s)-2]
	} else if i := strings.Index(s, "<"); i >= 0 {
		t.Kind = Map
		t.Key = s[i+1 : len(s)-1]
		if strings.HasSuffix(t.Key, "?") {
			t.KeyN = true
			t.Key = t.Key[:len(t.Key)-1]
		}
		s = s[:i]
	}
	if strings.HasSuffix(s, "?") {
		t.Null = true
		s = s[:len(s)-1]
	}
	t.Name = s
	return t
}

// Layout is a way to write the same schema.
type Layout struct {
	Indent   string
	Space    string // between tokens of a line
	Tight    bool   // no optional blanks
	NL       string // line end
	Semi     bool   // explicit ';' before line ends
	OneLine  bool   // bodies on one line, members separated by ';'
	Comment  string // inserted at the end of lines ("// c")
	Lead     string // inserted before declarations and members, own line ("/* c */")
	BlockIn  string // block comment between tokens
	NoFinal  bool   // no line end at the end of file
	RawQuote bool   // raw string quotes
	Blank    bool   // blank lines between members
}

// DefaultLayout is the plain way.
var DefaultLayout = Layout{Indent: "    ", Space: " ", NL: "\n"}

type pr struct {
	b strings.Builder
	l Layout
}

// Render writes a file.
func (f *File) Render() string { return f.RenderAs(DefaultLayout) }

func (p *pr) end() {
	if p.l.Semi {
		p.b.WriteString(";")
	}
	if p.l.Comment != "" {
		p.b.WriteString(p.l.Space + p.l.Comment)
	}
	p.b.WriteString(p.l.NL)
}

func (p *pr) toks(ts ...string) {
	for i, t := range ts {
		if i > 0 {
			if p.l.Tight && !(word(ts[i-1]) && word(t)) {
				if p.l.BlockIn != "" {
					p.b.WriteString(p.l.BlockIn)
				}
			} else {
				p.b.WriteString(p.l.Space)
				if p.l.BlockIn != "" {
					p.b.WriteString(p.l.BlockIn + p.l.Space)
				}
			}
		}
		p.b.WriteString(t)
	}
}

func word(s string) bool {
	if s == "" {
		return false
	}
	a, b := s[0], s[len(s)-1]
	w := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	return w(a) || w(b)
}

func (p *pr) str(s string) string {
	if p.l.RawQuote {
		return "`" + s + "`"
	}
	return `"` + s + `"`
}

func (p *pr) tag(ind string, t Tag) {
	p.b.WriteString(ind)
	ts := []string{"[", t.Name, ":"}
	for i, kv := range t.KV {
		if i > 0 {
			ts = append(ts, ";")
		}
		ts = append(ts, kv.K, "=")
		for j, v := range kv.V {
			if j > 0 {
				ts = append(ts, ",")
			}
			ts = append(ts, p.str(v))
		}
	}
	ts = append(ts, "]")
	p.toks(ts...)
	p.end()
}

func (p *pr) doc(ind, doc string) {
	if p.l.Blank {
		p.b.WriteString(p.l.NL)
	}
	if p.l.Lead != "" {
		p.b.WriteString(ind + p.l.Lead + p.l.NL + p.l.NL)
	}
	if doc != "" {
		nl := p.l.NL
		if nl == "\n\n" {
			nl = "\n" // a blank line would end the documentation
		}
		p.b.WriteString(ind + "//" + doc + nl)
	}
}

func typeToks(t Type) []string {
	ts := []string{t.Name}
	if t.Null {
		ts = append(ts, "?")
	}
	switch t.Kind {
	case Array:
		ts = append(ts, "[", "]")
	case Map:
		ts = append(ts, "<", t.Key)
		if t.KeyN {
			ts = append(ts, "?")
		}
		ts = append(ts, ">")
	}
	if t.Kind != Var && t.Out {
		ts = append(ts, "?")
	}
	return ts
}

// RenderAs writes a file in a layout.
func (f *File) RenderAs(l Layout) string {
	p := &pr{l: l}
	for _, k := range f.Packages {
		p.toks("package", k[0], "=", p.str(k[1]))
		p.end()
	}
	for _, i := range f.Imports {
		p.toks("import", p.str(i))
		p.end()
	}
	for i := range f.Decls {
		p.decl(&f.Decls[i])
	}
	s := p.b.String()
	if l.NoFinal {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

func (p *pr) exts(ts []string, e []Ext) []string {
	for i, x := range e {
		if i == 0 {
			ts = append(ts, ":")
		} else {
			ts = append(ts, ",")
		}
		ts = append(ts, x.Name, "=", x.Id)
	}
	return ts
}

func (p *pr) decl(d *Decl) {
	p.doc("", d.Doc)
	for _, t := range d.Tags {
		p.tag("", t)
	}
	kw := map[int]string{Data: "data", Enum: "enum", Server: "server"}[d.Kind]
	ts := []string{kw, d.Name}
	if d.Kind != Enum {
		ts = p.exts(ts, d.Exts)
	}
	ts = append(ts, "{")
	p.toks(ts...)
	ind := p.l.Indent
	one := p.l.OneLine
	if !one {
		if p.l.Comment != "" {
			p.b.WriteString(p.l.Space + p.l.Comment)
		}
		p.b.WriteString(p.l.NL)
	}
	n := 0
	sep := func(last bool) {
		if one {
			if last {
				p.b.WriteString(p.l.Space)
			} else {
				p.b.WriteString(";" + p.l.Space)
			}
		} else {
			p.end()
		}
	}
	mem := func(doc string, tags []Tag) {
		if one {
			p.b.WriteString(p.l.Space)
			for _, t := range tags {
				ts := []string{"[", t.Name, ":"}
				for i, kv := range t.KV {
					if i > 0 {
						ts = append(ts, ";")
					}
					ts = append(ts, kv.K, "=")
					for j, v := range kv.V {
						if j > 0 {
							ts = append(ts, ",")
						}
						ts = append(ts, p.str(v))
					}
				}
				ts = append(ts, "]", ";")
				p.toks(ts...)
				p.b.WriteString(p.l.Space)
			}
			return
		}
		p.doc(ind, doc)
		for _, t := range tags {
			p.tag(ind, t)
		}
		p.b.WriteString(ind)
	}
	switch d.Kind {
	case Data:
		for i, f := range d.Fields {
			mem(f.Doc, f.Tags)
			p.toks(append(typeToks(f.Type), f.Name, "=", f.Id)...)
			n++
			sep(i == len(d.Fields)-1)
		}
	case Enum:
		for i, f := range d.Items {
			mem(f.Doc, f.Tags)
			p.toks(f.Name, "=", f.Id)
			sep(i == len(d.Items)-1)
		}
	case Server:
		for i, m := range d.Methods {
			mem(m.Doc, m.Tags)
			ts := append(typeToks(m.Result), m.Name, "(")
			ts = append(ts, typeToks(m.Param)...)
			ts = append(ts, m.ParamName, ")", "=", m.Id)
			p.toks(ts...)
			sep(i == len(d.Methods)-1)
		}
	}
	p.b.WriteString("}")
	p.end()
}
