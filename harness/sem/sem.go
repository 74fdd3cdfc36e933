// Package sem is the reference meaning of schemas: which declaration a name refers to, which fields and methods a type
// has, how names are written in the targets. It is independent of the compiler except for the syntax tree.
package sem

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"hbuf/pkg/parser"
	"hbuf/pkg/token"

	"verif/harness/hb"
)

// Model is a set of files.
type Model struct {
	Files map[string]*hb.File
}

// Load reads the files of a schema.
func Load(files map[string]string) (*Model, error) {
	m := &Model{Files: map[string]*hb.File{}}
	for n, t := range files {
		a, err := parser.ParseFile(token.NewFileSet(), n, t, parser.AllErrors|parser.ParseComments)
		if err != nil {
			return nil, err
		}
		f, err := hb.Abstract(a)
		if err != nil {
			return nil, err
		}
		f.Name = n
		m.Files[n] = f
	}
	return m, nil
}

// Names lists the files in order.
func (m *Model) Names() []string {
	var ns []string
	for n := range m.Files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// Unquote reads a string literal of the language.
func Unquote(s string) string {
	if u, err := strconv.Unquote(s); err == nil {
		return u
	}
	if len(s) >= 2 {
		return s[1 : len(s)-1]
	}
	return s
}

// Package of a file for a language ("" when there is none).
func (m *Model) Package(file, lang string) string {
	for _, p := range m.Files[file].Packages {
		if p[0] == lang {
			return Unquote(p[1])
		}
	}
	return ""
}

// Ref is a declaration in a file.
type Ref struct {
	File string
	*hb.Decl
}

func find(f *hb.File, name string) *hb.Decl {
	for i := range f.Decls {
		if f.Decls[i].Name == name {
			return &f.Decls[i]
		}
	}
	return nil
}

// Resolve finds what a name means in a file: its own declarations first, then those of its imports in order.
func (m *Model) Resolve(file, name string) *Ref {
	f := m.Files[file]
	if f == nil {
		return nil
	}
	if d := find(f, name); d != nil {
		return &Ref{file, d}
	}
	for _, i := range f.Imports {
		n := path.Join(path.Dir(file), Unquote(i))
		if g := m.Files[n]; g != nil {
			if d := find(g, name); d != nil {
				return &Ref{n, d}
			}
		}
	}
	return nil
}

// Field is a field with the file that declares it.
type Field struct {
	hb.Field
	File  string
	Owner string
}

// Fields lists what a type has: inherited fields first, own fields hide inherited ones, the first of several bases wins.
func (m *Model) Fields(r *Ref) []Field {
	var out []Field
	m.fields(r, map[string]bool{}, &out)
	return out
}

func (m *Model) fields(r *Ref, seen map[string]bool, out *[]Field) {
	var own []Field
	for _, f := range r.Decl.Fields {
		if !seen[f.Name] {
			seen[f.Name] = true
			own = append(own, Field{f, r.File, r.Name})
		}
	}
	for _, e := range r.Exts {
		if b := m.Resolve(r.File, e.Name); b != nil {
			m.fields(b, seen, out)
		}
	}
	*out = append(*out, own...)
}

// Method is a method with the file and server that declare it.
type Method struct {
	hb.Method
	File  string
	Owner string
}

// Methods lists what a server has: own methods hide inherited ones, the first of several bases wins.
func (m *Model) Methods(r *Ref) []Method {
	var out []Method
	m.methods(r, map[string]bool{}, &out)
	return out
}

func (m *Model) methods(r *Ref, seen map[string]bool, out *[]Method) {
	for _, f := range r.Decl.Methods {
		if !seen[f.Name] {
			seen[f.Name] = true
			*out = append(*out, Method{f, r.File, r.Name})
		}
	}
	for _, e := range r.Exts {
		if b := m.Resolve(r.File, e.Name); b != nil {
			m.methods(b, seen, out)
		}
	}
}

// Hump writes a name in camel case with a capital.
func Hump(s string) string {
	o := ""
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			r := []rune(p)
			o += string(unicode.ToUpper(r[0])) + string(r[1:])
		}
	}
	if o == "" {
		return s
	}
	return o
}

// LowerHump writes a name in camel case with a small first letter.
func LowerHump(s string) string {
	h := []rune(Hump(s))
	if len(h) == 0 || Hump(s) == s && strings.Trim(s, "_") == "" {
		return s
	}
	return string(unicode.ToLower(h[0])) + string(h[1:])
}

// Under writes a name in lower case with underscores: a new word starts at a capital or an underscore.
// ok is false for names with empty words or other capitals than A to Z, whose form nothing defines.
func Under(s string) (name string, ok bool) {
	if s == "" || s[0] == '_' || strings.HasSuffix(s, "_") || strings.Contains(s, "__") {
		return "", false
	}
	o := ""
	for i, r := range s {
		if unicode.IsUpper(r) {
			if r >= 0x80 {
				return "", false
			}
			if i > 0 && !strings.HasSuffix(o, "_") {
				o += "_"
			}
			o += string(unicode.ToLower(r))
		} else {
			o += string(r)
		}
	}
	return o, true
}

// Number reads a number literal.
func Number(lit string) (int64, error) { return strconv.ParseInt(lit, 0, 64) }

// Tag finds a tag.
func Tag(ts []hb.Tag, name string) *hb.Tag {
	for i := range ts {
		if ts[i].Name == name {
			return &ts[i]
		}
	}
	return nil
}

// Get finds the values of a key of a tag.
func Get(t *hb.Tag, key string) ([]string, bool) {
	if t == nil {
		return nil, false
	}
	for _, kv := range t.KV {
		if kv.K == key {
			var o []string
			for _, v := range kv.V {
				o = append(o, Unquote(v))
			}
			return o, true
		}
	}
	return nil, false
}

// Base says whether a type name is built in.
func Base(n string) bool {
	switch n {
	case "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal":
		return true
	}
	return false
}

// Key names a declaration across files.
func (r *Ref) Key() string { return fmt.Sprintf("%s:%s", r.File, r.Name) }

// Tags finds every tag of a name.
func Tags(ts []hb.Tag, name string) (out []*hb.Tag) {
	for i := range ts {
		if ts[i].Name == name {
			out = append(out, &ts[i])
		}
	}
	return
}
