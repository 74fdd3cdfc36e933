package hb

import (
	"fmt"
	"sort"
	"strings"

	"hbuf/pkg/ast"
)

// Abstract turns the compiler's tree into the model; string literals and comments keep their raw spelling.
func Abstract(f *ast.File) (m *File, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("malformed tree: %v", e)
		}
	}()
	m = &File{}
	var ks []string
	for k := range f.Packages {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m.Packages = append(m.Packages, [2]string{k, f.Packages[k].Value.Value})
	}
	for _, i := range f.Imports {
		m.Imports = append(m.Imports, i.Path.Value)
	}
	for _, s := range f.Specs {
		switch x := s.(type) {
		case *ast.ImportSpec:
		case *ast.TypeSpec:
			m.Decls = append(m.Decls, absDecl(x))
			if x.Name.Name != m.Decls[len(m.Decls)-1].Name {
				return nil, fmt.Errorf("declaration %s holds type %s", x.Name.Name, m.Decls[len(m.Decls)-1].Name)
			}
		default:
			return nil, fmt.Errorf("unexpected declaration %T", s)
		}
	}
	return m, nil
}

func absDoc(g *ast.CommentGroup) string {
	if g == nil {
		return ""
	}
	var l []string
	for _, c := range g.List {
		l = append(l, c.Text)
	}
	return strings.Join(l, "\x01")
}

func absTags(ts []*ast.Tag) []Tag {
	var out []Tag
	for _, t := range ts {
		x := Tag{Name: t.Name.Name}
		for _, kv := range t.KV {
			k := KV{K: kv.Name.Name}
			for _, v := range kv.Values {
				k.V = append(k.V, v.Value)
			}
			x.KV = append(x.KV, k)
		}
		out = append(out, x)
	}
	return out
}

func absType(e ast.Expr) Type {
	switch x := e.(type) {
	case *ast.VarType:
		return Type{Name: x.TypeExpr.(*ast.Ident).Name, Null: x.Empty}
	case *ast.ArrayType:
		t := absType(x.VType)
		t.Kind, t.Out = Array, x.Empty
		return t
	case *ast.MapType:
		t := absType(x.VType)
		k := absType(x.Key)
		t.Kind, t.Out, t.Key, t.KeyN = Map, x.Empty, k.Name, k.Null
		return t
	}
	panic(fmt.Sprintf("type %T", e))
}

func absExts(es []*ast.Extends) []Ext {
	var out []Ext
	for _, e := range es {
		out = append(out, Ext{e.Name.Name, e.Id.Value})
	}
	return out
}

func absDecl(s *ast.TypeSpec) Decl {
	switch x := s.Type.(type) {
	case *ast.DataType:
		d := Decl{Kind: Data, Doc: absDoc(x.Doc), Tags: absTags(x.Tags), Name: x.Name.Name, Exts: absExts(x.Extends)}
		for _, f := range x.Fields.List {
			d.Fields = append(d.Fields, Field{absDoc(f.Doc), absTags(f.Tags), absType(f.Type), f.Name.Name, f.Id.Value})
		}
		return d
	case *ast.EnumType:
		d := Decl{Kind: Enum, Doc: absDoc(x.Doc), Tags: absTags(x.Tags), Name: x.Name.Name}
		for _, f := range x.Items {
			d.Items = append(d.Items, Item{absDoc(f.Doc), absTags(f.Tags), f.Name.Name, f.Id.Value})
		}
		return d
	case *ast.ServerType:
		d := Decl{Kind: Server, Doc: absDoc(x.Doc), Tags: absTags(x.Tags), Name: x.Name.Name, Exts: absExts(x.Extends)}
		for _, f := range x.Methods {
			d.Methods = append(d.Methods, Method{absDoc(f.Doc), absTags(f.Tags), absType(f.Result), f.Name.Name, absType(f.Param), f.ParamName.Name, f.Id.Value})
		}
		return d
	}
	panic(fmt.Sprintf("declaration %T", s.Type))
}

// Canon spells a model file out for comparison.
func Canon(f *File) string {
	var b strings.Builder
	pk := map[string]string{}
	var ks []string
	for _, p := range f.Packages {
		if _, ok := pk[p[0]]; !ok {
			ks = append(ks, p[0])
		}
		pk[p[0]] = p[1]
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "package %s=%s\n", k, pk[k])
	}
	for _, i := range f.Imports {
		fmt.Fprintf(&b, "import %s\n", i)
	}
	tags := func(ts []Tag) {
		for _, t := range ts {
			fmt.Fprintf(&b, " tag %s", t.Name)
			for _, kv := range t.KV {
				fmt.Fprintf(&b, " %s=%q", kv.K, kv.V)
			}
			b.WriteByte('\n')
		}
	}
	for _, d := range f.Decls {
		fmt.Fprintf(&b, "decl %d %s exts %v doc %q\n", d.Kind, d.Name, d.Exts, d.Doc)
		tags(d.Tags)
		for _, x := range d.Fields {
			fmt.Fprintf(&b, " field %s %s = %s doc %q\n", x.Type, x.Name, x.Id, x.Doc)
			tags(x.Tags)
		}
		for _, x := range d.Items {
			fmt.Fprintf(&b, " item %s = %s doc %q\n", x.Name, x.Id, x.Doc)
			tags(x.Tags)
		}
		for _, x := range d.Methods {
			fmt.Fprintf(&b, " method %s %s(%s %s) = %s doc %q\n", x.Result, x.Name, x.Param, x.ParamName, x.Id, x.Doc)
			tags(x.Tags)
		}
	}
	return b.String()
}
