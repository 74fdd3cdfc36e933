// Package dartval runs generated Dart data types: it makes their values from model values (package dval) and reads them back.
package dartval

import (
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"

	"verif/harness/dart"
	"verif/harness/dmodel"
	"verif/harness/dval"
	"verif/harness/hb"
	"verif/harness/sem"
)

// Base are the Dart types of the base types.
var Base = map[string]string{"int8": "int", "int16": "int", "int32": "int", "int64": "Int64", "uint8": "int", "uint16": "int", "uint32": "int", "uint64": "Int64",
	"bool": "bool", "float": "double", "double": "double", "string": "String", "date": "DateTime", "decimal": "Decimal"}

// File names the generated file of a kind ("data", "enum", "server") of a schema file.
func File(schema, kind string) string {
	return strings.TrimSuffix(path.Base(schema), ".hbuf") + "." + kind + ".dart"
}

// Where says where the class of a declaration is.
func Where(r *sem.Ref) (file, class string) {
	return File(r.File, []string{"data", "enum", "server"}[r.Kind]), sem.Hump(r.Name)
}

// Type is how Dart declares a type seen in a schema file.
func Type(m *sem.Model, file string, t hb.Type) string {
	name := func(n string) string {
		if b, ok := Base[n]; ok {
			return b
		}
		if r := m.Resolve(file, n); r != nil {
			_, c := Where(r)
			return c
		}
		return "?" + n
	}
	q := func(b bool) string {
		if b {
			return "?"
		}
		return ""
	}
	v := name(t.Name) + q(t.Null)
	switch t.Kind {
	case hb.Array:
		return "List<" + v + ">" + q(t.Out)
	case hb.Map:
		return "Map<" + name(t.Key) + ", " + v + ">" + q(t.Out)
	}
	return v
}

var delegate = regexp.MustCompile(`(?m)^class _\w+LocalizationsDelegate\b`)

// Part picks the Dart files that can be read: all but those of checks, and of forms only the tables of texts (forms need widgets that
// are no part of this repository).
func Part(out map[string]string) map[string]string {
	files := map[string]string{}
	for n, t := range out {
		switch {
		case strings.HasSuffix(n, ".ui.dart"):
			s := "import 'package:flutter/foundation.dart';\nimport 'package:flutter/material.dart';\n"
			if at := delegate.FindStringIndex(t); at != nil {
				s += t[at[0]:]
			}
			files[n] = s
		case strings.HasSuffix(n, ".verify.dart"):
		case strings.HasSuffix(n, ".dart"):
			files[n] = t
		}
	}
	return files
}

// Same tells whether a name of Dart stands for a name of the schema.
func Same(dartName, schema string) bool {
	return strings.TrimRight(sem.Hump(dartName), "_") == strings.TrimRight(sem.Hump(schema), "_")
}

// Unit is a loaded program with the data types of a schema.
type Unit struct {
	Prog  *dart.Program
	World dval.World
	At    map[string][2]string         // file and class of a declaration
	names map[string]map[string]string // the Dart name of a field
}

// NewUnit finds the declarations of a unit and their members; err tells of a declaration that has no class or lacks a member.
func NewUnit(p *dart.Program, w *dmodel.World, unit string, m *sem.Model) (*Unit, error) {
	u := &Unit{p, dval.World{World: w}, map[string][2]string{}, map[string]map[string]string{}}
	var err error
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			file, class := Where(r)
			key := dmodel.Key(unit, r)
			u.At[key] = [2]string{file, class}
			if r.Kind != hb.Data {
				continue
			}
			ns := map[string]string{}
			ms := p.Members(file, class)
			for _, x := range w.Data[key].Fields {
				ns[x.Name] = Pick(ms, x.Name)
				if ns[x.Name] == "" && err == nil {
					err = fmt.Errorf("%s: class %s has no member for the field %s", file, class, x.Name)
				}
			}
			u.names[key] = ns
		}
	}
	return u, err
}

// Pick finds the member that stands for a name of the schema.
func Pick(ms map[string]dart.Member, name string) (best string) {
	first := sem.LowerHump(name)
	for n, m := range ms {
		if m.Kind == "setter" || !Same(n, name) {
			continue
		}
		if n == first || n == name || best == "" || len(n) < len(best) {
			best = n
		}
	}
	return
}

// Name is the Dart name of a field.
func (u *Unit) Name(key, field string) string { return u.names[key][field] }

// Text is how Dart writes a type.
func (u *Unit) Text(t dmodel.T) string {
	name := func(ref, n string) string {
		if ref == "base" {
			return Base[n]
		}
		return u.At[n][1]
	}
	q := func(b bool) string {
		if b {
			return "?"
		}
		return ""
	}
	v := name(t.Ref, t.Name) + q(t.Null)
	switch t.Kind {
	case 1:
		return "List<" + v + ">" + q(t.Out)
	case 2:
		return "Map<" + name(t.KeyRef, t.Key) + ", " + v + ">" + q(t.Out)
	}
	return v
}

// Run is a running unit.
type Run struct {
	*Unit
	M *dart.Machine
}

// Start starts a unit.
func (u *Unit) Start() *Run { return &Run{u, dart.NewMachine(u.Prog)} }

// Make makes a value of a type for a class in a file.
func (r *Run) Make(file string, t dmodel.T, v any) (any, error) {
	if v == nil {
		return nil, nil
	}
	switch t.Kind {
	case 1:
		var l []any
		for _, x := range v.([]any) {
			y, err := r.Make(file, dval.Elem(t), x)
			if err != nil {
				return nil, err
			}
			l = append(l, y)
		}
		return r.M.NewList(file, r.Text(dval.Elem(t)), l...), nil
	case 2:
		o := r.M.NewMap(file, r.Text(dval.KeyType(t)), r.Text(dval.Elem(t)))
		for _, x := range v.(dval.R) {
			k, err := r.Make(file, dval.KeyType(t), x.K)
			if err != nil {
				return nil, err
			}
			y, err := r.Make(file, dval.Elem(t), x.V)
			if err != nil {
				return nil, err
			}
			o.Keys, o.Values = append(o.Keys, k), append(o.Values, y)
		}
		return o, nil
	}
	switch v := v.(type) {
	case dval.E:
		return r.Item(t.Name, int64(v))
	case dval.D:
		return r.New(t.Name, v)
	case dval.L:
		if n, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return dart.Int64(n), nil
		}
		n, err := strconv.ParseUint(string(v), 10, 64)
		return dart.Int64(int64(n)), err
	case dval.N:
		return dart.NewDecimal(string(v)), nil
	case dval.T:
		return dart.DateTime{US: int64(v) * 1000}, nil
	}
	return v, nil
}

// Item finds the item of an enum with a number.
func (r *Run) Item(key string, n int64) (any, error) {
	at := r.At[key]
	vs, err := r.M.StaticGet(at[0], at[1], "values")
	if err != nil {
		return nil, err
	}
	l, ok := vs.(*dart.List)
	if !ok {
		return nil, fmt.Errorf("%s.values is no list", at[1])
	}
	for _, x := range l.L {
		if v, err := r.M.Get(x, "value"); err == nil && v == any(n) {
			return x, nil
		}
	}
	return nil, fmt.Errorf("%s has no item %d", at[1], n)
}

// New makes a value of a data type by its factory.
func (r *Run) New(key string, v dval.D) (any, error) {
	at := r.At[key]
	named := map[string]any{}
	for _, f := range r.World.Data[key].Fields {
		x, err := r.Make(at[0], f.Type, v[f.Name])
		if err != nil {
			return nil, err
		}
		named[r.Name(key, f.Name)] = x
	}
	return r.M.Create(at[0], at[1], "", nil, named)
}

// Read reads a value of a type.
func (r *Run) Read(file string, t dmodel.T, v any, at string) (any, error) {
	bad := func(w string) error { return fmt.Errorf("%s is %s, %s", at, r.M.String(v), w) }
	if v == nil {
		return nil, nil
	}
	if !r.M.IsA(file, r.Text(t), v) {
		return nil, bad("which is no " + r.Text(t))
	}
	switch t.Kind {
	case 1:
		l := v.(*dart.List)
		o := []any{}
		for i, x := range l.L {
			y, err := r.Read(file, dval.Elem(t), x, fmt.Sprintf("%s[%d]", at, i))
			if err != nil {
				return nil, err
			}
			if y == nil && !t.Null {
				return nil, bad("with null in it")
			}
			o = append(o, y)
		}
		return o, nil
	case 2:
		l := v.(*dart.Map)
		o := dval.R{}
		for i, x := range l.Keys {
			k, err := r.Read(file, dval.KeyType(t), x, at+" key")
			if err != nil {
				return nil, err
			}
			y, err := r.Read(file, dval.Elem(t), l.Values[i], fmt.Sprintf("%s[%s]", at, dval.Text(k)))
			if err != nil {
				return nil, err
			}
			o = append(o, dval.KV{K: k, V: y})
		}
		return o, nil
	}
	switch t.Ref {
	case "enum":
		n, err := r.M.Get(v, "value")
		if err != nil {
			return nil, err
		}
		i, _ := n.(int64)
		x, err := r.Item(t.Name, i)
		if err != nil {
			return nil, err
		}
		if x != v {
			return nil, bad("which is not the item of the enum")
		}
		return dval.E(i), nil
	case "data":
		return r.Data(t.Name, v, at)
	}
	switch t.Name {
	case "int64":
		return dval.L(strconv.FormatInt(int64(v.(dart.Int64)), 10)), nil
	case "uint64":
		return dval.L(strconv.FormatUint(uint64(v.(dart.Int64)), 10)), nil
	case "decimal":
		return dval.N(v.(*dart.Decimal).String()), nil
	case "date":
		d := v.(dart.DateTime)
		if d.US%1000 != 0 {
			return nil, bad("with microseconds")
		}
		return dval.T(d.US / 1000), nil
	}
	return v, nil
}

// Data reads a value of a data type.
func (r *Run) Data(key string, v any, at string) (any, error) {
	w := r.At[key]
	if !r.M.IsA(w[0], w[1], v) {
		return nil, fmt.Errorf("%s is no %s", at, w[1])
	}
	o := dval.D{}
	for _, f := range r.World.Data[key].Fields {
		n := r.Name(key, f.Name)
		x, err := r.M.Get(v, n)
		if err != nil {
			return nil, err
		}
		if o[f.Name], err = r.Read(w[0], f.Type, x, at+"."+n); err != nil {
			return nil, err
		}
		if o[f.Name] == nil && !dval.Optional(f.Type) {
			return nil, fmt.Errorf("%s.%s is null", at, n)
		}
	}
	return o, nil
}

// Parts are the mutable objects a value is made of.
func (r *Run) Parts(key string, v any, out map[any]bool) {
	out[v] = true
	for _, f := range r.World.Data[key].Fields {
		x, err := r.M.Get(v, r.Name(key, f.Name))
		if err == nil {
			r.parts(f.Type, x, out)
		}
	}
}

func (r *Run) parts(t dmodel.T, v any, out map[any]bool) {
	switch x := v.(type) {
	case *dart.List:
		out[v] = true
		for _, y := range x.L {
			r.parts(dval.Elem(t), y, out)
		}
	case *dart.Map:
		out[v] = true
		for _, y := range x.Values {
			r.parts(dval.Elem(t), y, out)
		}
	case *dart.Inst:
		if t.Ref == "data" {
			r.Parts(t.Name, v, out)
		}
	}
}
