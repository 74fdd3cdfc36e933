// Package dbref says what generated database operations should do: the statement the tags declare, built from the
// schema's tags and a model value, run on a copy of the database.
package dbref

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/drv/sqldb"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

// F is a field with a database tag.
type F struct {
	Name, Col                             string
	Json, Key, Force                      bool
	Where                                 []string
	Order, Group, Limit, Offset, Get, Set string
}

// X is a type with database operations.
type X struct {
	Key, Row, Table  string
	Fake, Own, Cache bool
	Ops              map[string]string
	F, R             []F
	Dom, RDom        map[string][]string
}

// Ref is the reference for one type.
type Ref struct {
	W *val.World
	*X
}

// Field is the field of a type.
func (r *Ref) Field(key, name string) val.F {
	for _, f := range r.W.Data[key].Fields {
		if f.Name == name {
			return f
		}
	}
	panic(key + " " + name)
}

// Null says whether a field of a type can be null.
func Null(t val.T) bool { return t.Kind == 0 && t.Null || t.Kind != 0 && t.Out }

// Param is what the database gets for a value of a field.
func (r *Ref) Param(t val.T, js bool, v any, set bool) any {
	if !set && js && (t.Kind != 0 || t.Null) {
		return "null"
	}
	if !set {
		if Null(t) {
			return nil
		}
		v = r.W.Zero(t)
	}
	if v == nil {
		if js {
			return "null"
		}
		return nil
	}
	x := r.W.Make(t, v).Interface()
	if js {
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	p, err := db.Plain(x)
	if err != nil {
		panic(err)
	}
	return sqldb.Param(p)
}

var holes = regexp.MustCompile(`\?\{\w+\}|\$\{\w+\}|\$|\?`)

// stmt collects text and parameters.
type stmt struct {
	b  strings.Builder
	ps []any
}

func (s *stmt) t(f string, a ...any) { fmt.Fprintf(&s.b, " "+f, a...) }

// fill writes a declared text with the values of the object; i picks an element.
func (r *Ref) fill(s *stmt, text string, self F, o val.Obj, i int) error {
	at := 0
	find := func(n string) F {
		for _, f := range r.F {
			if f.Name == n {
				return f
			}
		}
		panic("no field " + n)
	}
	s.b.WriteByte(' ')
	for _, m := range holes.FindAllStringIndex(text, -1) {
		s.b.WriteString(text[at:m[0]])
		at = m[1]
		h := text[m[0]:m[1]]
		f := self
		if len(h) > 1 {
			f = find(h[2 : len(h)-1])
		}
		t := r.Field(r.Key, f.Name).Type
		v, set := o[f.Name]
		if h[0] == '$' {
			if !set {
				if Null(t) {
					return fmt.Errorf("%s is not set", f.Name)
				}
				v = r.W.Zero(t)
			}
			if v == "" {
				return fmt.Errorf("%s is empty", f.Name)
			}
			s.b.WriteString(v.(string))
			continue
		}
		switch {
		case t.Kind == 1 && !f.Json && i >= 0 && len(h) == 1:
			s.b.WriteString("?")
			l := v.([]any)
			s.ps = append(s.ps, r.Param(t.Elem(), false, l[i], true))
		case t.Kind == 1 && !f.Json:
			l, _ := v.([]any)
			for k, x := range l {
				if k > 0 {
					s.b.WriteString(",")
				}
				s.b.WriteString("?")
				s.ps = append(s.ps, r.Param(t.Elem(), false, x, true))
			}
		default:
			s.b.WriteString("?")
			s.ps = append(s.ps, r.Param(t, f.Json, v, set))
		}
	}
	s.b.WriteString(text[at:])
	return nil
}

// Column says whether a field is a column.
func (r *Ref) Column(f F) bool {
	return f.Key || len(f.Where) == 0 && f.Order == "" && f.Group == "" && f.Limit == "" && f.Offset == ""
}

func (r *Ref) key() F {
	for _, f := range r.F {
		if f.Key {
			return f
		}
	}
	panic("no key")
}

// wheres adds the conditions of fields that are set.
func (r *Ref) wheres(s *stmt, o val.Obj) error {
	for _, f := range r.F {
		t := r.Field(r.Key, f.Name).Type
		v, set := o[f.Name]
		for i, w := range f.Where {
			if t.Kind == 1 && len(f.Where) > 1 {
				l, _ := v.([]any)
				if i >= len(l) || l[i] == nil {
					continue
				}
				if err := r.fill(s, w, f, o, i); err != nil {
					return err
				}
				continue
			}
			if Null(t) && !set {
				continue
			}
			if l, _ := v.([]any); t.Kind == 1 && len(l) == 0 {
				continue
			}
			if err := r.fill(s, w, f, o, -1); err != nil {
				return err
			}
		}
	}
	return nil
}

func (r *Ref) tail(s *stmt, o val.Obj, group, order, limit bool) error {
	n := 0
	for _, f := range r.F {
		_, set := o[f.Name]
		if !group || f.Group == "" || !set && Null(r.Field(r.Key, f.Name).Type) {
			continue
		}
		if n == 0 {
			s.t("GROUP BY")
		} else {
			s.t(",")
		}
		n++
		if err := r.fill(s, f.Group, f, o, -1); err != nil {
			return err
		}
	}
	n = 0
	for _, f := range r.F {
		if !order || f.Order == "" || o[f.Name] != "ASC" && o[f.Name] != "DESC" {
			continue
		}
		if n == 0 {
			s.t("ORDER BY")
		} else {
			s.t(",")
		}
		n++
		if err := r.fill(s, f.Order, f, o, -1); err != nil {
			return err
		}
	}
	if !limit {
		return nil
	}
	for _, f := range r.F {
		t := r.Field(r.Key, f.Name).Type
		v, set := o[f.Name]
		if f.Limit == "" || !set && Null(t) {
			continue
		}
		s.t("LIMIT ?")
		s.ps = append(s.ps, r.Param(t, false, v, set))
		for _, g := range r.F {
			if g.Offset != "" {
				v, set := o[g.Name]
				p := r.Param(r.Field(r.Key, g.Name).Type, false, v, set)
				if p == nil {
					p = int64(0)
				}
				s.t("OFFSET ?")
				s.ps = append(s.ps, p)
			}
		}
	}
	return nil
}

// Cols are the expressions read and the fields they go to.
func (r *Ref) Cols(fs []F) (items []string, to []F) {
	for _, f := range fs {
		if f.Get != "" {
			items = append(items, strings.ReplaceAll(f.Get, "?", f.Col))
		} else if r.Column(f) {
			items = append(items, f.Col)
		} else {
			continue
		}
		to = append(to, f)
	}
	return
}

// Want is what an operation should do.
type Want struct {
	Kind string // select, exec, none (no statement is issued), free (nothing may be touched, the rest is open)
	Text string
	Ps   []any
	To   []F // the fields of the items
	Row  string
	Map  string // the key field of a map
}

func mode(v string) string {
	if i := strings.LastIndexByte(v, ':'); i >= 0 {
		v = v[i+1:]
	}
	return strings.ToLower(v)
}

// Has says whether the operation is declared.
func (r *Ref) Has(op string) bool {
	v := r.Ops[op]
	if op == "count" || op == "del" || op == "rm" {
		return strings.ToLower(v) == "true"
	}
	m := mode(v)
	return m == "self" || m == "parent"
}

// Row is the type of the rows an operation returns or takes and its fields.
func (r *Ref) RowOf(op string) (string, []F) {
	if mode(r.Ops[op]) == "parent" {
		return r.Row, r.R
	}
	return r.Key, r.F
}

// Writes are the columns an operation on the object writes: with skip, those of null fields are left out.
func (r *Ref) writes(s *stmt, o val.Obj, skip bool) error {
	n := 0
	for _, f := range r.F {
		text := f.Set
		if text == "" {
			if !r.Own || !r.Column(f) {
				continue
			}
			text = "?"
		}
		if _, set := o[f.Name]; skip && !set && !f.Force && Null(r.Field(r.Key, f.Name).Type) {
			continue
		}
		if n > 0 {
			s.t(",")
		}
		n++
		s.t("%s =", f.Col)
		if err := r.fill(s, text, f, o, -1); err != nil {
			return err
		}
	}
	if n == 0 {
		return fmt.Errorf("nothing is written")
	}
	return nil
}

// Op says what an operation on an object should do; list is what inserts takes.
func (r *Ref) Op(op, table string, o val.Obj, list []val.Obj) Want {
	s := &stmt{}
	w := Want{Kind: "exec"}
	var err error
	fail := func(e error) {
		if err == nil {
			err = e
		}
	}
	byKey := func() {
		k := r.key()
		v, set := o[k.Name]
		s.t("AND %s = ?", k.Col)
		s.ps = append(s.ps, r.Param(r.Field(r.Key, k.Name).Type, k.Json, v, set))
	}
	where := func(hide bool) {
		if hide && r.Fake {
			s.t("WHERE delete_time IS NULL")
		} else {
			s.t("WHERE 1 = 1")
		}
	}
	switch op {
	case "get", "list", "map":
		var fs []F
		w.Kind = "select"
		w.Row, fs = r.RowOf(op)
		var items []string
		items, w.To = r.Cols(fs)
		s.t("SELECT %s FROM %s", strings.Join(items, ", "), table)
		where(true)
		if op == "get" && r.Own {
			byKey()
		} else {
			fail(r.wheres(s, o))
		}
		if op == "get" {
			if !r.Own {
				fail(r.tail(s, o, true, true, false))
			}
			s.t("LIMIT 1")
		} else {
			fail(r.tail(s, o, true, true, true))
		}
		if op == "map" {
			w.Map = r.Ops[op][:strings.IndexByte(r.Ops[op], ':')]
		}
	case "count":
		w.Kind = "select"
		s.t("SELECT COUNT(1) FROM %s", table)
		where(true)
		fail(r.wheres(s, o))
		fail(r.tail(s, o, true, false, false))
	case "del", "rm":
		if op == "del" && r.Fake {
			s.t("UPDATE %s SET delete_time = NOW()", table)
		} else {
			s.t("DELETE FROM %s", table)
		}
		where(false)
		if r.Own {
			byKey()
		} else {
			fail(r.wheres(s, o))
			fail(r.tail(s, o, false, false, true))
		}
	case "insert":
		s.t("INSERT INTO %s SET", table)
		fail(r.writes(s, o, false))
	case "inserts":
		if len(list) == 0 {
			return Want{Kind: "none"}
		}
		row, fs := r.RowOf(op)
		var cols []string
		var cf []F
		for _, f := range fs {
			if r.Column(f) {
				cols = append(cols, f.Col)
				cf = append(cf, f)
			}
		}
		s.t("INSERT INTO %s (%s) VALUES", table, strings.Join(cols, ", "))
		for i, x := range list {
			if i > 0 {
				s.t(",")
			}
			s.t("(%s)", strings.TrimSuffix(strings.Repeat("?,", len(cf)), ","))
			for _, f := range cf {
				v, set := x[f.Name]
				s.ps = append(s.ps, r.Param(r.Field(row, f.Name).Type, f.Json, v, set))
			}
		}
	case "update", "set":
		s.t("UPDATE %s SET", table)
		fail(r.writes(s, o, op == "update"))
		where(false)
		if r.Own {
			byKey()
		} else {
			fail(r.wheres(s, o))
		}
	default:
		panic(op)
	}
	if err != nil {
		return Want{Kind: "free"}
	}
	w.Text, w.Ps = s.b.String(), s.ps
	return w
}

// Columns of the table and their types, in order; delete_time comes last.
func (r *Ref) Columns() (cols []string, fs []F) {
	seen := map[string]bool{}
	for _, f := range r.R {
		if r.Column(f) && !seen[f.Col] {
			seen[f.Col] = true
			cols = append(cols, f.Col)
			fs = append(fs, f)
		}
	}
	return append(cols, "delete_time"), fs
}

// Dyn calls a method of a generated value.
func Dyn(o any, name string, args ...any) (out []any, bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("%s crashes: %v", name, e)
		}
	}()
	m := reflect.ValueOf(o).MethodByName(name)
	if !m.IsValid() {
		return nil, "there is no method " + name
	}
	if m.Type().NumIn() != len(args) {
		return nil, fmt.Sprintf("%s is %v", name, m.Type())
	}
	var in []reflect.Value
	for i, a := range args {
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(m.Type().In(i)) {
			return nil, fmt.Sprintf("%s is %v", name, m.Type())
		}
		in = append(in, v)
	}
	for _, v := range m.Call(in) {
		out = append(out, v.Interface())
	}
	return
}
