package dbref

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strconv"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/drv/sqldb"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

// Dom are the values of a field: the declared domain or the first values of its type.
func (r *Ref) Values(t val.T, dom []string, n int) (out []any) {
	conv := func(s string) any {
		switch {
		case t.Name == "string":
			return s
		case t.Ref == "base" && len(t.Name) > 4 && t.Name[:4] == "uint":
			v, _ := strconv.ParseUint(s, 10, 64)
			return v
		}
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return v
	}
	if dom == nil {
		out = r.W.Values(t, 1)
		if t.Kind == 0 && t.Ref == "base" && t.Name == "float" {
			out = out[:len(out)-1]
		}
	} else if t.Kind == 1 {
		var l []any
		for _, s := range dom {
			l = append(l, conv(s))
		}
		out = append(out, l)
		for i := range l {
			out = append(out, l[i:i+1])
		}
		if len(l) > 1 {
			out = append(out, []any{l[1], l[0]})
		}
		if t.Null {
			out = append(out, append([]any{nil}, l...), []any{l[0], nil})
		}
		out = append(out, []any{})
		return
	} else {
		for _, s := range dom {
			out = append(out, conv(s))
		}
		return
	}
	if len(out) > n {
		out = out[:n]
	}
	return
}

// Mix enumerates choices: all of them when they are few, else every pair of deviations from both ends.
func Mix(ns []int, max int, f func(c []int)) {
	p := 1
	for _, n := range ns {
		p *= n
		if p > max {
			break
		}
	}
	if p <= max {
		c := make([]int, len(ns))
		for {
			f(append([]int{}, c...))
			i := 0
			for i < len(ns) {
				c[i]++
				if c[i] < ns[i] {
					break
				}
				c[i] = 0
				i++
			}
			if i == len(ns) {
				return
			}
		}
	}
	seen := map[string]bool{}
	emit := func(c []int) {
		k := fmt.Sprint(c)
		if !seen[k] {
			seen[k] = true
			f(append([]int{}, c...))
		}
	}
	for base := 0; base < 2; base++ {
		c := make([]int, len(ns))
		for i := range c {
			if base < ns[i] {
				c[i] = base
			}
		}
		emit(c)
		for i := range c {
			a := c[i]
			for x := 0; x < ns[i]; x++ {
				c[i] = x
				emit(c)
				for j := i + 1; j < len(c); j++ {
					b := c[j]
					for y := 0; y < ns[j]; y++ {
						c[j] = y
						emit(c)
					}
					c[j] = b
				}
			}
			c[i] = a
		}
	}
}

// Deleted is when rows of the first table were deleted.
var Deleted = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)

// Table makes rows over the domains of the columns, deleted and not.
func (r *Ref) Make(max int) *sqldb.Table {
	cols, fs := r.Columns()
	t := &sqldb.Table{Cols: cols}
	var ns []int
	var vs [][]any
	for _, f := range fs {
		ft := r.Field(r.Row, f.Name).Type
		var l []any
		for _, v := range r.Values(ft, r.RDom[f.Name], 2) {
			l = append(l, r.Param(ft, f.Json, v, true))
		}
		if Null(ft) {
			l = append(l, r.Param(ft, f.Json, nil, true))
		}
		vs = append(vs, l)
		ns = append(ns, len(l))
	}
	ns = append(ns, 2)
	Mix(ns, max, func(c []int) {
		var row []any
		for i := range fs {
			row = append(row, vs[i][c[i]])
		}
		if c[len(fs)] == 1 {
			row = append(row, Deleted)
		} else {
			row = append(row, nil)
		}
		t.Rows = append(t.Rows, row)
	})
	sort.SliceStable(t.Rows, func(i, j int) bool { return hash(t.Rows[i]) < hash(t.Rows[j]) })
	return t
}

func hash(r []any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, r)
	return h.Sum64()
}

// Objects are the values of a type: tagged fields over their domains.
func (r *Ref) Objects(key string, fs []F, dom map[string][]string, max int, f func(val.Obj)) {
	var ns []int
	var ts []val.T
	var vs [][]any
	for _, x := range fs {
		t := r.Field(key, x.Name).Type
		l := r.Values(t, dom[x.Name], 2)
		ts = append(ts, t)
		vs = append(vs, l)
		ns = append(ns, len(l)+1)
	}
	base := val.Obj{}
	tagged := map[string]bool{}
	for _, x := range fs {
		tagged[x.Name] = true
	}
	for _, x := range r.W.Data[key].Fields {
		if !tagged[x.Name] {
			base[x.Name] = r.W.Values(x.Type, 0)[0]
		}
	}
	Mix(ns, max, func(c []int) {
		o := val.Obj{}
		for k, v := range base {
			o[k] = v
		}
		for i, x := range fs {
			if c[i] > 0 {
				o[x.Name] = vs[i][c[i]-1]
			}
		}
		f(o)
	})
}

// Held is what a field of a generated value is for the database.
func (r *Ref) Held(o any, key string, f F) (any, error) {
	h := r.Field(key, f.Name).Hump
	v := reflect.ValueOf(o)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	v = v.FieldByName(h)
	if !v.IsValid() {
		return nil, fmt.Errorf("there is no field %s", h)
	}
	if f.Json {
		b, err := json.Marshal(v.Interface())
		if err != nil {
			return nil, err
		}
		return string(b), nil
	}
	p, err := db.Plain(v.Interface())
	if err != nil {
		return nil, err
	}
	return sqldb.Param(p), nil
}

// Eq compares values of the database; js: JSON null is null.
func Eq(a, b any, js bool) bool {
	if js {
		if a == "null" {
			a = nil
		}
		if b == "null" {
			b = nil
		}
	}
	if x, ok := a.(time.Time); ok {
		if y, ok := b.(time.Time); ok {
			return x.Equal(y)
		}
		return false
	}
	return a == b
}

// SameRow compares a generated value with a row read: fields that are not read must be unset.
func (r *Ref) SameRow(o any, key string, to []F, row []any) error {
	read := map[string]bool{}
	for i, f := range to {
		read[f.Name] = true
		h, err := r.Held(o, key, f)
		if err != nil {
			return err
		}
		t := r.Field(key, f.Name).Type
		if row[i] == nil && !Null(t) && Eq(h, r.Param(t, f.Json, nil, false), f.Json) {
			continue
		}
		if !Eq(h, row[i], f.Json) {
			return fmt.Errorf("%s is %v, but the database has %v", f.Name, h, row[i])
		}
	}
	v := reflect.ValueOf(o)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	for _, f := range r.W.Data[key].Fields {
		if x := v.FieldByName(f.Hump); !read[f.Name] && x.IsValid() && !x.IsZero() {
			return fmt.Errorf("%s is set, but it was not read", f.Name)
		}
	}
	return nil
}
