// Package p10 drives generated enums.
package p10

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
)

type item struct {
	Name  string
	Value int64
}

type enum struct {
	Key, Group string
	Items      []item
}

type facts struct {
	values, consts map[string]int64
	name           func(int64) string
	pointer        func(int64) int64
}

// Enum is a generated enum: its function for the values, its zero and its constants.
type Enum struct {
	Values any
	Zero   any
	Consts map[string]int64
}

type named interface{ ToName() string }

func (e Enum) facts() *facts {
	t := reflect.TypeOf(e.Zero)
	mk := func(i int64) reflect.Value {
		v := reflect.New(t).Elem()
		v.SetInt(i)
		return v
	}
	o := &facts{values: map[string]int64{}, consts: e.Consts}
	vs := reflect.ValueOf(e.Values).Call(nil)[0]
	for _, k := range vs.MapKeys() {
		o.values[k.String()] = vs.MapIndex(k).Int()
	}
	o.name = func(i int64) string { return mk(i).Interface().(named).ToName() }
	o.pointer = func(i int64) int64 {
		v := mk(i)
		p := v.MethodByName("Pointer").Call(nil)[0]
		p.Elem().SetInt(p.Elem().Int() - 1)
		if v.Int() != i {
			return i - 1
		}
		return v.MethodByName("Pointer").Call(nil)[0].Elem().Int()
	}
	return o
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func Main(reg map[string]any) {
	var m struct{ Enums []enum }
	r := rep.Start(&m)
	for i, e := range m.Enums {
		if !r.Mine(i) || r.Full() {
			continue
		}
		r.State("go " + e.Key)
		if s := check(r, e, reg[e.Key].(Enum).facts()); s != "" {
			r.Violate(e.Group, "Go %s: %s", e.Key, s)
		}
	}
	r.End()
}

func check(r *rep.R, e enum, f *facts) string {
	if len(f.values) != len(e.Items) {
		return fmt.Sprintf("the values are %v", f.values)
	}
	known := map[int64]bool{}
	for _, it := range e.Items {
		r.Step(1)
		known[it.Value] = true
		if v := f.consts[it.Name]; v != it.Value {
			return fmt.Sprintf("the constant of %s is %d, not %d", it.Name, v, it.Value)
		}
		n := f.name(it.Value)
		if norm(n) != norm(it.Name) {
			return fmt.Sprintf("%d has the name %q, not %q", it.Value, n, it.Name)
		}
		if v, ok := f.values[n]; !ok || v != it.Value {
			return fmt.Sprintf("the value of the name %q is %d (%v), not %d", n, v, ok, it.Value)
		}
		if p := f.pointer(it.Value); p != it.Value {
			return fmt.Sprintf("the pointer to %d points to %d", it.Value, p)
		}
	}
	for _, it := range e.Items {
		for _, v := range []int64{it.Value + 1, it.Value - 1, -it.Value} {
			r.Step(1)
			if n := f.name(v); !known[v] && n != "" {
				return fmt.Sprintf("%d, which is no item, has the name %q", v, n)
			}
		}
	}
	return ""
}
