// Package dval enumerates boundary values of the types that dmodel describes, as model values that belong to no language.
package dval

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/harness/dmodel"
)

// A model value is nil, a bool, a string, a float64, an int64 (up to 32 bits), or one of these.
type (
	// L is a number of 64 bits.
	L string
	// N is a decimal number.
	N string
	// T is a date, in milliseconds.
	T int64
	// E is an item of an enum.
	E int64
	// R is a map in the order it was made.
	R []KV
	// KV is an entry of a map.
	KV struct{ K, V any }
	// D are the fields of a data type.
	D map[string]any
)

// Text of a value: equal values have equal texts.
func Text(v any) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case string:
		return strconv.Quote(v)
	case float64:
		if v == 0 {
			v = 0
		}
		return strconv.FormatFloat(v, 'g', -1, 64) + "f"
	case L:
		return string(v) + "L"
	case N:
		return string(v) + "N"
	case T:
		return fmt.Sprint(int64(v), "T")
	case E:
		return fmt.Sprint("#", int64(v))
	case []any:
		var l []string
		for _, x := range v {
			l = append(l, Text(x))
		}
		return "[" + strings.Join(l, ",") + "]"
	case R:
		var l []string
		for _, x := range v {
			l = append(l, Text(x.K)+":"+Text(x.V))
		}
		sort.Strings(l)
		return "<" + strings.Join(l, ",") + ">"
	case D:
		var l []string
		for k, x := range v {
			l = append(l, k+":"+Text(x))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return fmt.Sprint(v)
}

// Open stands for a value the schema does not determine.
type Open struct{}

// World answers questions about the values of the types of a dmodel world.
type World struct{ *dmodel.World }

// Elem is the type of the elements of a list or the values of a map.
func Elem(t dmodel.T) dmodel.T { return dmodel.T{Name: t.Name, Ref: t.Ref, Null: t.Null} }

// KeyType is the type of the keys of a map.
func KeyType(t dmodel.T) dmodel.T { return dmodel.T{Name: t.Key, Ref: t.KeyRef} }

// Optional tells whether a value can be null.
func Optional(t dmodel.T) bool {
	if t.Kind != 0 {
		return t.Out
	}
	return t.Null
}

// Endless tells whether a value of a data type needs another value of the same type inside.
func (w World) Endless(key string, seen ...string) bool {
	for _, s := range seen {
		if s == key {
			return true
		}
	}
	for _, f := range w.Data[key].Fields {
		if f.Type.Kind == 0 && f.Type.Ref == "data" && !f.Type.Null && w.Endless(f.Type.Name, append(append([]string{}, seen...), key)...) {
			return true
		}
	}
	return false
}

// Barren tells whether a value needs an item of an enum that has none. The data type must not be endless.
func (w World) Barren(key string) bool {
	for _, f := range w.Data[key].Fields {
		if f.Type.Kind == 0 && !f.Type.Null {
			if f.Type.Ref == "enum" && len(w.Enums[f.Type.Name]) == 0 || f.Type.Ref == "data" && w.Barren(f.Type.Name) {
				return true
			}
		}
	}
	return false
}

// Def is what a missing member becomes.
func (w World) Def(t dmodel.T) any {
	if Optional(t) {
		return nil
	}
	switch t.Kind {
	case 1:
		return []any{}
	case 2:
		return R{}
	}
	switch t.Ref {
	case "enum":
		for _, n := range w.Enums[t.Name] {
			if n == 0 {
				return E(0)
			}
		}
		return Open{}
	case "data":
		o := D{}
		for _, f := range w.Data[t.Name].Fields {
			o[f.Name] = w.Def(f.Type)
		}
		return o
	}
	switch t.Name {
	case "int64", "uint64":
		return L("0")
	case "bool":
		return false
	case "string":
		return ""
	case "date":
		return T(0)
	case "decimal":
		return N("0")
	case "float", "double":
		return 0.0
	}
	return int64(0)
}

// Determined tells whether nothing in a value is open.
func Determined(v any) bool {
	switch v := v.(type) {
	case Open:
		return false
	case D:
		for _, x := range v {
			if !Determined(x) {
				return false
			}
		}
	}
	return true
}

// Least is a value as small as there is.
func (w World) Least(t dmodel.T) any {
	if t.Kind == 0 && !t.Null {
		switch t.Ref {
		case "enum":
			if d := w.Def(t); d != (Open{}) {
				return d
			}
			return E(w.Enums[t.Name][0])
		case "data":
			return w.LeastData(t.Name)
		}
	}
	return w.Def(t)
}

// LeastData is the least value of a data type.
func (w World) LeastData(key string) D {
	o := D{}
	for _, f := range w.Data[key].Fields {
		o[f.Name] = w.Least(f.Type)
	}
	return o
}

func of[X any](l ...X) (out []any) {
	for _, x := range l {
		out = append(out, x)
	}
	return
}

// Values are boundary values of a type, never null.
func (w World) Values(t dmodel.T, depth int) (out []any) {
	switch t.Kind {
	case 1:
		es := w.Values(Elem(t), depth)
		if len(es) == 0 {
			return of([]any{})
		}
		out = append(out, []any{es[0]})
		if t.Null {
			out = append(out, []any{nil, es[0], nil})
		}
		return append(out, append([]any{}, es...), []any{}, []any{es[len(es)-1], es[0]})
	case 2:
		es, ks := w.Values(Elem(t), depth), w.Values(KeyType(t), 0)
		if len(es) == 0 || len(ks) == 0 {
			return of(R{})
		}
		var all R
		for i, k := range ks {
			all = append(all, KV{k, es[i%len(es)]})
		}
		out = of(R{{ks[0], es[0]}}, all, R{})
		if t.Null {
			out = append(out, R{{ks[0], nil}})
		}
		return out
	}
	switch t.Ref {
	case "enum":
		for _, n := range w.Enums[t.Name] {
			out = append([]any{E(n)}, out...)
		}
		return out
	case "data":
		if w.Endless(t.Name) || w.Barren(t.Name) {
			return nil
		}
		if depth > 0 {
			all := D{}
			for _, f := range w.Data[t.Name].Fields {
				if vs := w.Values(f.Type, depth-1); len(vs) > 0 {
					all[f.Name] = vs[0]
				} else {
					all[f.Name] = w.Least(f.Type)
				}
			}
			out = append(out, all)
		}
		return append(out, w.LeastData(t.Name))
	}
	switch t.Name {
	case "int8":
		return of[int64](-128, 127, 0, 1)
	case "int16":
		return of[int64](-32768, 32767, 0)
	case "int32":
		return of[int64](math.MinInt32, math.MaxInt32, 0)
	case "int64":
		return of[L]("-9223372036854775808", "9223372036854775807", "9007199254740993", "0", "-1")
	case "uint8":
		return of[int64](255, 0, 128)
	case "uint16":
		return of[int64](65535, 0)
	case "uint32":
		return of[int64](4294967295, 0)
	case "uint64":
		return of[L]("18446744073709551615", "9007199254740993", "0")
	case "bool":
		return of(true, false)
	case "float":
		return of(float64(float32(0.1)), 0, math.MaxFloat32, -1.5)
	case "double":
		return of(0.1, 0, math.MaxFloat64, -2.5, 5e-324)
	case "string":
		return of("a\"\\/\n\t", "", "中😀<&>\u2028\x00", " ", "$x ${y}")
	case "date":
		return of[T](1234567890123, 0, -1)
	case "decimal":
		return of[N]("123456789012345678901234567890.123456789", "0", "-0.1", "1000")
	}
	panic("type " + t.Name)
}
