// Package val enumerates values of schema types and compares them with generated Go values and JSON, by reflection.
package val

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

// T is a type of the schema; Ref is "base", "enum" or "data", Name is the base type or the registry key.
type T struct {
	Kind   int // 0 plain, 1 array, 2 map
	Name   string
	Ref    string
	Null   bool
	Out    bool
	Key    string
	KeyRef string
}

func (t T) String() string {
	s := t.Name
	if t.Null {
		s += "?"
	}
	switch t.Kind {
	case 1:
		s += "[]"
	case 2:
		s += "<" + t.Key + ">"
	}
	if t.Kind != 0 && t.Out {
		s += "?"
	}
	return s
}

// Elem is the type of the values of an array or map.
func (t T) Elem() T { return T{Name: t.Name, Ref: t.Ref, Null: t.Null} }

// Optional says whether a field of this type can be unset.
func (t T) Optional() bool { return t.Kind != 0 || t.Null }

// F is a field.
type F struct {
	Name string // in the schema
	Hump string
	Wire string
	Type T
}

// D is a data type.
type D struct {
	Key    string
	Group  string
	Fields []F
}

// World knows the generated types.
type World struct {
	Data  map[string]*D
	Enums map[string][]int64
	Reg   map[string]any // data: func() any, enum: a value
	Bytes bool           // lists of uint8 may be written as base64
}

// Obj is the model value of a data type: set fields only.
type Obj map[string]any

var baseTypes = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(hbuf.Int64(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(hbuf.Uint64(0)),
	"bool": reflect.TypeOf(false), "float": reflect.TypeOf(float32(0)), "double": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""),
	"date": reflect.TypeOf(hbuf.Time{}), "decimal": reflect.TypeOf(decimal.Decimal{}),
}

func (w *World) plain(ref, name string) reflect.Type {
	switch ref {
	case "base":
		return baseTypes[name]
	case "enum":
		return reflect.TypeOf(w.Reg[name])
	}
	return reflect.TypeOf(w.New(name)).Elem()
}

// New makes a value of a data type.
func (w *World) New(key string) any { return w.Reg[key].(func() any)() }

// GoType is the type accessors of a field must have.
func (w *World) GoType(t T) reflect.Type {
	e := w.plain(t.Ref, t.Name)
	if t.Kind == 0 {
		return e
	}
	if t.Null {
		e = reflect.PtrTo(e)
	}
	if t.Kind == 1 {
		return reflect.SliceOf(e)
	}
	return reflect.MapOf(w.plain(t.KeyRef, t.Key), e)
}

// Values enumerates model values of a type, most telling first.
func (w *World) Values(t T, depth int) []any {
	switch t.Kind {
	case 1:
		es := w.Values(t.Elem(), depth)
		out := []any{[]any{es[0]}}
		if t.Null {
			out = append(out, []any{nil, es[0], nil})
		}
		if len(es) > 1 {
			out = append(out, append([]any{}, es...))
		}
		out = append(out, []any{}, []any{es[len(es)-1], es[0]})
		return out
	case 2:
		es := w.Values(t.Elem(), depth)
		ks := w.Values(T{Name: t.Key, Ref: t.KeyRef}, 0)
		keyText := func(v any) string { return keyText(t.Key, v) }
		out := []any{map[string]any{keyText(ks[0]): es[0]}}
		m := map[string]any{}
		for i, k := range ks {
			m[keyText(k)] = es[i%len(es)]
		}
		out = append(out, m, map[string]any{})
		if t.Null {
			out = append(out, map[string]any{keyText(ks[0]): nil})
		}
		return out
	}
	switch t.Ref {
	case "enum":
		out := []any{}
		for _, n := range w.Enums[t.Name] {
			out = append(out, n)
		}
		if len(out) == 0 {
			out = append(out, int64(0))
		}
		if len(out) > 1 && out[0] == int64(0) {
			out[0], out[1] = out[1], out[0]
		}
		return out
	case "data":
		d := w.Data[t.Name]
		out := []any{}
		if depth > 0 {
			all := Obj{}
			for _, f := range d.Fields {
				vs := w.Values(f.Type, depth-1)
				all[f.Name] = vs[0]
			}
			if len(all) > 0 {
				out = append(out, all)
			}
		}
		return append(out, Obj{})
	}
	switch t.Name {
	case "int8":
		return []any{int64(-128), int64(127), int64(0), int64(1)}
	case "int16":
		return []any{int64(-32768), int64(32767), int64(0)}
	case "int32":
		return []any{int64(math.MinInt32), int64(math.MaxInt32), int64(0)}
	case "int64":
		return []any{int64(math.MinInt64), int64(math.MaxInt64), int64(9007199254740993), int64(0), int64(-1)}
	case "uint8":
		return []any{uint64(255), uint64(0), uint64(128)}
	case "uint16":
		return []any{uint64(65535), uint64(0)}
	case "uint32":
		return []any{uint64(math.MaxUint32), uint64(0)}
	case "uint64":
		return []any{uint64(math.MaxUint64), uint64(9007199254740993), uint64(0)}
	case "bool":
		return []any{true, false}
	case "float":
		return []any{float64(float32(0.1)), float64(0), float64(math.MaxFloat32), float64(-1.5)}
	case "double":
		return []any{0.1, 0.0, math.MaxFloat64, -2.5, 5e-324}
	case "string":
		return []any{"a\"\\/\n\t", "", "中😀<&>\u2028\u0000", " "}
	case "date":
		return []any{Ms(1234567890123), Ms(0), Ms(-1)}
	case "decimal":
		return []any{Dec("123456789012345678901234567890.123456789"), Dec("0"), Dec("-0.10"), Dec("1e3")}
	}
	panic("type " + t.Name)
}

// Ms is a date, Dec a decimal.
type Ms int64
type Dec string

func keyText(key string, v any) string {
	switch x := v.(type) {
	case Dec:
		d, _ := decimal.NewFromString(string(x))
		return d.String()
	case float64:
		if key == "float" {
			return strconv.FormatFloat(x, 'g', -1, 32)
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case Ms:
		return strconv.FormatInt(int64(x), 10)
	}
	return fmt.Sprint(v)
}

// Make turns a model value into the Go value accessors take.
func (w *World) Make(t T, v any) reflect.Value {
	gt := w.GoType(t)
	switch t.Kind {
	case 1:
		s := reflect.MakeSlice(gt, 0, 0)
		for _, x := range v.([]any) {
			s = reflect.Append(s, w.elem(t, gt.Elem(), x))
		}
		return s
	case 2:
		m := reflect.MakeMap(gt)
		for k, x := range v.(map[string]any) {
			m.SetMapIndex(w.key(t, k), w.elem(t, gt.Elem(), x))
		}
		return m
	}
	if t.Ref == "data" {
		o := w.New(t.Name)
		if err := w.Fill(w.Data[t.Name], o, v.(Obj)); err != nil {
			panic(err)
		}
		return reflect.ValueOf(o).Elem()
	}
	switch x := v.(type) {
	case Ms:
		return reflect.ValueOf(hbuf.Time(time.UnixMilli(int64(x))))
	case Dec:
		d, err := decimal.NewFromString(string(x))
		if err != nil {
			panic(err)
		}
		return reflect.ValueOf(d)
	}
	return reflect.ValueOf(v).Convert(gt)
}

func (w *World) elem(t T, et reflect.Type, v any) reflect.Value {
	if v == nil {
		return reflect.Zero(et)
	}
	x := w.Make(t.Elem(), v)
	if t.Null {
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		return p
	}
	return x
}

func (w *World) key(t T, k string) reflect.Value {
	kt := w.plain(t.KeyRef, t.Key)
	if t.KeyRef == "base" {
		switch t.Key {
		case "string":
			return reflect.ValueOf(k)
		case "decimal":
			d, _ := decimal.NewFromString(k)
			return reflect.ValueOf(d)
		case "bool":
			return reflect.ValueOf(k == "true")
		case "float", "double":
			f, _ := strconv.ParseFloat(k, 64)
			return reflect.ValueOf(f).Convert(kt)
		case "date":
			n, _ := strconv.ParseInt(k, 10, 64)
			return reflect.ValueOf(hbuf.Time(time.UnixMilli(n)))
		case "uint64":
			n, _ := strconv.ParseUint(k, 10, 64)
			return reflect.ValueOf(n).Convert(kt)
		}
	}
	n, _ := strconv.ParseInt(k, 10, 64)
	return reflect.ValueOf(n).Convert(kt)
}

// Fill sets the fields of o through its setters.
func (w *World) Fill(d *D, o any, v Obj) error {
	for _, f := range d.Fields {
		x, ok := v[f.Name]
		if !ok {
			continue
		}
		m := reflect.ValueOf(o).MethodByName("Set" + f.Hump)
		if !m.IsValid() {
			return fmt.Errorf("there is no method Set%s", f.Hump)
		}
		gt := w.GoType(f.Type)
		if m.Type().NumIn() != 1 || m.Type().In(0) != gt || m.Type().NumOut() != 0 {
			return fmt.Errorf("Set%s is %v, not func(%v)", f.Hump, m.Type(), gt)
		}
		m.Call([]reflect.Value{w.Make(f.Type, x)})
	}
	return nil
}

// Same compares what the getters of o return with the model.
func (w *World) Same(d *D, o any, v Obj) error {
	for _, f := range d.Fields {
		m := reflect.ValueOf(o).MethodByName("Get" + f.Hump)
		if !m.IsValid() {
			return fmt.Errorf("there is no method Get%s", f.Hump)
		}
		gt := w.GoType(f.Type)
		if m.Type().NumIn() != 0 || m.Type().NumOut() != 1 || m.Type().Out(0) != gt {
			return fmt.Errorf("Get%s is %v, not func() %v", f.Hump, m.Type(), gt)
		}
		x, ok := v[f.Name]
		g := m.Call(nil)[0]
		if !ok {
			x = nil
		}
		if err := w.same(f.Type, g, x, ok); err != nil {
			return fmt.Errorf("Get%s: %v", f.Hump, err)
		}
	}
	return nil
}

func (w *World) same(t T, g reflect.Value, v any, set bool) error {
	if !set {
		if t.Kind != 0 {
			if g.Len() != 0 {
				return fmt.Errorf("%v, but it is unset", g)
			}
			return nil
		}
		switch {
		case t.Ref == "data":
			return w.Same(w.Data[t.Name], ptr(g), Obj{})
		case t.Ref == "base" && t.Name == "decimal":
			if !g.Interface().(decimal.Decimal).IsZero() {
				return fmt.Errorf("%v, but it is unset", g)
			}
			return nil
		case t.Ref == "base" && t.Name == "date":
			if !time.Time(g.Interface().(hbuf.Time)).IsZero() && time.Time(g.Interface().(hbuf.Time)).UnixMilli() != (time.Time{}).UnixMilli() {
				return fmt.Errorf("a date, but it is unset")
			}
			return nil
		}
		if !g.IsZero() {
			return fmt.Errorf("%v, but it is unset", g)
		}
		return nil
	}
	switch t.Kind {
	case 1:
		l := v.([]any)
		if g.Len() != len(l) {
			return fmt.Errorf("%d values, not %d", g.Len(), len(l))
		}
		for i := range l {
			if err := w.sameElem(t, g.Index(i), l[i]); err != nil {
				return fmt.Errorf("[%d]: %v", i, err)
			}
		}
		return nil
	case 2:
		m := v.(map[string]any)
		if g.Len() != len(m) {
			return fmt.Errorf("%d entries, not %d", g.Len(), len(m))
		}
		for _, k := range g.MapKeys() {
			n := w.keyName(t, k)
			x, ok := m[n]
			if !ok {
				return fmt.Errorf("an entry %q that was not set", n)
			}
			if err := w.sameElem(t, g.MapIndex(k), x); err != nil {
				return fmt.Errorf("[%s]: %v", n, err)
			}
		}
		return nil
	}
	if t.Ref == "data" {
		return w.Same(w.Data[t.Name], ptr(g), v.(Obj))
	}
	switch x := v.(type) {
	case Ms:
		if n := time.Time(g.Interface().(hbuf.Time)).UnixMilli(); n != int64(x) {
			return fmt.Errorf("%d, not %d", n, x)
		}
		return nil
	case Dec:
		d, _ := decimal.NewFromString(string(x))
		if n := g.Interface().(decimal.Decimal); !n.Equal(d) {
			return fmt.Errorf("%v, not %v", n, d)
		}
		return nil
	}
	if y := reflect.ValueOf(v).Convert(g.Type()).Interface(); y != g.Interface() {
		return fmt.Errorf("%v, not %v", g, v)
	}
	return nil
}

func ptr(v reflect.Value) any {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

func (w *World) sameElem(t T, g reflect.Value, v any) error {
	if t.Null {
		if v == nil {
			if !g.IsNil() {
				return fmt.Errorf("a value, not null")
			}
			return nil
		}
		if g.IsNil() {
			return fmt.Errorf("null, not %v", v)
		}
		g = g.Elem()
	}
	return w.same(t.Elem(), g, v, true)
}

func (w *World) keyName(t T, k reflect.Value) string {
	switch x := k.Interface().(type) {
	case decimal.Decimal:
		return x.String()
	case hbuf.Time:
		return strconv.FormatInt(time.Time(x).UnixMilli(), 10)
	}
	switch k.Kind() {
	case reflect.Float32:
		return strconv.FormatFloat(k.Float(), 'g', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(k.Float(), 'g', -1, 64)
	case reflect.String:
		return k.String()
	case reflect.Bool:
		return strconv.FormatBool(k.Bool())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(k.Uint(), 10)
	}
	return strconv.FormatInt(k.Int(), 10)
}

// JSON writes a model value the way the wire format prescribes; extra adds members nobody knows, nulls writes unset
// optional fields as null.
func (w *World) JSON(d *D, v Obj, extra, nulls bool) string {
	var b bytes.Buffer
	b.WriteByte('{')
	first := true
	put := func(k, x string) {
		if !first {
			b.WriteByte(',')
		}
		first = false
		q, _ := json.Marshal(k)
		b.Write(q)
		b.WriteByte(':')
		b.WriteString(x)
	}
	if extra {
		put("unknown_member_9", "{\"a\":[1,null]}")
	}
	for i := range d.Fields {
		f := d.Fields[i]
		if x, ok := v[f.Name]; ok {
			put(f.Wire, w.json(f.Type, x, extra, nulls))
		} else if nulls && f.Type.Optional() {
			put(f.Wire, "null")
		}
	}
	b.WriteByte('}')
	return b.String()
}

func (w *World) json(t T, v any, extra, nulls bool) string {
	if v == nil {
		return "null"
	}
	switch t.Kind {
	case 1:
		var l []string
		for _, x := range v.([]any) {
			l = append(l, w.json(t.Elem(), x, extra, nulls))
		}
		return "[" + strings.Join(l, ",") + "]"
	case 2:
		var l []string
		m := v.(map[string]any)
		for _, k := range keys(m) {
			q, _ := json.Marshal(k)
			l = append(l, string(q)+":"+w.json(t.Elem(), m[k], extra, nulls))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	switch t.Ref {
	case "data":
		return w.JSON(w.Data[t.Name], v.(Obj), extra, nulls)
	case "enum":
		return fmt.Sprint(v)
	}
	switch x := v.(type) {
	case Ms:
		return strconv.FormatInt(int64(x), 10)
	case Dec:
		d, _ := decimal.NewFromString(string(x))
		return "\"" + d.String() + "\""
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case string:
		q, _ := json.Marshal(x)
		return string(q)
	}
	if t.Name == "int64" || t.Name == "uint64" {
		return "\"" + fmt.Sprint(v) + "\""
	}
	return fmt.Sprint(v)
}

func keys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Wire checks a JSON text against the model.
func (w *World) Wire(d *D, text []byte, v Obj) error {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		return fmt.Errorf("not JSON: %v", err)
	}
	if err := Twice(text); err != nil {
		return err
	}
	return w.wireObj(d, x, v)
}

// Twice finds members that an object has twice.
func Twice(text []byte) error {
	dec := json.NewDecoder(bytes.NewReader(text))
	type fr struct {
		obj  bool
		keys map[string]bool
		key  bool
	}
	var st []*fr
	for {
		t, err := dec.Token()
		if err != nil {
			return nil
		}
		if dl, ok := t.(json.Delim); ok {
			switch dl {
			case '{':
				if len(st) > 0 && st[len(st)-1].obj {
					st[len(st)-1].key = true
				}
				st = append(st, &fr{obj: true, keys: map[string]bool{}, key: true})
			case '[':
				if len(st) > 0 && st[len(st)-1].obj {
					st[len(st)-1].key = true
				}
				st = append(st, &fr{})
			default:
				st = st[:len(st)-1]
			}
			continue
		}
		if len(st) > 0 && st[len(st)-1].obj {
			f := st[len(st)-1]
			if f.key {
				k := t.(string)
				if f.keys[k] {
					return fmt.Errorf("the member %q twice", k)
				}
				f.keys[k] = true
			}
			f.key = !f.key
		}
	}
}

func (w *World) wireObj(d *D, x any, v Obj) error {
	m, ok := x.(map[string]any)
	if !ok {
		return fmt.Errorf("%v is not an object", x)
	}
	known := map[string]bool{}
	for _, f := range d.Fields {
		known[f.Wire] = true
		j, has := m[f.Wire]
		mv, set := v[f.Name]
		switch {
		case !set && f.Type.Optional():
			if has && j != nil {
				return fmt.Errorf("the member %q, though the field is unset", f.Wire)
			}
		case !set && has:
			if z := w.Zero(f.Type); z != nil {
				if err := w.wire(f.Type, j, z); err != nil {
					return fmt.Errorf("%s: %v", f.Wire, err)
				}
			}
		case set && !has:
			if !w.omittable(f.Type, mv) {
				return fmt.Errorf("no member %q", f.Wire)
			}
		case set:
			if err := w.wire(f.Type, j, mv); err != nil {
				return fmt.Errorf("%s: %v", f.Wire, err)
			}
		}
	}
	for k := range m {
		if !known[k] {
			return fmt.Errorf("a member %q that belongs to no field", k)
		}
	}
	return nil
}

// Zero is the model value of an unset field that is not optional.
func (w *World) Zero(t T) any {
	switch {
	case t.Ref == "data":
		return Obj{}
	case t.Ref == "enum":
		return int64(0)
	case t.Name == "date":
		return Ms((time.Time{}).UnixMilli())
	case t.Name == "decimal":
		return Dec("0")
	case t.Name == "string":
		return ""
	case t.Name == "bool":
		return false
	case t.Name == "float" || t.Name == "double":
		return float64(0)
	case strings.HasPrefix(t.Name, "uint"):
		return uint64(0)
	}
	return int64(0)
}

// omittable: a value that reads the same when its member is missing.
func (w *World) omittable(t T, v any) bool {
	switch t.Kind {
	case 1:
		return len(v.([]any)) == 0
	case 2:
		return len(v.(map[string]any)) == 0
	}
	if t.Null || t.Ref == "data" {
		return false
	}
	return reflect.DeepEqual(v, w.Zero(t))
}

func (w *World) wire(t T, j any, v any) error {
	if v == nil {
		if j != nil {
			return fmt.Errorf("%v, not null", j)
		}
		return nil
	}
	switch t.Kind {
	case 1:
		x := v.([]any)
		if s, ok := j.(string); ok && w.Bytes && t.Ref == "base" && t.Name == "uint8" && !t.Null {
			b := make([]byte, len(x))
			for i := range x {
				b[i] = byte(x[i].(uint64))
			}
			if s != base64.StdEncoding.EncodeToString(b) {
				return fmt.Errorf("%q, not the bytes %v", s, b)
			}
			return nil
		}
		l, ok := j.([]any)
		if !ok || len(l) != len(x) {
			return fmt.Errorf("%v, not a list of %d", j, len(x))
		}
		for i := range x {
			if err := w.wire(t.Elem(), l[i], x[i]); err != nil {
				return fmt.Errorf("[%d]: %v", i, err)
			}
		}
		return nil
	case 2:
		m, ok := j.(map[string]any)
		x := v.(map[string]any)
		if !ok || len(m) != len(x) {
			return fmt.Errorf("%v, not a map of %d", j, len(x))
		}
		if t.KeyRef == "base" && (t.Key == "float" || t.Key == "double") { // any spelling of the number
			n := map[string]any{}
			for k, v := range m {
				if f, err := strconv.ParseFloat(k, 64); err == nil {
					k = keyText(t.Key, f)
				}
				n[k] = v
			}
			m = n
		}
		for k := range x {
			y, ok := m[k]
			if !ok {
				return fmt.Errorf("no entry %q", k)
			}
			if err := w.wire(t.Elem(), y, x[k]); err != nil {
				return fmt.Errorf("[%s]: %v", k, err)
			}
		}
		return nil
	}
	if t.Ref == "data" {
		return w.wireObj(w.Data[t.Name], j, v.(Obj))
	}
	num := func(s string) error {
		if n, ok := j.(json.Number); !ok || n.String() != s {
			return fmt.Errorf("%#v, not the number %s", j, s)
		}
		return nil
	}
	switch x := v.(type) {
	case Ms:
		return num(strconv.FormatInt(int64(x), 10))
	case Dec:
		d, _ := decimal.NewFromString(string(x))
		s, ok := j.(string)
		e, err := decimal.NewFromString(s)
		if !ok || err != nil || !e.Equal(d) {
			return fmt.Errorf("%#v, not the text %q", j, d.String())
		}
		return nil
	case float64:
		n, ok := j.(json.Number)
		if !ok {
			return fmt.Errorf("%#v, not the number %v", j, x)
		}
		y, err := n.Float64()
		if t.Name == "float" {
			y = float64(float32(y))
		}
		if err != nil || y != x {
			return fmt.Errorf("%v, not %v", n, x)
		}
		return nil
	case string:
		if j != any(x) {
			return fmt.Errorf("%#v, not %q", j, x)
		}
		return nil
	case bool:
		if j != any(x) {
			return fmt.Errorf("%#v, not %v", j, x)
		}
		return nil
	}
	if t.Ref == "base" && (t.Name == "int64" || t.Name == "uint64") {
		if j != any(fmt.Sprint(v)) {
			return fmt.Errorf("%#v, not the text %q", j, fmt.Sprint(v))
		}
		return nil
	}
	return num(fmt.Sprint(v))
}

// Text writes a model value for reports.
func Text(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// Assign enumerates assignments of values to the fields of a type: none, every value of every field alone, values of
// every pair of fields, and all fields together, each with its i-th value.
func (w *World) Assign(d *D, pairs int, f func(Obj) bool) {
	if !f(Obj{}) {
		return
	}
	vs := make([][]any, len(d.Fields))
	for i, x := range d.Fields {
		vs[i] = w.Values(x.Type, 2)
		for _, v := range vs[i] {
			if !f(Obj{x.Name: v}) {
				return
			}
		}
	}
	for i := range d.Fields {
		for j := i + 1; j < len(d.Fields); j++ {
			for a, v := range vs[i] {
				for b, u := range vs[j] {
					if a >= pairs || b >= pairs {
						continue
					}
					if !f(Obj{d.Fields[i].Name: v, d.Fields[j].Name: u}) {
						return
					}
				}
			}
		}
	}
	if len(d.Fields) > 2 {
		for n := 0; n < 6; n++ {
			o := Obj{}
			for i, x := range d.Fields {
				o[x.Name] = vs[i][(n+i*(n/3))%len(vs[i])]
			}
			if !f(o) {
				return
			}
		}
	}
}
