// Package p12 drives generated validation.
package p12

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"time"
	"unicode/utf8"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Rule is one declared rule.
type Rule struct {
	Code          int64
	Msg           string
	Null          bool
	Reg, Min, Max string
}

type vf struct {
	Field string // schema name
	Owner string // the type that declares it
	Rules []Rule
}

type model struct {
	Order  []string
	Data   map[string]*val.D
	Enums  map[string][]int64
	Verify map[string][]vf // data key -> fields with rules, in the order of validation
	Whole  map[string]bool
}

func Main(reg map[string]any) {
	var m model
	r := rep.Start(&m)
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	for i, k := range m.Order {
		if !r.Mine(i) || r.Full() {
			continue
		}
		r.State(k)
		x := &run{r, w, m.Data[k], m.Verify[k], m.Whole[k]}
		if t := x.all(); t != "" {
			r.Violate(x.d.Group, "%s: %s", k, t)
		}
	}
	r.End()
}

type run struct {
	r     *rep.R
	w     *val.World
	d     *val.D
	vs    []vf
	whole bool
}

func (x *run) field(n string) val.F {
	for _, f := range x.d.Fields {
		if f.Name == n {
			return f
		}
	}
	panic(n)
}

// ok: 0 satisfied, 1 broken, 2 not determined by the property.
const (
	fine = iota
	broken
	open
)

// judge says which rule a value breaks first (nil value: absent).
func (x *run) judge(t val.T, rs []Rule, v any, present bool) (int, *Rule) {
	if len(rs) == 0 {
		return fine, nil
	}
	absent := !present && (t.Null && t.Kind == 0 || t.Kind != 0 && t.Out)
	if s, ok := v.(string); present && ok && t.Null && t.Kind == 0 && s == "" {
		absent = true
	}
	if absent {
		if !rs[0].Null {
			return broken, &rs[0]
		}
		for i := range rs {
			if !rs[i].Null {
				return open, nil
			}
		}
		return fine, nil
	}
	if t.Kind != 0 || t.Ref == "data" {
		return fine, nil
	}
	if !present {
		v = x.w.Zero(t)
	}
	if t.Ref == "enum" {
		for _, n := range x.w.Enums[t.Name] {
			if n == v.(int64) {
				return fine, nil
			}
		}
		return broken, &rs[0]
	}
	for i := range rs {
		r := &rs[i]
		if !within(t, r, v) {
			return broken, r
		}
		if s, ok := v.(string); ok && r.Reg != "" && !regexp.MustCompile(r.Reg).MatchString(s) {
			return broken, r
		}
	}
	return fine, nil
}

func number(v any) (decimal.Decimal, bool) {
	switch n := v.(type) {
	case int64:
		return decimal.NewFromInt(n), true
	case uint64:
		return decimal.NewFromUint64(n), true
	case float64:
		return decimal.NewFromFloat(n), true
	case val.Dec:
		return dec(string(n)), true
	case val.Ms:
		return decimal.NewFromInt(int64(n)), true
	case string:
		return decimal.NewFromInt(int64(utf8.RuneCountInString(n))), true
	}
	return decimal.Decimal{}, false
}

func dec(s string) decimal.Decimal {
	d, err := decimal.NewFromString(s)
	if err != nil {
		panic(err)
	}
	return d
}

func bound(t val.T, s string) decimal.Decimal {
	if t.Name == "date" {
		p, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			panic(err)
		}
		return decimal.NewFromInt(p.UnixMilli())
	}
	d := dec(s)
	if t.Name == "float" { // compared as the type of the field
		f, _ := d.Float64()
		return decimal.NewFromFloat(float64(float32(f)))
	}
	return d
}

func within(t val.T, r *Rule, v any) bool {
	n, ok := number(v)
	if !ok {
		return true
	}
	if t.Name == "float" {
		n = decimal.NewFromFloat(float64(float32(v.(float64))))
	}
	return (r.Min == "" || n.GreaterThanOrEqual(bound(t, r.Min))) && (r.Max == "" || n.LessThanOrEqual(bound(t, r.Max)))
}

// values are boundary values of a type under rules.
func (x *run) values(t val.T, rs []Rule) []any {
	if t.Kind != 0 || t.Ref != "base" {
		vs := x.w.Values(t, 1)
		if t.Ref == "enum" && t.Kind == 0 {
			for n := int64(-1); n < 12; n++ {
				vs = append(vs, n)
			}
		}
		return vs
	}
	vs := append([]any{}, x.w.Values(t, 1)...)
	for _, r := range rs {
		for _, b := range []string{r.Min, r.Max} {
			if b == "" || t.Name == "bool" {
				continue
			}
			n := bound(t, b)
			for _, d := range []string{"-1", "-0.5", "0", "0.5", "1"} {
				if v := near(t, n, d); v != nil {
					vs = append(vs, v)
				}
			}
		}
	}
	if t.Name == "string" {
		vs = append(vs, strs...)
	}
	// each once, in a fixed order
	m := map[string]any{}
	for _, v := range vs {
		m[fmt.Sprintf("%T%v", v, v)] = v
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vs = nil
	for _, k := range ks {
		vs = append(vs, m[k])
	}
	return vs
}

// strs are all short strings over a small alphabet, multi-byte characters included.
var strs = func() (out []any) {
	al := []string{"a", "1", "é", "\n", "A", ".", "\\", "\"", "😀", "$", " "}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		out = append(out, s)
		if n == 0 {
			return
		}
		for _, a := range al {
			rec(s+a, n-1)
		}
	}
	rec("", 2)
	return append(out, "aaa", "aaaa", "a1a", "abc123", "12345", "ééé", "😀😀😀", "a b", "a.b", "a\"b", "ab\\")
}()

func near(t val.T, n decimal.Decimal, delta string) any {
	m := n.Add(dec(delta))
	switch t.Name {
	case "decimal":
		tiny := dec("0.0000000000000000000000001")
		if delta == "-0.5" {
			return val.Dec(n.Sub(tiny).String())
		} else if delta == "0.5" {
			return val.Dec(n.Add(tiny).String())
		}
		return val.Dec(m.String())
	case "double":
		f, _ := n.Float64()
		switch delta {
		case "-0.5":
			return math.Nextafter(f, math.Inf(-1))
		case "0.5":
			return math.Nextafter(f, math.Inf(1))
		}
		g, _ := m.Float64()
		return g
	case "float":
		f, _ := n.Float64()
		switch delta {
		case "-0.5":
			return float64(math.Nextafter32(float32(f), float32(math.Inf(-1))))
		case "0.5":
			return float64(math.Nextafter32(float32(f), float32(math.Inf(1))))
		}
		g, _ := m.Float64()
		return float64(float32(g))
	}
	if !m.IsInteger() {
		return nil
	}
	fit := func(lo, hi string) bool { return m.GreaterThanOrEqual(dec(lo)) && m.LessThanOrEqual(dec(hi)) }
	switch t.Name {
	case "int8":
		if fit("-128", "127") {
			return m.IntPart()
		}
	case "int16":
		if fit("-32768", "32767") {
			return m.IntPart()
		}
	case "int32":
		if fit("-2147483648", "2147483647") {
			return m.IntPart()
		}
	case "int64":
		if fit("-9223372036854775808", "9223372036854775807") {
			return m.IntPart()
		}
	case "uint8":
		if fit("0", "255") {
			return uint64(m.IntPart())
		}
	case "uint16":
		if fit("0", "65535") {
			return uint64(m.IntPart())
		}
	case "uint32":
		if fit("0", "4294967295") {
			return uint64(m.IntPart())
		}
	case "uint64":
		if fit("0", "18446744073709551615") {
			return m.BigInt().Uint64()
		}
	case "date":
		return val.Ms(m.IntPart())
	case "string":
		if k := m.IntPart(); k >= 0 && k < 100 {
			s := ""
			for i := int64(0); i < k; i++ {
				s += "é"
			}
			return s
		}
	}
	return nil
}

func (x *run) call(o any, name string) (err error, bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("%s crashes: %v", name, e)
		}
	}()
	f := reflect.ValueOf(o).MethodByName(name)
	if !f.IsValid() {
		return nil, "there is no method " + name
	}
	g, ok := f.Interface().(func(context.Context) error)
	if !ok {
		return nil, fmt.Sprintf("%s is %v", name, f.Type())
	}
	return g(context.Background()), ""
}

func same(err error, r *Rule) string {
	if r == nil {
		if err != nil {
			return fmt.Sprintf("fails with %v, but no rule is broken", err)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("accepts it, but the rule %s (%d) is broken", r.Msg, r.Code)
	}
	var q *rpc.Result
	if !errors.As(err, &q) || int64(q.Code) != r.Code || q.Msg != r.Msg {
		return fmt.Sprintf("fails with %#v, but the first rule broken is %s (%d)", err, r.Msg, r.Code)
	}
	return ""
}

// check validates one assignment field by field and as a whole.
func (x *run) check(o val.Obj) string {
	x.r.Step(1)
	v := x.w.New(x.d.Key)
	if err := x.w.Fill(x.d, v, o); err != nil {
		return err.Error()
	}
	first := map[string]*Rule{} // by owner: the property leaves open which of them comes first
	unsure := false
	for _, f := range x.vs {
		fd := x.field(f.Field)
		y, present := o[f.Field]
		verdict, rule := x.judge(fd.Type, f.Rules, y, present)
		err, bad := x.call(v, "Verify"+fd.Hump)
		if bad != "" {
			return fmt.Sprintf("%s: %s", val.Text(o), bad)
		}
		if verdict == open {
			unsure = true
			continue
		}
		x.r.Trace(1)
		if t := same(err, rule); t != "" {
			return fmt.Sprintf("%s: Verify%s %s", val.Text(o), fd.Hump, t)
		}
		if first[f.Owner] == nil && rule != nil {
			first[f.Owner] = rule
		}
	}
	if x.whole && !unsure {
		err, bad := x.call(v, "Verify")
		if bad != "" {
			return fmt.Sprintf("%s: %s", val.Text(o), bad)
		}
		x.r.Trace(1)
		t := ""
		if len(first) == 0 {
			t = same(err, nil)
		}
		for _, r := range first {
			if t = same(err, r); t == "" {
				break
			}
		}
		if t != "" {
			return fmt.Sprintf("%s: Verify %s", val.Text(o), t)
		}
	}
	return ""
}

func (x *run) all() string {
	if t := x.check(val.Obj{}); t != "" {
		return t
	}
	vals := map[string][]any{}
	for _, f := range x.vs {
		vals[f.Field] = x.values(x.field(f.Field).Type, f.Rules)
		for _, v := range vals[f.Field] {
			if t := x.check(val.Obj{f.Field: v}); t != "" {
				return t
			}
		}
	}
	// pairs of fields: which one is reported first
	for i, f := range x.vs {
		for _, g := range x.vs[i+1:] {
			for _, a := range x.sides(f, vals[f.Field]) {
				for _, b := range x.sides(g, vals[g.Field]) {
					o := val.Obj{f.Field: a, g.Field: b}
					for _, h := range x.vs { // the others satisfied
						if h.Field != f.Field && h.Field != g.Field {
							if s := x.sides(h, vals[h.Field]); len(s) > 0 {
								o[h.Field] = s[0]
							}
						}
					}
					if t := x.check(o); t != "" {
						return t
					}
				}
			}
		}
	}
	return ""
}

// sides are values of a field: one that is fine, then one for every rule that it can break first.
func (x *run) sides(f vf, vs []any) (out []any) {
	t := x.field(f.Field).Type
	seen := map[string]bool{}
	for _, want := range []int{fine, broken} {
		for _, v := range vs {
			s, r := x.judge(t, f.Rules, v, true)
			k := "fine"
			if r != nil {
				k = r.Msg
			}
			if s == want && !seen[k] {
				seen[k] = true
				out = append(out, v)
			}
		}
	}
	return
}
