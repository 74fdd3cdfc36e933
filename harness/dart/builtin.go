package dart

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"
)

// Int64 is the class of package:fixnum.
type Int64 int64

// Decimal is the class of package:decimal.
type Decimal struct{ R *big.Rat }

// DateTime is a moment, in microseconds.
type DateTime struct {
	US  int64
	UTC bool
}

type (
	regExp     struct{ re *regexp.Regexp }
	byteData   struct{ b *byteBuffer }
	byteBuffer struct{ l *List }
	jsonCodec  struct{}
	utf8Codec  struct{}
	mapEntry   struct {
		kt, vt *rtype
		k, v   any
	}
)

// NewDecimal reads a decimal number.
func NewDecimal(s string) *Decimal {
	r, ok := parseDecimal(s)
	if !ok {
		panic("dart: decimal " + s)
	}
	return &Decimal{r}
}

var decimalRE = regexp.MustCompile(`^([+-]?\d*)(\.\d*)?([eE][+-]?\d+)?$`)

func parseDecimal(s string) (*big.Rat, bool) {
	m := decimalRE.FindStringSubmatch(s)
	if m == nil || strings.Trim(m[1]+m[2], "+-.") == "" {
		return nil, false
	}
	if e := m[3]; e != "" {
		if n, err := strconv.Atoi(strings.TrimPrefix(e[1:], "+")); err != nil || n > 4000 || n < -4000 {
			return nil, false
		}
	}
	r, ok := new(big.Rat).SetString(strings.TrimPrefix(s, "+"))
	return r, ok
}

// String is the shortest plain form.
func (d *Decimal) String() string {
	if d.R.IsInt() {
		return d.R.Num().String()
	}
	for n := 1; n < 9000; n++ {
		s := d.R.FloatString(n)
		if r, _ := new(big.Rat).SetString(s); r.Cmp(d.R) == 0 {
			return s
		}
	}
	return d.R.String()
}

// NewBytes makes a ByteData.
func NewBytes(b []byte) any {
	l := &List{Elem: nil, Bytes: true, Fixed: true}
	for _, x := range b {
		l.L = append(l.L, int64(x))
	}
	return &byteData{&byteBuffer{l}}
}

func cmpNum(a, b any) int {
	rat := func(v any) (*big.Rat, float64) {
		switch n := v.(type) {
		case int64:
			return new(big.Rat).SetInt64(n), 0
		case float64:
			if math.IsNaN(n) || math.IsInf(n, 0) {
				return nil, n
			}
			return new(big.Rat).SetFloat64(n), n
		}
		return nil, math.NaN()
	}
	x, fx := rat(a)
	y, fy := rat(b)
	switch {
	case x == nil && math.IsNaN(fx) || y == nil && math.IsNaN(fy):
		return 2
	case x != nil && y != nil:
		return x.Cmp(y)
	case x == nil && y == nil:
		if fx < fy {
			return -1
		} else if fx > fy {
			return 1
		}
		return 0
	case x == nil:
		return int(math.Copysign(1, fx))
	}
	return -int(math.Copysign(1, fy))
}

func floatString(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	case f == 0:
		if math.Signbit(f) {
			return "-0.0"
		}
		return "0.0"
	}
	a := math.Abs(f)
	if a >= 1e21 || a < 1e-6 {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		m, e, _ := strings.Cut(s, "e")
		sign := e[:1]
		e = strings.TrimLeft(e[1:], "0")
		return m + "e" + sign + e
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func (d DateTime) iso(sep string) string {
	t := time.UnixMicro(d.US).UTC()
	y := t.Year()
	ys := fmt.Sprintf("%04d", y)
	if y < 0 {
		ys = fmt.Sprintf("-%04d", -y)
		if y < -9999 {
			ys = fmt.Sprintf("-%06d", -y)
		}
	} else if y > 9999 {
		ys = fmt.Sprintf("+%06d", y)
	}
	s := ys + t.Format("-01-02") + sep + t.Format("15:04:05.000")
	if us := d.US % 1000; us != 0 {
		s += fmt.Sprintf("%03d", ((us%1000)+1000)%1000)
	}
	if d.UTC {
		s += "Z"
	}
	return s
}

// String is what toString gives.
func (m *Machine) String(v any) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(v)
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return floatString(v)
	case string:
		return v
	case Int64:
		return strconv.FormatInt(int64(v), 10)
	case *Decimal:
		return v.String()
	case DateTime:
		return v.iso(" ")
	case *List:
		var l []string
		for _, x := range v.L {
			l = append(l, m.String(x))
		}
		s := strings.Join(l, ", ")
		switch {
		case v.Iter:
			return "(" + s + ")"
		case v.Set:
			return "{" + s + "}"
		}
		return "[" + s + "]"
	case *Map:
		var l []string
		for i, k := range v.Keys {
			l = append(l, m.String(k)+": "+m.String(v.Values[i]))
		}
		return "{" + strings.Join(l, ", ") + "}"
	case *mapEntry:
		return "MapEntry(" + m.String(v.k) + ": " + m.String(v.v) + ")"
	case *Inst:
		if f, s := m.find(m.typeOf(v), "toString", false); f != nil && !f.f.external {
			r, _ := m.callOn(v, f.f, s, nil, nil, nil).(string)
			return r
		}
		return "Instance of '" + m.typeOf(v).String() + "'"
	case *TypeV:
		return v.t.String()
	case *Thrown:
		return v.Error()
	}
	return "Instance of '" + m.typeOf(v).String() + "'"
}

const maxMS = 8640000000000000

func (m *Machine) jsonDecode(s string) any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if !json.Valid([]byte(s)) {
		m.throw("FormatException", "not JSON: %.80q", s)
	}
	v, err := m.jsonValue(d)
	if err != nil {
		m.throw("FormatException", "not JSON: %.80q", s)
	}
	return v
}

func (m *Machine) jsonValue(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		if t == '[' {
			l := &List{Elem: tDynamic}
			for d.More() {
				v, err := m.jsonValue(d)
				if err != nil {
					return nil, err
				}
				l.L = append(l.L, v)
			}
			_, err := d.Token()
			return l, err
		}
		r := &Map{K: m.core("String"), V: tDynamic}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := m.jsonValue(d)
			if err != nil {
				return nil, err
			}
			m.put(r, k, v)
		}
		_, err := d.Token()
		return r, err
	case json.Number:
		s := string(t)
		if !strings.ContainsAny(s, ".eE") {
			if i, err := strconv.ParseInt(s, 10, 64); err == nil {
				return i, nil
			}
		}
		f, _ := strconv.ParseFloat(s, 64)
		return f, nil
	}
	return t, nil
}

// Decode reads JSON as dart:convert does.
func (m *Machine) Decode(s string) (any, error) {
	return m.guard(func() any { return m.jsonDecode(s) })
}

func (m *Machine) jsonEncode(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			m.throw("JsonUnsupportedObjectError", "%v", x)
		}
		b.WriteString(floatString(x))
	case string:
		j, _ := json.Marshal(x)
		b.Write(j)
	case *List:
		if x.Iter || x.Set {
			m.throw("JsonUnsupportedObjectError", "%s", m.typeOf(v))
		}
		b.WriteByte('[')
		for i, y := range x.L {
			if i > 0 {
				b.WriteByte(',')
			}
			m.jsonEncode(b, y)
		}
		b.WriteByte(']')
	case *Map:
		b.WriteByte('{')
		for i, k := range x.Keys {
			s, ok := k.(string)
			if !ok {
				m.throw("JsonUnsupportedObjectError", "a key of type '%s'", m.typeOf(k))
			}
			if i > 0 {
				b.WriteByte(',')
			}
			j, _ := json.Marshal(s)
			b.Write(j)
			b.WriteByte(':')
			m.jsonEncode(b, x.Values[i])
		}
		b.WriteByte('}')
	default:
		if t := m.typeOf(v); t.c != nil {
			if f, s := m.find(t, "toJson", false); f != nil {
				m.jsonEncode(b, m.callOn(v, f.f, s, nil, nil, nil))
				return
			}
		}
		m.throw("JsonUnsupportedObjectError", "%s", m.typeOf(v))
	}
}

// Encode writes JSON as dart:convert does.
func (m *Machine) Encode(v any) (string, error) {
	r, err := m.guard(func() any {
		var b bytes.Buffer
		m.jsonEncode(&b, v)
		return b.String()
	})
	s, _ := r.(string)
	return s, err
}

func (m *Machine) parseInt(s string, radix int64) any {
	t := strings.TrimSpace(s)
	if radix == 0 {
		radix = 10
		u := strings.TrimLeft(t, "+-")
		if strings.HasPrefix(u, "0x") || strings.HasPrefix(u, "0X") {
			radix = 16
			t = strings.Replace(strings.Replace(t, "0x", "", 1), "0X", "", 1)
		}
	}
	if strings.Contains(t, "_") {
		return nil
	}
	n, err := strconv.ParseInt(t, int(radix), 64)
	if err != nil {
		return nil
	}
	return n
}

var doubleRE = regexp.MustCompile(`^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|Infinity|NaN)$`)

func (m *Machine) parseDouble(s string) any {
	t := strings.TrimSpace(s)
	if !doubleRE.MatchString(t) {
		return nil
	}
	t = strings.Replace(t, "Infinity", "Inf", 1)
	f, err := strconv.ParseFloat(t, 64)
	if err != nil && !strings.Contains(err.Error(), "range") {
		return nil
	}
	return f
}

var int64RE = regexp.MustCompile(`^-?[0-9]+$`)

func (m *Machine) parseInt64(s string) any {
	if !int64RE.MatchString(s) {
		return nil
	}
	b, _ := new(big.Int).SetString(s, 10)
	mod := new(big.Int).Lsh(big.NewInt(1), 64)
	b.Mod(b, mod)
	return Int64(int64(b.Uint64()))
}

func compare[T int64 | float64 | string](a, b T) int64 {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func (m *Machine) dartRegexp(s string) *regexp.Regexp {
	// \d, \w and \s mean the same for the patterns that are tested
	re, err := regexp.Compile(s)
	if err != nil {
		m.throw("FormatException", "the regular expression %q: %v", s, err)
	}
	return re
}

func first(targs []*rtype) *rtype {
	if len(targs) > 0 {
		return targs[0]
	}
	return tDynamic
}

func (m *Machine) parseDate(s string) any {
	re := regexp.MustCompile(`^([+-]?\d{4,6})-?(\d\d)-?(\d\d)(?:[ T](\d\d)(?::?(\d\d)(?::?(\d\d)(?:[.,](\d+))?)?)?( ?[zZ]| ?([-+])(\d\d)(?::?(\d\d))?)?)?$`)
	g := re.FindStringSubmatch(s)
	if g == nil {
		return nil
	}
	n := func(s string) int { v, _ := strconv.Atoi(s); return v }
	us := 0
	if g[7] != "" {
		us = n((g[7] + "000000")[:6])
	}
	t := time.Date(n(g[1]), time.Month(n(g[2])), n(g[3]), n(g[4]), n(g[5]), n(g[6]), us*1000, time.UTC)
	d := DateTime{t.UnixMicro(), g[8] != ""}
	if g[9] != "" {
		off := int64(n(g[10])*60+n(g[11])) * 60_000_000
		if g[9] == "-" {
			off = -off
		}
		d.US -= off
	}
	return d
}

func (m *Machine) or(v any, what string) any {
	if v == nil {
		m.throw("FormatException", "%s", what)
	}
	return v
}

func named[T any](n map[string]any, k string, def T) T {
	if v, ok := n[k].(T); ok {
		return v
	}
	return def
}

func opt[T any](a []any, i int, def T) T {
	if i < len(a) {
		if v, ok := a[i].(T); ok {
			return v
		}
	}
	return def
}

// native runs an external member.
func (m *Machine) native(name string, self any, a []any, n map[string]any, targs []*rtype) any {
	cl, mem, ok := strings.Cut(name, ".")
	if !ok {
		switch name {
		case "identical":
			if x, ok := a[0].(*Decimal); ok {
				return any(x) == a[1]
			}
			return a[0] == a[1]
		case "print":
			return nil
		case "jsonDecode":
			return m.jsonDecode(a[0].(string))
		case "jsonEncode":
			s := bytes.Buffer{}
			m.jsonEncode(&s, a[0])
			return s.String()
		}
		panic("dart: native " + name)
	}
	call := func(f any, a ...any) any { return m.applyTo(f, a, nil, nil) }
	switch cl {
	case "Object":
		switch mem {
		case "toString":
			return m.String(self)
		case "==":
			return m.equal(self, a[0])
		case "hashCode":
			return int64(len(m.String(self)))
		case "runtimeType":
			return &TypeV{m.typeOf(self)}
		}
	case "bool":
		switch mem {
		case "&":
			return self.(bool) && a[0].(bool)
		case "|":
			return self.(bool) || a[0].(bool)
		}
	case "num", "int", "double":
		switch mem {
		case "parse", "tryParse":
			s := a[0].(string)
			var v any
			switch cl {
			case "int":
				v = m.parseInt(s, named(n, "radix", int64(0)))
			case "double":
				v = m.parseDouble(s)
			default:
				if v = m.parseInt(s, 0); v == nil {
					v = m.parseDouble(s)
				}
			}
			if mem == "parse" {
				return m.or(v, s)
			}
			return v
		}
		return m.number(mem, self, a)
	case "String":
		return m.str(mem, self.(string), a)
	case "Iterable", "List", "Set", "Uint8List":
		if self == nil {
			switch name {
			case "Uint8List.":
				l := &List{Bytes: true, Fixed: true}
				for i := int64(0); i < a[0].(int64); i++ {
					l.L = append(l.L, int64(0))
				}
				return l
			case "Uint8List.fromList":
				l := &List{Bytes: true, Fixed: true}
				for _, x := range m.iterate(a[0]) {
					l.L = append(l.L, x.(int64)&255)
				}
				return l
			case "List.from", "List.of":
				l := &List{Elem: first(targs)}
				for _, x := range m.iterate(a[0]) {
					l.L = append(l.L, m.want(x, l.Elem, nil))
				}
				return l
			case "List.filled":
				l := &List{Elem: first(targs), Fixed: !named(n, "growable", false)}
				for i := int64(0); i < a[0].(int64); i++ {
					l.L = append(l.L, a[1])
				}
				return l
			case "List.empty":
				return &List{Elem: first(targs), Fixed: !named(n, "growable", false)}
			}
		}
		return m.list(mem, self.(*List), a, n, targs, call)
	case "MapEntry":
		switch mem {
		case "":
			e := &mapEntry{tDynamic, tDynamic, a[0], a[1]}
			if len(targs) == 2 {
				e.kt, e.vt = targs[0], targs[1]
			}
			return e
		case "key":
			return self.(*mapEntry).k
		case "value":
			return self.(*mapEntry).v
		}
	case "Map":
		if self == nil {
			r := &Map{K: tDynamic, V: tDynamic}
			if len(targs) == 2 {
				r.K, r.V = targs[0], targs[1]
			}
			for i, k := range a[0].(*Map).Keys {
				m.put(r, m.want(k, r.K, nil), m.want(a[0].(*Map).Values[i], r.V, nil))
			}
			return r
		}
		return m.mapOp(mem, self.(*Map), a, targs, call)
	case "Future", "SynchronousFuture":
		switch mem {
		case "", "value":
			return &Future{Val: a[0], Elem: first(targs)}
		case "then":
			f := self.(*Future)
			if f.Err != nil {
				return &Future{Err: f.Err, Elem: first(targs)}
			}
			v := call(a[0], f.Val)
			if g, ok := v.(*Future); ok {
				return g
			}
			return &Future{Val: v, Elem: first(targs)}
		}
	case "DateTime":
		return m.date(mem, self, a, n)
	case "RegExp":
		if mem == "" {
			return &regExp{m.dartRegexp(a[0].(string))}
		}
		return self.(*regExp).re.MatchString(a[0].(string))
	case "Exception":
		t := &Thrown{Class: "Exception"}
		if len(a) > 0 && a[0] != nil {
			t.Msg = m.String(a[0])
		}
		return t
	case "ByteBuffer":
		b := self.(*byteBuffer)
		if mem == "asUint8List" {
			return b.l
		}
		return &byteData{b}
	case "ByteData":
		switch mem {
		case "":
			l := &List{Bytes: true, Fixed: true}
			for i := int64(0); i < a[0].(int64); i++ {
				l.L = append(l.L, int64(0))
			}
			return &byteData{&byteBuffer{l}}
		case "view":
			return &byteData{a[0].(*byteBuffer)}
		case "buffer":
			return self.(*byteData).b
		case "lengthInBytes":
			return int64(len(self.(*byteData).b.l.L))
		}
	case "JsonCodec":
		switch mem {
		case "encode":
			s := bytes.Buffer{}
			m.jsonEncode(&s, a[0])
			return s.String()
		case "decode":
			return m.jsonDecode(a[0].(string))
		case "":
			return jsonCodec{}
		}
	case "Utf8Codec":
		switch mem {
		case "encode":
			l := &List{Bytes: true}
			for _, x := range []byte(a[0].(string)) {
				l.L = append(l.L, int64(x))
			}
			return l
		case "decode":
			var b []byte
			for _, x := range m.iterate(a[0]) {
				b = append(b, byte(x.(int64)))
			}
			if !utf8.Valid(b) {
				m.throw("FormatException", "not UTF-8")
			}
			return string(b)
		case "":
			return utf8Codec{}
		}
	case "Int64":
		return m.int64Op(mem, self, a)
	case "Decimal":
		return m.decimal(mem, self, a)
	}
	panic("dart: native " + name)
}

func (m *Machine) number(mem string, self any, a []any) any {
	f, isF := self.(float64)
	i, _ := self.(int64)
	toInt := func(x float64) any {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			m.throw("UnsupportedError", "%v", x)
		}
		if x >= 9.2233720368547758e18 {
			return int64(math.MaxInt64)
		}
		if x < -9.2233720368547758e18 {
			return int64(math.MinInt64)
		}
		return int64(x)
	}
	if isF {
		switch mem {
		case "toInt", "truncate":
			return toInt(math.Trunc(f))
		case "round":
			return toInt(math.Round(f))
		case "floor":
			return toInt(math.Floor(f))
		case "ceil":
			return toInt(math.Ceil(f))
		case "toDouble":
			return f
		case "abs":
			return math.Abs(f)
		case "isNaN":
			return math.IsNaN(f)
		case "isFinite":
			return !math.IsNaN(f) && !math.IsInf(f, 0)
		case "isInfinite":
			return math.IsInf(f, 0)
		case "isNegative":
			return math.Signbit(f)
		}
	} else {
		switch mem {
		case "toInt", "round", "floor", "ceil", "truncate":
			return i
		case "toDouble":
			return float64(i)
		case "abs":
			if i < 0 {
				return -i
			}
			return i
		case "isNaN", "isInfinite":
			return false
		case "isFinite":
			return true
		case "isNegative":
			return i < 0
		}
	}
	switch mem {
	case "compareTo":
		return int64(cmpNum(self, a[0]))
	case "toStringAsFixed":
		if isF {
			return strconv.FormatFloat(f, 'f', int(a[0].(int64)), 64)
		}
		return strconv.FormatFloat(float64(i), 'f', int(a[0].(int64)), 64)
	}
	panic("dart: native num." + mem)
}

func (m *Machine) str(mem, s string, a []any) any {
	switch mem {
	case "compareTo":
		return compare(s, a[0].(string))
	case "length":
		return int64(len(utf16.Encode([]rune(s))))
	case "isEmpty":
		return s == ""
	case "isNotEmpty":
		return s != ""
	case "+":
		return s + a[0].(string)
	case "*":
		if n := a[0].(int64); n > 0 {
			return strings.Repeat(s, int(n))
		}
		return ""
	case "trim":
		return strings.TrimSpace(s)
	case "toLowerCase":
		return strings.ToLower(s)
	case "toUpperCase":
		return strings.ToUpper(s)
	case "startsWith":
		return strings.HasPrefix(s, a[0].(string))
	case "endsWith":
		return strings.HasSuffix(s, a[0].(string))
	case "contains":
		return strings.Contains(s, a[0].(string))
	case "indexOf":
		i := strings.Index(s, a[0].(string))
		if i < 0 {
			return int64(-1)
		}
		return int64(len(utf16.Encode([]rune(s[:i]))))
	case "[]", "substring":
		u := utf16.Encode([]rune(s))
		from := a[0].(int64)
		to := opt(a, 1, int64(len(u)))
		if mem == "[]" {
			to = from + 1
		}
		if from < 0 || to < from || to > int64(len(u)) {
			m.throw("RangeError", "%d..%d", from, to)
		}
		return string(utf16.Decode(u[from:to]))
	case "runes":
		l := &List{Elem: m.core("int"), Fixed: true}
		for _, r := range s {
			l.L = append(l.L, int64(r))
		}
		return l
	case "split":
		l := &List{Elem: m.core("String")}
		for _, x := range strings.Split(s, a[0].(string)) {
			l.L = append(l.L, x)
		}
		return l
	case "replaceAll":
		return strings.ReplaceAll(s, a[0].(string), a[1].(string))
	}
	panic("dart: native String." + mem)
}

func (m *Machine) list(mem string, l *List, a []any, n map[string]any, targs []*rtype, call func(any, ...any) any) any {
	elem := l.Elem
	if l.Bytes {
		elem = m.core("int")
	}
	at := func() int64 {
		i := a[0].(int64)
		if i < 0 || i >= int64(len(l.L)) {
			m.throw("RangeError", "%d of %d", i, len(l.L))
		}
		return i
	}
	grow := func() {
		if l.Fixed {
			m.throw("UnsupportedError", "the list has a fixed length")
		}
	}
	switch mem {
	case "map":
		r := &List{Elem: first(targs), Iter: true}
		for _, x := range l.L {
			r.L = append(r.L, m.want(call(a[0], x), r.Elem, nil))
		}
		return r
	case "where":
		r := &List{Elem: elem, Iter: true}
		for _, x := range l.L {
			if call(a[0], x).(bool) {
				r.L = append(r.L, x)
			}
		}
		return r
	case "toList":
		return &List{Elem: elem, L: append([]any(nil), l.L...), Fixed: !named(n, "growable", true)}
	case "toSet":
		r := &List{Elem: elem, Set: true}
		for _, x := range l.L {
			m.addTo(r, x)
		}
		return r
	case "any":
		for _, x := range l.L {
			if call(a[0], x).(bool) {
				return true
			}
		}
		return false
	case "every":
		for _, x := range l.L {
			if !call(a[0], x).(bool) {
				return false
			}
		}
		return true
	case "contains":
		return m.indexOf(l.L, a[0]) >= 0
	case "indexOf":
		return int64(m.indexOf(l.L, a[0]))
	case "forEach":
		for _, x := range append([]any(nil), l.L...) {
			call(a[0], x)
		}
		return nil
	case "join":
		var s []string
		for _, x := range l.L {
			s = append(s, m.String(x))
		}
		return strings.Join(s, opt(a, 0, ""))
	case "firstWhere":
		for _, x := range l.L {
			if call(a[0], x).(bool) {
				return x
			}
		}
		if f := n["orElse"]; f != nil {
			return m.want(call(f), elem, nil)
		}
		m.throw("StateError", "No element")
	case "first", "last":
		if len(l.L) == 0 {
			m.throw("StateError", "No element")
		}
		if mem == "first" {
			return l.L[0]
		}
		return l.L[len(l.L)-1]
	case "length":
		return int64(len(l.L))
	case "isEmpty":
		return len(l.L) == 0
	case "isNotEmpty":
		return len(l.L) != 0
	case "cast":
		r := &List{Elem: first(targs), Iter: l.Iter, Set: l.Set}
		for _, x := range l.L {
			r.L = append(r.L, m.want(x, r.Elem, nil))
		}
		return r
	case "[]":
		return l.L[at()]
	case "[]=":
		v := m.want(a[1], elem, nil)
		if l.Bytes {
			v = v.(int64) & 255
		}
		l.L[at()] = v
		return nil
	case "add":
		grow()
		v := m.want(a[0], elem, nil)
		if l.Set {
			return m.addTo(l, v)
		}
		l.L = append(l.L, v)
		return nil
	case "addAll":
		grow()
		for _, x := range m.iterate(a[0]) {
			v := m.want(x, elem, nil)
			if l.Set {
				m.addTo(l, v)
			} else {
				l.L = append(l.L, v)
			}
		}
		return nil
	case "remove":
		grow()
		i := m.indexOf(l.L, a[0])
		if i >= 0 {
			l.L = append(l.L[:i:i], l.L[i+1:]...)
		}
		return i >= 0
	case "clear":
		grow()
		l.L = nil
		return nil
	case "sublist":
		from, to := a[0].(int64), opt(a, 1, int64(len(l.L)))
		if from < 0 || to < from || to > int64(len(l.L)) {
			m.throw("RangeError", "%d..%d", from, to)
		}
		return &List{Elem: elem, L: append([]any(nil), l.L[from:to]...)}
	case "buffer":
		return &byteBuffer{l}
	}
	panic("dart: native List." + mem)
}

func (m *Machine) mapOp(mem string, p *Map, a []any, targs []*rtype, call func(any, ...any) any) any {
	get := func(k any) (any, bool) {
		if i := m.indexOf(p.Keys, k); i >= 0 {
			return p.Values[i], true
		}
		return nil, false
	}
	pair := func(i int) any { return &mapEntry{p.K, p.V, p.Keys[i], p.Values[i]} }
	switch mem {
	case "[]":
		v, _ := get(a[0])
		return v
	case "[]=":
		m.put(p, m.want(a[0], p.K, nil), m.want(a[1], p.V, nil))
		return nil
	case "map":
		r := &Map{K: tDynamic, V: tDynamic}
		if len(targs) == 2 {
			r.K, r.V = targs[0], targs[1]
		}
		for i := range p.Keys {
			e, ok := call(a[0], p.Keys[i], p.Values[i]).(*mapEntry)
			if !ok {
				m.throw("TypeError", "not a MapEntry")
			}
			m.put(r, m.want(e.k, r.K, nil), m.want(e.v, r.V, nil))
		}
		return r
	case "cast":
		r := &Map{K: targs[0], V: targs[1]}
		for i := range p.Keys {
			m.put(r, m.want(p.Keys[i], r.K, nil), m.want(p.Values[i], r.V, nil))
		}
		return r
	case "keys":
		return &List{Elem: p.K, Iter: true, L: append([]any(nil), p.Keys...)}
	case "values":
		return &List{Elem: p.V, Iter: true, L: append([]any(nil), p.Values...)}
	case "entries":
		r := &List{Elem: m.core("MapEntry", p.K, p.V), Iter: true}
		for i := range p.Keys {
			r.L = append(r.L, pair(i))
		}
		return r
	case "containsKey":
		_, ok := get(a[0])
		return ok
	case "forEach":
		for i, k := range append([]any(nil), p.Keys...) {
			call(a[0], k, p.Values[i])
		}
		return nil
	case "putIfAbsent":
		if v, ok := get(a[0]); ok {
			return v
		}
		v := call(a[1])
		m.put(p, m.want(a[0], p.K, nil), m.want(v, p.V, nil))
		return v
	case "addAll":
		o := a[0].(*Map)
		for i, k := range o.Keys {
			m.put(p, m.want(k, p.K, nil), m.want(o.Values[i], p.V, nil))
		}
		return nil
	case "remove":
		i := m.indexOf(p.Keys, a[0])
		if i < 0 {
			return nil
		}
		v := p.Values[i]
		p.Keys = append(p.Keys[:i:i], p.Keys[i+1:]...)
		p.Values = append(p.Values[:i:i], p.Values[i+1:]...)
		return v
	case "length":
		return int64(len(p.Keys))
	case "isEmpty":
		return len(p.Keys) == 0
	case "isNotEmpty":
		return len(p.Keys) != 0
	}
	panic("dart: native Map." + mem)
}

func (m *Machine) date(mem string, self any, a []any, n map[string]any) any {
	d, _ := self.(DateTime)
	switch mem {
	case "fromMillisecondsSinceEpoch":
		ms := a[0].(int64)
		if ms > maxMS || ms < -maxMS {
			m.throw("ArgumentError", "DateTime is outside valid range: %d", ms)
		}
		return DateTime{ms * 1000, named(n, "isUtc", false)}
	case "now":
		return DateTime{1_600_000_000_000_000, false}
	case "parse":
		return m.or(m.parseDate(a[0].(string)), a[0].(string))
	case "tryParse":
		return m.parseDate(a[0].(string))
	case "millisecondsSinceEpoch":
		return int64(math.Floor(float64(d.US) / 1000))
	case "microsecondsSinceEpoch":
		return d.US
	case "isUtc":
		return d.UTC
	case "toUtc":
		return DateTime{d.US, true}
	case "toLocal":
		return DateTime{d.US, false}
	case "isAfter":
		return d.US > a[0].(DateTime).US
	case "isBefore":
		return d.US < a[0].(DateTime).US
	case "compareTo":
		return compare(d.US, a[0].(DateTime).US)
	case "toIso8601String":
		return d.iso("T")
	case "format":
		return FormatDate(d, a[0].(string))
	}
	panic("dart: native DateTime." + mem)
}

// FormatDate writes a date as a pattern asks, in the zone of the machine, which is UTC.
func FormatDate(d DateTime, pattern string) string {
	t := time.UnixMicro(d.US).UTC()
	return strings.NewReplacer("yyyy", fmt.Sprintf("%04d", t.Year()), "MM", t.Format("01"), "dd", t.Format("02"), "HH", t.Format("15"),
		"mm", t.Format("04"), "ss", t.Format("05"), "SSS", t.Format(".000")[1:]).Replace(pattern)
}

func (m *Machine) int64Op(mem string, self any, a []any) any {
	v, _ := self.(Int64)
	switch mem {
	case "":
		return Int64(opt(a, 0, int64(0)))
	case "parseInt":
		return m.or(m.parseInt64(a[0].(string)), a[0].(string))
	case "tryParseInt":
		return m.parseInt64(a[0].(string))
	case "ZERO":
		return Int64(0)
	case "ONE":
		return Int64(1)
	case "MAX_VALUE":
		return Int64(math.MaxInt64)
	case "MIN_VALUE":
		return Int64(math.MinInt64)
	case "toInt":
		return int64(v)
	case "toDouble":
		return float64(v)
	case "toStringUnsigned":
		return strconv.FormatUint(uint64(v), 10)
	}
	if len(a) == 1 {
		var o int64
		switch x := a[0].(type) {
		case Int64:
			o = int64(x)
		case int64:
			o = x
		default:
			m.throw("ArgumentError", "not an integer")
		}
		w := int64(v)
		switch mem {
		case "compareTo":
			return compare(w, o)
		case "<":
			return w < o
		case ">":
			return w > o
		case "<=":
			return w <= o
		case ">=":
			return w >= o
		case "+":
			return Int64(w + o)
		case "-":
			return Int64(w - o)
		}
	}
	panic("dart: native Int64." + mem)
}

func (m *Machine) decimal(mem string, self any, a []any) any {
	d, _ := self.(*Decimal)
	switch mem {
	case "fromInt":
		return &Decimal{new(big.Rat).SetInt64(a[0].(int64))}
	case "parse", "tryParse", "fromJson":
		r, ok := parseDecimal(a[0].(string))
		if !ok {
			if mem == "tryParse" {
				return nil
			}
			m.throw("FormatException", "%q is not a decimal", a[0])
		}
		return &Decimal{r}
	case "zero":
		return &Decimal{new(big.Rat)}
	case "one":
		return &Decimal{big.NewRat(1, 1)}
	case "toJson":
		return d.String()
	case "toStringAsFixed":
		return d.R.FloatString(int(a[0].(int64)))
	case "toDouble":
		f, _ := d.R.Float64()
		return f
	}
	c := d.R.Cmp(a[0].(*Decimal).R)
	switch mem {
	case "compareTo":
		return int64(c)
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case ">=":
		return c >= 0
	}
	panic("dart: native Decimal." + mem)
}

var _ = sort.Strings
