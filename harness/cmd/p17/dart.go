package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/dunits"
	"verif/harness/dval"
	"verif/harness/ev"
	"verif/harness/hb"
	"verif/harness/sem"
)

// notDart are names no identifier of Dart can be, see P19.
var notDart = []string{"é", "a名", "aé", "名字", "constructor", dunits.Redeclared}

type dartData struct {
	u   *dartval.Unit
	key string
}

// darts are the data types of the Dart code, by what they declare.
type darts struct {
	of map[string]dartData
	mu sync.Mutex
}

var numbered = regexp.MustCompile(`\b[A-Z]\d+\b`)

// shapes of the declarations of a unit, whatever their names.
func shapes(group string, texts map[string]string) map[string]string {
	o := map[string]string{}
	for n, t := range texts {
		o[n] = group + "\x00" + numbered.ReplaceAllStringFunc(strings.ReplaceAll(t, n, "@"), func(s string) string {
			if u, ok := texts[s]; ok {
				return "(" + strings.ReplaceAll(u, s, "@") + ")"
			}
			return s
		})
	}
	return o
}

func dartCode(c *ev.Check) *darts {
	ds := &darts{of: map[string]dartData{}}
	us := dunits.Of(c.Thorough(), notDart...)
	hb.Parallel(len(us), c.Stop, func(i int) {
		u, dir := us[i], fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "dart", "")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			return
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		w := dmodel.New()
		keys, text := map[string]string{}, map[string]string{}
		if err := w.Add(dir, m, func(key string, x *sem.Ref) {
			if x.Kind == hb.Data {
				f := hb.File{Name: x.File, Decls: []hb.Decl{*x.Decl}}
				keys[x.Name], text[x.Name] = key, f.Render()
			}
		}); err != nil {
			c.Fatal("%s: %v", u.Group, err)
		}
		p, problems := dart.Load(dartval.Part(r.Out))
		if len(problems) > 0 {
			c.Violate("Dart "+u.Group, fmt.Sprintf("the Dart of %s is not well formed: %v\n%s", u.Group, problems[0], hb.Text(u.Files)))
			return
		}
		un, err := dartval.NewUnit(p, w, dir, m)
		if err != nil {
			c.Violate("Dart "+u.Group, fmt.Sprintf("%v\n%s", err, hb.Text(u.Files)))
			return
		}
		ds.mu.Lock()
		defer ds.mu.Unlock()
		for n, s := range shapes(u.Group, text) {
			ds.of[s] = dartData{un, keys[n]}
		}
	})
	return ds
}

type line struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v,omitempty"`
	J string          `json:"j,omitempty"`
	E string          `json:"e,omitempty"`
	R []string        `json:"r,omitempty"`
	W []string        `json:"w,omitempty"`
}

// dartWriter reads what Go wrote and writes it again, and writes the values itself.
func dartWriter(c *ev.Check, ds *darts, shaped, groups, texts map[string]string, values, out string) {
	in, err := os.Open(values)
	if err != nil {
		c.Fatal("%v", err)
	}
	defer in.Close()
	f, err := os.Create(out)
	if err != nil {
		c.Fatal("%v", err)
	}
	b := bufio.NewWriterSize(f, 1<<20)
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	each(c, in, ds, shaped, groups, texts, func(l *line, d *dart1) error {
		o := line{K: l.K}
		defer func() { _ = e.Encode(o) }()
		if d == nil || l.E != "" {
			return nil
		}
		want, err := d.want(l.V)
		if err != nil {
			c.Fatal("%s: %v", l.K, err)
		}
		x, err := d.read(l.J, want)
		if err != nil {
			return fmt.Errorf("Go writes %s: %v", l.J, err)
		}
		made, err := d.r.New(d.key, want)
		if err != nil {
			return err
		}
		for i, x := range []any{x, made} {
			m, err := d.r.M.Call(x, "toMap", nil, nil)
			if err != nil {
				return err
			}
			js, err := d.r.M.Encode(m)
			if err != nil {
				return err
			}
			o.R, o.W = append(o.R, js), append(o.W, []string{"Dart, after reading " + l.J, "Dart"}[i])
		}
		c.Step(2)
		c.Trace(2)
		return nil
	})
	if err := b.Flush(); err != nil {
		c.Fatal("%v", err)
	}
	if err := f.Close(); err != nil {
		c.Fatal("%v", err)
	}
}

// dartReader reads what TypeScript wrote.
func dartReader(c *ev.Check, ds *darts, shaped, groups, texts map[string]string, values, results string) {
	in, err := os.Open(values)
	if err != nil {
		c.Fatal("%v", err)
	}
	defer in.Close()
	res, err := os.Open(results)
	if err != nil {
		c.Fatal("%v", err)
	}
	defer res.Close()
	dec := json.NewDecoder(bufio.NewReaderSize(res, 1<<20))
	each(c, in, ds, shaped, groups, texts, func(l *line, d *dart1) error {
		var r line
		if err := dec.Decode(&r); err != nil {
			c.Fatal("%s: %v", results, err)
		}
		if r.K != l.K {
			c.Fatal("%s where %s is expected", r.K, l.K)
		}
		if d == nil {
			return nil
		}
		var want dval.D
		for i, js := range r.R {
			if js == l.J || strings.HasPrefix(r.W[i], "Dart") {
				continue
			}
			if want == nil {
				if want, err = d.want(l.V); err != nil {
					c.Fatal("%s: %v", l.K, err)
				}
			}
			if _, err := d.read(js, want); err != nil {
				return fmt.Errorf("%s writes %s: %v", r.W[i], js, err)
			}
			c.Step(1)
			c.Trace(1)
		}
		return nil
	})
}

// each goes through the values; there is no dart1 for types that Dart does not have.
func each(c *ev.Check, in io.Reader, ds *darts, shaped, groups, texts map[string]string, do func(l *line, d *dart1) error) {
	dec := json.NewDecoder(bufio.NewReaderSize(in, 1<<20))
	var d *dart1
	last := ""
	bad := map[string]bool{}
	for {
		var l line
		if err := dec.Decode(&l); err == io.EOF {
			return
		} else if err != nil {
			c.Fatal("values: %v", err)
		}
		if l.K != last {
			last, d = l.K, nil
			if x, ok := ds.of[shaped[l.K]]; ok {
				if w := x.u.World; !w.Endless(x.key) && !w.Barren(x.key) {
					d = &dart1{x.u.Start(), x.key, w}
				}
			}
		}
		if err := do(&l, d); err != nil && !bad[l.K] {
			bad[l.K] = true
			c.Violate(groups[l.K], fmt.Sprintf("%s with %s: %v\n%s", l.K, l.V, err, texts[l.K]))
		}
	}
}

type dart1 struct {
	r   *dartval.Run
	key string
	w   dval.World
}

// read restores a value and compares it.
func (d *dart1) read(js string, want dval.D) (any, error) {
	m, err := d.r.M.Decode(js)
	if err != nil {
		return nil, fmt.Errorf("Dart cannot read it: %v", err)
	}
	at := d.r.At[d.key]
	x, err := d.r.M.Static(at[0], at[1], "fromMap", m)
	if err != nil {
		return nil, fmt.Errorf("Dart cannot read it: %v", err)
	}
	got, err := d.r.Data(d.key, x, "what Dart reads")
	if err != nil {
		return nil, err
	}
	t := dmodel.T{Ref: "data", Name: d.key}
	if a, b := dval.Text(d.alike(t, want)), dval.Text(d.alike(t, got)); a != b {
		return nil, fmt.Errorf("Dart has %s, not %s", b, a)
	}
	return x, nil
}

// want is the value Go wrote, what is unset being as Go has it.
func (d *dart1) want(js []byte) (dval.D, error) {
	dec := json.NewDecoder(strings.NewReader(string(js)))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	x, err := d.from(dmodel.T{Ref: "data", Name: d.key}, v)
	if err != nil {
		return nil, err
	}
	return x.(dval.D), nil
}

func (d *dart1) from(t dmodel.T, v any) (any, error) {
	if v == nil {
		if t.Kind == 0 || t.Out {
			return nil, nil
		}
		return d.zero(t), nil
	}
	switch t.Kind {
	case 1:
		o := []any{}
		for _, x := range v.([]any) {
			y, err := d.from(dval.Elem(t), x)
			if err != nil {
				return nil, err
			}
			o = append(o, y)
		}
		return o, nil
	case 2:
		m := v.(map[string]any)["R"].(map[string]any)
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		o := dval.R{}
		for _, s := range keys {
			y, err := d.from(dval.Elem(t), m[s])
			if err != nil {
				return nil, err
			}
			k, err := key(dval.KeyType(t), s)
			if err != nil {
				return nil, err
			}
			o = append(o, dval.KV{K: k, V: y})
		}
		return o, nil
	}
	switch t.Ref {
	case "enum":
		n, err := v.(map[string]any)["E"].(json.Number).Int64()
		return dval.E(n), err
	case "data":
		m := v.(map[string]any)["D"].(map[string]any)
		o := dval.D{}
		for _, f := range d.w.Data[t.Name].Fields {
			x, ok := m[f.Name]
			if !ok {
				o[f.Name] = d.zero(f.Type)
				continue
			}
			y, err := d.from(f.Type, x)
			if err != nil {
				return nil, err
			}
			o[f.Name] = y
		}
		return o, nil
	}
	switch x := v.(type) {
	case json.Number:
		return number(t, string(x))
	case map[string]any:
		for k, y := range x {
			switch k {
			case "L":
				return dval.L(y.(string)), nil
			case "N":
				return dval.N(y.(string)), nil
			case "T":
				n, err := y.(json.Number).Int64()
				return dval.T(n), err
			}
		}
	}
	return v, nil
}

func number(t dmodel.T, s string) (any, error) {
	if t.Name == "float" || t.Name == "double" {
		return strconv.ParseFloat(s, 64)
	}
	return strconv.ParseInt(s, 10, 64)
}

func key(t dmodel.T, s string) (any, error) {
	if t.Ref == "enum" {
		n, err := strconv.ParseInt(s, 10, 64)
		return dval.E(n), err
	}
	switch t.Name {
	case "string":
		return s, nil
	case "int64", "uint64":
		return dval.L(s), nil
	case "decimal":
		return dval.N(s), nil
	}
	return number(t, s)
}

// zero is what Go has in a field that is not set.
func (d *dart1) zero(t dmodel.T) any {
	if t.Kind == 0 && !t.Null {
		switch {
		case t.Ref == "enum":
			return dval.E(0)
		case t.Ref == "data":
			o := dval.D{}
			for _, f := range d.w.Data[t.Name].Fields {
				o[f.Name] = d.zero(f.Type)
			}
			return o
		case t.Name == "date":
			return dval.T(-62135596800000)
		}
	}
	return d.w.Def(t)
}

// alike: lists and maps without entries are the same as none, floats have 32 bits, decimals any spelling.
func (d *dart1) alike(t dmodel.T, v any) any {
	switch t.Kind {
	case 1:
		o := []any{}
		if v != nil {
			for _, x := range v.([]any) {
				o = append(o, d.alike(dval.Elem(t), x))
			}
		}
		return o
	case 2:
		o := dval.R{}
		if v != nil {
			for _, x := range v.(dval.R) {
				o = append(o, dval.KV{K: d.alike(dval.KeyType(t), x.K), V: d.alike(dval.Elem(t), x.V)})
			}
		}
		return o
	}
	switch x := v.(type) {
	case dval.D:
		o := dval.D{}
		for _, f := range d.w.Data[t.Name].Fields {
			o[f.Name] = d.alike(f.Type, x[f.Name])
		}
		return o
	case dval.N:
		return dval.N(dart.NewDecimal(string(x)).String())
	case float64:
		if t.Name == "float" {
			return float64(float32(x))
		}
		if math.IsNaN(x) {
			return "NaN"
		}
	}
	return v
}
