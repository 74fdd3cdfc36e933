// P26: generated Dart forms and tables show the fields and change what is edited. Every schema of the enumerated families
// is generated, its forms and tables are built by an interpreter with stand-ins of flutter and hbuf_flutter for every value
// of every field, and every control is given every input of a list.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

func main() {
	guard.Main("P26", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

// field is what the tags of a field ask for.
type field struct {
	Name, Hump, Dart string
	Type             dmodel.T
	Form, Table      string
	OnlyRead         bool
	Digit            int
	Format           string
	Index            int // 0: none is given
	MaxLine, Count   int
	Width, Height    float64
	Clip             bool
	Extensions       []string
	Rules            bool
}

func get(t *hb.Tag, key string) string {
	v, ok := sem.Get(t, key)
	if !ok || len(v) == 0 {
		return ""
	}
	return v[0]
}

func fieldOf(f sem.Field) field {
	u := sem.Tag(f.Tags, "ui")
	o := field{Name: f.Name, Hump: sem.Hump(f.Name), MaxLine: 1, Count: 1, Width: 300, Height: 300}
	if u != nil {
		o.Form, o.Table, o.Format = get(u, "form"), get(u, "table"), get(u, "format")
		o.OnlyRead, o.Clip = get(u, "onlyRead") == "true", get(u, "clip") == "true"
		o.Digit, _ = strconv.Atoi(get(u, "digit"))
		o.Index, _ = strconv.Atoi(get(u, "index"))
		if x := get(u, "maxLine"); x != "" {
			o.MaxLine, _ = strconv.Atoi(x)
		}
		if x := get(u, "maxCount"); x != "" {
			o.Count, _ = strconv.Atoi(x)
		}
		if x := get(u, "width"); x != "" {
			o.Width, _ = strconv.ParseFloat(x, 64)
		}
		if x := get(u, "height"); x != "" {
			o.Height, _ = strconv.ParseFloat(x, 64)
		}
		if v, ok := sem.Get(u, "extensions"); ok {
			o.Extensions = v
		}
	}
	if o.Format == "" {
		o.Format = "yyyy/MM/dd HH:mm:ss"
	}
	o.Rules = sem.Tag(f.Tags, "verify") != nil
	return o
}

func run(c *ev.Check) {
	us := units(c.Thorough())
	c.Extra["schemas"] = len(us)
	hb.Parallel(len(us), c.Stop, func(i int) { one(c, us[i]) })
}

func one(c *ev.Check, u unit) {
	text := hb.Text(u.files)
	bad := func(f string, a ...any) { c.Violate(u.group, fmt.Sprintf(f, a...)+"\n"+text) }
	r := hb.Run(u.files, "*.hbuf", "dart", "")
	if r.Err != nil || r.Panic != "" {
		bad("the schema is rejected: %s", r.Brief())
		return
	}
	files := map[string]string{}
	for f, t := range r.Out {
		if strings.HasSuffix(f, ".dart") {
			files[f] = t
		}
	}
	c.State(u.group)
	prog, problems := dart.Load(files)
	if len(problems) > 0 {
		bad("%v", problems[0])
		return
	}
	m, err := sem.Load(u.files)
	if err != nil {
		c.Fatal("%v", err)
	}
	w := dmodel.New()
	if err := w.Add("u", m, func(key string, x *sem.Ref) {}); err != nil {
		c.Fatal("%v", err)
	}
	un, err := dartval.NewUnit(prog, w, "u", m)
	if err != nil {
		bad("%v", err)
		return
	}
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			x := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			if x.Kind != hb.Data {
				continue
			}
			key := dmodel.Key("u", x)
			t := sem.Tag(x.Tags, "ui")
			k := &view{c: c, Run: un.Start(), key: key, hump: sem.Hump(x.Name), file: dartval.File(fn, "ui"), verify: dartval.File(fn, "verify"),
				group: u.group, text: text, form: get(t, "form") == "true", table: get(t, "table") == "true"}
			for i, y := range m.Fields(x) {
				o := fieldOf(y)
				o.Type = w.Data[key].Fields[i].Type
				o.Name = w.Data[key].Fields[i].Name
				o.Dart = un.Name(key, o.Name)
				k.fields = append(k.fields, o)
			}
			if err := k.run(prog); err != nil {
				bad("%s: %v", x.Name, err)
				return
			}
		}
	}
}
