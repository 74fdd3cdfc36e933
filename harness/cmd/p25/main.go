// P25: generated Dart validation agrees with generated Go validation. The schemas of P12 are generated for both; the Go
// code judges every boundary value of every field, then the Dart validators judge the texts of the same values, and
// texts that are no values.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/rules"
	"verif/harness/sem"
)

type model struct {
	*dmodel.World
	Verify map[string][]rules.Field
	Whole  map[string]bool
}

type verdict struct {
	Key   string          `json:"k"`
	Field string          `json:"f"`
	Value json.RawMessage `json:"v"`
	Ok    bool            `json:"ok"`
	Msg   string          `json:"m"`
	Bad   string          `json:"bad"`
}

// where the validators of a data type are
type where struct {
	prog        *dart.Program
	file, class string
	text        string
}

func main() {
	guard.Main("P25", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

func run(c *ev.Check) {
	p := &gorun.Prog{Driver: "p22"}
	w := dmodel.New()
	mo := &model{World: w, Verify: map[string][]rules.Field{}, Whole: map[string]bool{}}
	at := map[string]where{}
	us := rules.Units(c.Thorough())
	for _, u := range us {
		for f, t := range u.Files { // no field has another type than the inherited one, see P19
			u.Files[f] = strings.ReplaceAll(t, " string? text = 1\n", " string text = 1\n")
		}
	}
	progs := make([]*dart.Program, len(us))
	outs := make([]map[string]string, len(us))
	hb.Parallel(len(us), c.Stop, func(i int) {
		u := us[i]
		d := hb.Run(u.Files, "*.hbuf", "dart", "")
		if d.Err != nil || d.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+d.Brief()+"\n"+hb.Text(u.Files))
			return
		}
		outs[i] = dartval.Part(d.Out)
		for f, t := range d.Out {
			if strings.HasSuffix(f, ".verify.dart") {
				outs[i][f] = t
			}
		}
		prog, problems := dart.Load(outs[i])
		if len(problems) > 0 {
			c.Violate(u.Group, fmt.Sprintf("the Dart of %s is not well formed: %v\n%s", u.Group, problems[0], short(hb.Text(u.Files), "")))
			return
		}
		progs[i] = prog
	})
	n := 0
	for i, u := range us {
		if progs[i] == nil {
			continue
		}
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "go", "gen/"+dir+"/")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			return
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
		err = w.Add(dir, m, func(key string, x *sem.Ref) {
			pkg := p.Import("gen/" + dir + "/" + m.Package(x.File, "go"))
			switch x.Kind {
			case hb.Data:
				p.Reg(key, "func() any { return new("+pkg+"."+sem.Hump(x.Name)+") }")
				w.Data[key].Group = u.Group + " " + x.Name
				_, class := dartval.Where(x)
				at[key] = where{progs[i], dartval.File(x.File, "verify"), class, hb.Text(u.Files)}
				fs, err := rules.Of(m, x)
				if err != nil {
					c.Fatal("%v", err)
				}
				mo.Verify[key] = fs
				n += len(fs)
			case hb.Enum:
				p.Reg(key, pkg+"."+sem.Hump(x.Name)+"(0)")
			}
		})
		if err != nil {
			c.Fatal("%v", err)
		}
	}
	c.Extra["fields with rules"] = n
	p.Model = mo
	bin, dir, cerr := p.Build(c)
	defer os.RemoveAll(dir)
	if cerr != "" {
		c.Violate("generated code does not compile", "the generated Go code does not compile:\n"+cerr)
		return
	}
	const shards = 16
	hb.Parallel(shards, c.Stop, func(i int) {
		cmd := exec.Command(bin, filepath.Join(dir, "model.json"), c.Tier, fmt.Sprint(i), fmt.Sprint(shards))
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		if err != nil {
			c.Fatal("the verdicts of the Go code cannot be taken: %v", err)
		}
		dec := json.NewDecoder(bytes.NewReader(out))
		j := &judge{c: c, mo: mo, at: at, bad: map[string]bool{}}
		for n := 0; ; n++ {
			var v verdict
			if err := dec.Decode(&v); err == io.EOF {
				break
			} else if err != nil {
				c.Fatal("verdicts: %v", err)
			}
			if c.Stop() {
				return
			}
			j.one(&v)
			if n%9973 == 0 {
				c.Sample(fmt.Sprintf("%s.%s = %s: accepted %v %s", v.Key, v.Field, v.Value, v.Ok, v.Msg))
			}
		}
	})
}

func short(t, class string) string {
	if len(t) > 6000 && class != "" {
		if j := strings.Index(t, "data "+class+" "); j > 0 {
			t = t[j:]
		}
	}
	if len(t) > 3000 {
		t = t[:3000] + "..."
	}
	return t
}

type judge struct {
	c     *ev.Check
	mo    *model
	at    map[string]where
	bad   map[string]bool
	prog  *dart.Program
	m     *dart.Machine
	ctx   any
	field string
}

func (j *judge) one(v *verdict) {
	g := j.mo.Data[v.Key].Group
	if j.bad[g] {
		return
	}
	fail := func(f string, a ...any) {
		j.bad[g] = true
		j.c.Violate(g, fmt.Sprintf("%s.%s = %s: ", v.Key, v.Field, v.Value)+fmt.Sprintf(f, a...)+"\n"+short(j.at[v.Key].text, g[strings.LastIndex(g, " ")+1:]))
	}
	if v.Bad != "" {
		fail("the Go code: %s", v.Bad)
		return
	}
	var f *dmodel.F
	for i := range j.mo.Data[v.Key].Fields {
		if x := &j.mo.Data[v.Key].Fields[i]; x.Name == v.Field {
			f = x
		}
	}
	var rs []rules.Rule
	for _, x := range j.mo.Verify[v.Key] {
		if x.Field == v.Field {
			rs = x.Rules
		}
	}
	w := j.at[v.Key]
	if w.prog != j.prog {
		j.prog, j.m = w.prog, dart.NewMachine(w.prog)
		ctx, err := j.m.Create(w.file, "BuildContext", "", []any{j.m.NewMap(w.file, "Type", "dynamic")}, nil)
		if err != nil {
			fail("no context: %v", err)
			return
		}
		j.ctx = ctx
	}
	call := func(text any, ok bool, msg string) bool {
		name := "verify" + w.class + "_" + f.Hump
		j.c.State(v.Key + "." + v.Field + fmt.Sprintf(" %q", text))
		j.c.Step(1)
		j.c.Trace(1)
		got, err := j.m.Top(w.file, name, j.ctx, text)
		want := any(nil)
		if !ok {
			want = msg
		}
		if err != nil {
			fail("%s(%q): %v", name, text, err)
			return false
		}
		if got != want {
			fail("%s(%q) gives %s, not %s", name, text, j.m.String(got), j.m.String(want))
			return false
		}
		return true
	}
	for _, t := range texts(f.Type, v.Value) {
		if !call(t, v.Ok, v.Msg) {
			return
		}
	}
	if k := v.Key + "." + v.Field; k != j.field {
		j.field = k
		for _, t := range wrong(f.Type) {
			if len(rs) == 0 {
				call(t, true, "")
			} else {
				call(t, false, rs[0].Msg)
			}
		}
	}
}

// texts of a value, as it is entered.
func texts(t dmodel.T, js []byte) []any {
	if string(js) == "null" {
		return []any{nil, ""}
	}
	if t.Kind != 0 || t.Ref == "data" {
		return []any{"text"}
	}
	dec := json.NewDecoder(bytes.NewReader(js))
	dec.UseNumber()
	var v any
	_ = dec.Decode(&v)
	if m, ok := v.(map[string]any); ok {
		for k, x := range m {
			v = x
			if k == "T" {
				n, _ := x.(json.Number).Int64()
				at := time.UnixMilli(n).UTC()
				return []any{at.Format("2006-01-02T15:04:05.000Z"), at.Format("2006-01-02 15:04:05.000000Z"), at.In(time.FixedZone("", 3*3600)).Format("2006-01-02T15:04:05.000-07:00")}
			}
		}
	}
	if n, ok := v.(json.Number); ok {
		v = string(n)
	}
	if v == false {
		v = "false"
	}
	if v == true {
		v = "true"
	}
	return []any{v}
}

var limits = map[string][]any{
	"int8": {"-129", "128"}, "int16": {"-32769", "32768"}, "int32": {"-2147483649", "2147483648"}, "int64": {"-9223372036854775809", "9223372036854775808"},
	"uint8": {"-1", "256"}, "uint16": {"-1", "65536"}, "uint32": {"-1", "4294967296"}, "uint64": {"-1", "18446744073709551616"},
}

// wrong are texts that are no value of a type.
func wrong(t dmodel.T) (out []any) {
	if t.Kind != 0 || t.Ref != "base" {
		return
	}
	switch t.Name {
	case "string", "bool":
		return
	case "date":
		out = []any{"abc", "12:30", "x2020-01-02", "2020-01-02x"}
	case "float", "double", "decimal":
		out = []any{"abc", "1x", "x1", "--1", "1.2.3", "-", ".", "1,5", "1-2", "1e"}
	default:
		out = append([]any{"abc", "1x", "x1", "--1", "1.5", "-", "1e1", "1-2", "1 2"}, limits[t.Name]...)
	}
	if !t.Null {
		out = append(out, nil, "")
	}
	return
}
