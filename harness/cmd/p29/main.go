// P29: versions of a schema understand each other. A document goes through every sequence of versions of a type, in every
// target; each reads it and writes it again. A field that every version on the way has must come through unchanged, whatever
// else the versions changed.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

func main() {
	guard.Main("P29", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

// A field of the documents. Values are written as any target may write them.
type field struct {
	name, typ string
	null      bool // in every version
	values    []string
}

// lenient tells whether null is read for a value that cannot be null: the library of Go does not for these.
func (f *field) lenient() bool {
	return f.null || f.typ != "date" && f.typ != "int64" && f.typ != "uint64"
}

const kinds, partName = "Kind", "Part"

var fields = []field{
	{"count", "int32", false, []string{`7`, `-2147483648`}},
	{"big_one", "int64", true, []string{`"9007199254740993"`, `"0"`, `"-1"`}},
	{"huge_one", "uint64", false, []string{`"18446744073709551615"`}},
	{"small", "uint8", true, []string{`255`, `0`}},
	{"user_name", "string", false, []string{`"a\"\\ 中"`, `"null"`}},
	{"nick", "string", true, []string{`""`, `"x"`}},
	{"at", "date", false, []string{`1234567890123`, `-1`}},
	{"seen_at", "date", true, []string{`5`, `0`}},
	{"cost", "decimal", false, []string{`"12.5"`}},
	{"net_cost", "decimal", true, []string{`"-0.1"`, `"0"`}},
	{"rate", "double", false, []string{`0.1`, `1e300`}},
	{"off", "double", true, []string{`0`, `-2.5`}},
	{"done", "bool", false, []string{`true`}},
	{"flag", "bool", true, []string{`false`, `true`}},
	{"kind", "Kind", false, []string{`1`, `2`}},
	{"mood_kind", "Kind", true, []string{`0`, `2`}},
	{"part", "Part", false, []string{`{"num":3,"label_text":"x"}`, `{"num":4}`}},
	{"spare", "Part", true, []string{`{"num":5,"label_text":""}`}},
	{"parts", "Part[]", false, []string{`[{"num":1,"label_text":"a"},{"num":2,"label_text":"b"}]`}},
	{"notes", "string?[]?", true, []string{`["a",null,""]`}},
	{"sums", "int64<string>", false, []string{`{"k":"5","l":"0"}`}},
	{"by_kind", "string<Kind>", false, []string{`{"1":"x","2":""}`}},
	{"part_of", "Part?<string>?", true, []string{`{"a":{"num":9,"label_text":"q"},"b":null}`}},
}

type version struct {
	what     string
	files    map[string]string
	file, at string // of the type
	has      map[string]bool
	part     map[string]bool
}

// opts says how a version differs from the first.
type opts struct {
	has              func(i int) bool
	part             []string // lines of Part
	typ, prt, enum   string
	order            func(i, n int) int
	id               func(i, n int) int
	null, hump, base bool
	more             []string
	items            string
}

func make1(what string, f func(o *opts)) version {
	o := &opts{has: func(int) bool { return true }, part: []string{"int32 num = 1", "string? label_text = 2"}, typ: "Doc", prt: "Part", enum: "Kind",
		order: func(i, n int) int { return i }, id: func(i, n int) int { return i }, items: " red = 0\n blue = 1\n dark_red = 2\n"}
	f(o)
	v := version{what: what, file: "a.hbuf", at: o.typ, has: map[string]bool{}, part: map[string]bool{}}
	for _, p := range o.part {
		v.part[strings.Fields(p)[1]] = true
	}
	var own, base []string
	n := len(fields)
	for j := 0; j < n; j++ {
		i := o.order(j, n)
		x := fields[i]
		if !o.has(i) {
			continue
		}
		v.has[x.name] = true
		typ := strings.ReplaceAll(strings.ReplaceAll(x.typ, partName, o.prt), kinds, o.enum)
		if (x.null || o.null && x.lenient()) && !strings.HasSuffix(typ, "?") {
			typ += "?"
		}
		name := x.name
		if o.hump {
			name = sem.Hump(name)
			name = strings.ToLower(name[:1]) + name[1:]
		}
		line := fmt.Sprintf(" %s %s = %d\n", typ, name, o.id(i, n))
		if o.base && i%2 == 0 {
			base = append(base, line)
		} else {
			own = append(own, line)
		}
	}
	for k, m := range o.more {
		own = append(own, fmt.Sprintf(" %s = %d\n", m, 100+k))
		v.has[strings.Fields(m)[1]] = true
	}
	head := func(p string) string { return "package go = \"" + p + "\"\npackage java = \"" + p + "\"\n" }
	enum := "enum " + o.enum + " {\n" + o.items + "}\n"
	part := "data " + o.prt + " {\n " + strings.Join(o.part, "\n ") + "\n}\n"
	if !o.base {
		v.files = map[string]string{"a.hbuf": head("p") + enum + part + "data " + o.typ + " {\n" + strings.Join(own, "") + "}\n"}
	} else {
		v.files = map[string]string{"a.hbuf": head("p") + "import \"b.hbuf\"\ndata " + o.typ + " : Old = 1 {\n" + strings.Join(own, "") + "}\n",
			"b.hbuf": head("q") + part + "data Old {\n" + strings.Join(base, "") + "}\n" + enum}
	}
	return v
}

var added = []string{"int8? new_a", "int64 new_b", "string new_c", "date? new_d", "decimal new_e", "bool new_f", "Kind new_g", "Part new_h", "Part? new_i", "int32[] new_j", "string<string> new_k", "Part?[]? new_l", "double new_m", "date new_n", "Kind? new_o", "uint64? new_p"}

var versions = []version{
	make1("first", func(o *opts) {}),
	make1("fields added", func(o *opts) { o.more = added; o.part = append(o.part, "bool? extra = 3", "decimal rest = 4") }),
	make1("order and numbers changed", func(o *opts) {
		o.order = func(i, n int) int { return n - 1 - i }
		o.id = func(i, n int) int { return (i + 5) % n }
		o.part = []string{"string? label_text = 1", "int32 num = 2"}
	}),
	make1("fields moved to a base in another file", func(o *opts) { o.base = true }),
	make1("fields with even numbers dropped", func(o *opts) { o.has = func(i int) bool { return i%2 == 1 } }),
	make1("fields with odd numbers dropped", func(o *opts) { o.has = func(i int) bool { return i%2 == 0 }; o.part = []string{"int32 num = 1"} }),
	make1("types, items and spellings renamed, items added", func(o *opts) {
		o.typ, o.prt, o.enum, o.hump = "Paper", "Piece", "Sort", true
		o.items = " gray = 9\n dark = 2\n b = 1\n zero = 0\n"
		o.part = []string{"int32 num = 1", "string? labelText = 2"}
	}),
	make1("more may be null", func(o *opts) { o.null = true; o.part = []string{"int32? num = 1", "string? label_text = 2"} }),
}

func init() {
	versions[6].part = map[string]bool{"num": true, "label_text": true}
}

// canon is what a document says: nothing is said by null and, unless it can be null in every version, by the value that an unset
// field has.
func canon(v any, typ string, null bool) any {
	switch {
	case strings.HasSuffix(typ, "]") || strings.HasSuffix(typ, "]?"):
		l, ok := v.([]any)
		if !ok || len(l) == 0 {
			return weird(v, v == nil || ok)
		}
		e := typ[:strings.LastIndex(typ, "[")]
		out := []any{}
		for _, x := range l {
			out = append(out, canon(x, strings.TrimSuffix(e, "?"), true))
		}
		return out
	case strings.HasSuffix(typ, ">") || strings.HasSuffix(typ, ">?"):
		m, ok := v.(map[string]any)
		if !ok || len(m) == 0 {
			return weird(v, v == nil || ok)
		}
		e := typ[:strings.Index(typ, "<")]
		out := map[string]any{}
		for k, x := range m {
			out[k] = canon(x, strings.TrimSuffix(e, "?"), true)
		}
		return out
	}
	if v == nil {
		return nil
	}
	switch typ {
	case partName:
		m, ok := v.(map[string]any)
		if !ok {
			return weird(v, false)
		}
		out := map[string]any{}
		for k, x := range m {
			if y := canon(x, map[string]string{"num": "int32", "label_text": "string", "extra": "bool", "rest": "decimal"}[k], k == "label_text" || k == "extra"); y != nil {
				out[k] = y
			}
		}
		if len(out) == 0 && !null {
			return nil
		}
		return out
	case "string":
		if s, ok := v.(string); !ok {
			return weird(v, false)
		} else if s == "" && !null {
			return nil
		}
		return v
	case "bool":
		if b, ok := v.(bool); !ok {
			return weird(v, false)
		} else if !b && !null {
			return nil
		}
		return v
	}
	s := ""
	switch x := v.(type) {
	case json.Number:
		s = string(x)
	case string:
		s = x
	default:
		return weird(v, false)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return weird(v, false)
	}
	if !null && (r.Sign() == 0 || typ == "date" && s == "-62135596800000") {
		return nil
	}
	return "=" + r.RatString()
}

func weird(v any, ok bool) any {
	if ok {
		return nil
	}
	return fmt.Sprintf("?%v", v)
}

func decode(s string) (map[string]any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var m map[string]any
	err := d.Decode(&m)
	return m, err
}

func text(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// forget leaves what a version knows.
func (v *version) forget(said map[string]any) map[string]any {
	out := map[string]any{}
	for i := range fields {
		f := &fields[i]
		if x, ok := said[f.name]; ok && v.has[f.name] {
			if y := v.prune(x, f.typ, f.null); y != nil {
				out[f.name] = y
			}
		}
	}
	return out
}

func (v *version) prune(x any, typ string, null bool) any {
	if !strings.HasPrefix(typ, partName) || x == nil {
		return x
	}
	switch y := x.(type) {
	case []any:
		out := []any{}
		for _, z := range y {
			out = append(out, v.prune(z, partName, true))
		}
		return out
	case map[string]any:
		out := map[string]any{}
		if typ != partName {
			for k, z := range y {
				out[k] = v.prune(z, partName, true)
			}
			return out
		}
		for k, z := range y {
			if v.part[k] {
				out[k] = z
			}
		}
		if len(out) == 0 && !null {
			return nil
		}
		return out
	}
	return x
}

// said is the canonical form of a document, without what only some versions have.
func said(m map[string]any) map[string]any {
	out := map[string]any{}
	for i := range fields {
		f := &fields[i]
		if x := canon(m[f.name], f.typ, f.null); x != nil {
			out[f.name] = onlyKnown(x, f.typ, f.null)
			if out[f.name] == nil {
				delete(out, f.name)
			}
		}
	}
	return out
}

var first = &version{part: map[string]bool{"num": true, "label_text": true}}

func onlyKnown(x any, typ string, null bool) any { return first.prune(x, typ, null) }

type doc struct {
	json string
	said map[string]any
	via  string
}

type line struct {
	K string `json:"k,omitempty"`
	J string `json:"j,omitempty"`
	E string `json:"e,omitempty"`
}

type machine struct {
	c    *ev.Check
	cmds [2]func() *exec.Cmd
	dart []*dartval.Unit
	key  []string
}

// pass lets a version in a target read and write documents.
func (m *machine) pass(target, ver int, docs []*doc) (out []line) {
	if target == 2 {
		r := m.dart[ver].Start()
		for _, d := range docs {
			var o line
			v, err := r.M.Decode(d.json)
			if err == nil {
				at := r.At[m.key[ver]]
				v, err = r.M.Static(at[0], at[1], "fromMap", v)
			}
			if err == nil {
				v, err = r.M.Call(v, "toMap", nil, nil)
			}
			if err == nil {
				o.J, err = r.M.Encode(v)
			}
			if err != nil {
				o = line{E: err.Error()}
			}
			out = append(out, o)
		}
		return
	}
	var in bytes.Buffer
	e := json.NewEncoder(&in)
	for _, d := range docs {
		_ = e.Encode(line{K: m.key[ver], J: d.json})
	}
	cmd := m.cmds[target]()
	cmd.Stdin = &in
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	got, err := cmd.Output()
	if err != nil {
		m.c.Fatal("%v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bufio.NewReader(bytes.NewReader(got)))
	for {
		var l line
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			m.c.Fatal("%v", err)
		}
		out = append(out, l)
	}
	if len(out) != len(docs) {
		m.c.Fatal("%d answers for %d documents", len(out), len(docs))
	}
	return
}

var targets = []string{"Go", "TypeScript", "Dart"}

func run(c *ev.Check) {
	p := &gorun.Prog{Driver: "p29"}
	files, where := map[string]map[string]string{}, map[string][3]string{}
	m := &machine{c: c}
	for i := range versions {
		v := &versions[i]
		dir := fmt.Sprintf("u%d", i)
		g, t, d := hb.Run(v.files, "*.hbuf", "go", "gen/"+dir+"/"), hb.Run(v.files, "*.hbuf", "ts", ""), hb.Run(v.files, "*.hbuf", "dart", "")
		for _, x := range []*hb.Result{g, t, d} {
			if x.Err != nil || x.Panic != "" {
				c.Violate(v.what, "the schema is rejected: "+x.Brief()+"\n"+hb.Text(v.files))
				return
			}
		}
		sm, err := sem.Load(v.files)
		if err != nil {
			c.Fatal("%v", err)
		}
		w := dmodel.New()
		key := ""
		if err := w.Add(dir, sm, func(k string, x *sem.Ref) {
			if x.Name == v.at {
				key = k
			}
		}); err != nil {
			c.Fatal("%v", err)
		}
		m.key = append(m.key, key)
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: g.Out})
		p.Reg(key, "func() any { return new("+p.Import("gen/"+dir+"/p")+"."+v.at+") }")
		files[dir] = t.Out
		where[key] = [3]string{dir, "a.data.ts", v.at}
		prog, problems := dart.Load(dartval.Part(d.Out))
		if len(problems) > 0 {
			c.Violate(v.what, fmt.Sprintf("the Dart is not well formed: %v\n%s", problems[0], hb.Text(v.files)))
			return
		}
		u, err := dartval.NewUnit(prog, w, dir, sm)
		if err != nil {
			c.Violate(v.what, fmt.Sprintf("%v\n%s", err, hb.Text(v.files)))
			return
		}
		m.dart = append(m.dart, u)
	}
	bin, dir, cerr := p.Build(c)
	defer os.RemoveAll(dir)
	if cerr != "" {
		c.Violate("generated code does not compile", "the generated Go code does not compile:\n"+cerr)
		return
	}
	js, _ := json.Marshal(map[string]any{"Files": files, "Where": where})
	ts := filepath.Join(dir, "ts.json")
	if err := os.WriteFile(ts, js, 0644); err != nil {
		c.Fatal("%v", err)
	}
	m.cmds[0] = func() *exec.Cmd { return exec.Command(bin) }
	m.cmds[1] = func() *exec.Cmd { return exec.Command("node", filepath.Join(c.Root, "runtime/ts/p29.js"), ts) }

	seen := map[string]bool{}
	var level []*doc
	add := func(next *[]*doc, d *doc) {
		m, _ := decode(d.json)
		k := text(m) + "\x00" + text(d.said) // the order of members does not count
		if !seen[k] {
			seen[k] = true
			*next = append(*next, d)
		}
	}
	for _, s := range documents(c) {
		x, err := decode(s)
		if err != nil {
			c.Fatal("%s: %v", s, err)
		}
		add(&level, &doc{s, said(x), s})
	}
	depth := 12 // there are no new documents long before
	for n := 0; n < depth && len(level) > 0 && !c.Stop(); n++ {
		var next []*doc
		var mu sync.Mutex
		jobs := len(targets) * len(versions)
		hb.Parallel(jobs, c.Stop, func(j int) {
			t, ver := j%len(targets), j/len(targets)
			v := &versions[ver]
			got := m.pass(t, ver, level)
			var mine []*doc
			for i, o := range got {
				d := level[i]
				c.Step(1)
				via := d.via + " -> " + targets[t] + " of \"" + v.what + "\""
				bad := func(f string, a ...any) {
					c.Violate(fmt.Sprintf("%s %s", targets[t], v.what), via+": "+fmt.Sprintf(f, a...)+"\n"+hb.Text(v.files))
				}
				if o.E != "" {
					bad("it cannot be read: %s", o.E)
					continue
				}
				x, err := decode(o.J)
				if err != nil {
					bad("%s is written: %v", o.J, err)
					continue
				}
				extra := ""
				for k := range x {
					if !v.has[k] {
						extra = k
					}
				}
				if extra != "" {
					bad("%s is written, there is no field %s", o.J, extra)
					continue
				}
				want, is := v.forget(d.said), said(x)
				if a, b := text(want), text(is); a != b {
					bad("%s is written, which says %s and not %s", o.J, b, a)
					continue
				}
				mine = append(mine, &doc{o.J, is, via + " = " + o.J})
			}
			mu.Lock()
			defer mu.Unlock()
			for _, d := range mine {
				add(&next, d)
			}
		})
		for _, d := range level {
			c.State(d.json + text(d.said))
			c.Trace(1)
		}
		sort.Slice(next, func(i, j int) bool { return next[i].json < next[j].json })
		level = next
		c.Extra[fmt.Sprintf("new documents after %d versions", n+1)] = len(level)
	}
	if len(level) > 0 {
		c.NotExhaustive("new documents are left")
	}
}

// documents: every value of every field alone, every pair of fields, and all fields at once.
func documents(c *ev.Check) (out []string) {
	out = append(out, "{}")
	obj := func(at map[int]int) string {
		var l []string
		for i, f := range fields {
			if n, ok := at[i]; ok {
				l = append(l, fmt.Sprintf("%q:%s", f.name, f.values[n%len(f.values)]))
			}
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	for i, f := range fields {
		for n := range f.values {
			out = append(out, obj(map[int]int{i: n}))
		}
		if f.lenient() {
			out = append(out, fmt.Sprintf("{%q:null}", f.name))
		}
		for j := range fields[:i] {
			if c.Thorough() {
				out = append(out, obj(map[int]int{i: 0, j: 0}), obj(map[int]int{i: 1, j: 1}))
			}
		}
	}
	for n := 0; n < 3; n++ {
		all := map[int]int{}
		for i := range fields {
			all[i] = n
		}
		out = append(out, obj(all))
		for i := range fields {
			delete(all, i)
			out = append(out, obj(all))
			all[i] = n
		}
	}
	return
}
