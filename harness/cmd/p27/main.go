// P27: comments of a schema accompany their declarations and change nothing else. Every text of a list is put above every
// declaration of a schema, and at places that belong to none, alone and in pairs; the files of every target are compared with
// those of the schema without comments.
package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/schemas"
)

func main() {
	guard.Main("P27", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

// A template has %name% where the comment of a declaration goes and %.% where a comment belongs to none.
var templates = []map[string]string{
	{"a.hbuf": `package go = "p" %.%
package java = "p"

%Color%enum Color { %.%
 %red%red = 0 %.%
 %dark_blue%dark_blue = 1 %.%
} %.%
%.%

%Base%data Base {
%.%

 %base_count%int32 base_count = 0 %.%
 %.%
}
%User%[ui: form="true"; table="true"]
data User : Base = 1 { %.%
 %first_name%[ui: form="text"; table="text"]
 string first_name = 1 %.%
 %liked_one%[ui: form="menu"]
 Color? liked_one = 2
 %many_parts%int64[] many_parts = 3 %.%
 %by_day%Base?<string> by_day = 4
}
%Calls%server Calls { %.%
 %load_it%User load_it(Base req) = 1 %.%
 %drop_it%void drop_it(User req) = 2
 %.%
}
%More%server More : Calls = 1 {
 %extra_one%Base extra_one(Base some_param) = 1 %.%
} %.%
`},
	{"a.hbuf": `package go = "p"
package java = "p"
import "b.hbuf" %.%

%Calls%server Calls : Far = 2 {
 %load_it%[tag: auth="a"]
 Last load_it(Base req) = 1
}

%Last%[db: name="last"; insert="true"; list="self"]
data Last : Base = 3 {
 %own_field%[db: key="true"; where="eq"]
 int64 own_field = 7
}
`, "b.hbuf": `package go = "q"
package java = "q"
%Kind%[ui: form="true"]
enum Kind {
 %first_one%[lang: en="First"]
 first_one = 3
}
%Base%data Base {
 %base_date%[verify: format="Rules.not_set"]
 date? base_date = 1
}
%.%

%Far%server Far {
 %.%

 %far_call%void far_call(Base req) = 1
}
%.%

%Rules%enum Rules {
 %.%

 %not_set%[format: null="false"]
 not_set = 1
}
`},
}

var targets = []string{"go", "ts", "dart", "java"}

// slots are the names of a template in their order; those of places without a declaration are numbered.
func split(text string) (parts, names []string) {
	l := strings.Split(text, "%")
	for i, x := range l {
		if i%2 == 0 {
			parts = append(parts, x)
		} else {
			names = append(names, x)
		}
	}
	return
}

type slot struct {
	file, name string
	n          int
}

func slotsOf(t map[string]string) (out []slot) {
	var files []string
	for f := range t {
		files = append(files, f)
	}
	sort.Strings(files)
	for _, f := range files {
		_, names := split(t[f])
		for i, n := range names {
			out = append(out, slot{f, n, i})
		}
	}
	return
}

func fill(t map[string]string, put map[slot]string) map[string]string {
	out := map[string]string{}
	for f, x := range t {
		parts, names := split(x)
		var b strings.Builder
		for i, p := range parts {
			b.WriteString(p)
			if i < len(names) {
				s := put[slot{f, names[i], i}]
				if names[i] == "." {
					s = strings.TrimRight(s, "\r\n")
				}
				b.WriteString(s)
			}
		}
		out[f] = b.String()
	}
	return out
}

// doc is what a comment says of the declaration below it: its last paragraph.
func doc(text string) string {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	l := strings.Split(strings.TrimRight(text, "\n"), "\n")
	from, block := 0, false
	for i, x := range l {
		block = block || strings.HasPrefix(strings.TrimSpace(x), "/*")
		if strings.Contains(x, "*/") {
			block = false
		}
		if strings.TrimSpace(x) == "" && !block {
			from = i + 1
		}
	}
	l = l[from:]
	for i, x := range l { // lines that are directives are none of its text
		if y := strings.TrimSpace(x); strings.HasPrefix(y, "//") && directive(y[2:]) {
			l[i] = ""
		}
	}
	return norm(strings.Join(l, "\n"))
}

func directive(s string) bool {
	if strings.HasPrefix(s, "line ") {
		return true
	}
	i := strings.Index(s, ":")
	if i <= 0 || i+1 >= len(s) {
		return false
	}
	for j := 0; j <= i+1; j++ {
		if j != i && !(s[j] >= 'a' && s[j] <= 'z' || s[j] >= '0' && s[j] <= '9') {
			return false
		}
	}
	return true
}

// norm leaves out white space and what makes comments.
func norm(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) || strings.ContainsRune("/*\\\u2028\u2029", r) {
			return -1
		}
		return r
	}, s)
}

func named(code, name string) bool {
	f := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	return strings.Contains(f(code), f(name))
}

// comment is a block of comments with the code it stands beside.
type comment struct{ text, code string }

// read splits a file into its code and its comments.
func read(target, src string) (code string, cs []comment) {
	ends := map[string]string{"go": "\n", "ts": "\n\r\u2028\u2029", "dart": "\n\r", "java": "\n\r"}[target]
	if target == "java" {
		src = escapes(src)
	}
	var b strings.Builder
	line := func() string { s := b.String(); return s[strings.LastIndex(s, "\n")+1:] }
	type raw struct {
		text  string
		own   bool // nothing is before it on its line
		at    int  // where the code goes on
		lines string
	}
	var rs []raw
	for i := 0; i < len(src); {
		rest := src[i:]
		switch {
		case strings.HasPrefix(rest, "//"):
			n := strings.IndexAny(rest, ends)
			if n < 0 {
				n = len(rest)
			}
			rs = append(rs, raw{rest[:n], strings.TrimSpace(line()) == "", b.Len(), line()})
			i += n
		case strings.HasPrefix(rest, "/*"):
			n := strings.Index(rest[2:], "*/")
			if n < 0 {
				n = len(rest) - 4
			}
			rs = append(rs, raw{rest[:n+4], strings.TrimSpace(line()) == "", b.Len(), line()})
			i += n + 4
		case strings.HasPrefix(rest, "'''"):
			n := strings.Index(rest[3:], "'''")
			if n < 0 {
				n = len(rest) - 6
			}
			b.WriteString(rest[:n+6])
			i += n + 6
		case rest[0] == '"' || rest[0] == '\'' || rest[0] == '`':
			j := 1
			for j < len(rest) && rest[j] != rest[0] {
				if rest[j] == '\\' && !(rest[0] == '`' && target == "go") {
					j++
				}
				j++
			}
			j = min(j+1, len(rest))
			b.WriteString(rest[:j])
			i += j
		default:
			b.WriteByte(rest[0])
			i++
		}
	}
	code = b.String()
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if !r.own {
			cs = append(cs, comment{norm(r.text), r.lines})
			continue
		}
		text := r.text
		for i+1 < len(rs) && rs[i+1].own && strings.TrimSpace(code[r.at:rs[i+1].at]) == "" {
			i++
			text += "\n" + rs[i].text
		}
		next := strings.TrimLeft(code[rs[i].at:], " \t\r\n")
		if n := strings.Index(next, "\n"); n >= 0 {
			next = next[:n]
		}
		cs = append(cs, comment{norm(text), next})
	}
	return strings.Join(strings.Fields(code), " "), cs
}

// escapes puts the characters in that Java reads for \uXXXX, wherever it stands.
func escapes(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && s[j] == 'u' {
			j++
		}
		if j > i+1 && j+4 <= len(s) {
			if n, err := strconv.ParseUint(s[j:j+4], 16, 16); err == nil {
				b.WriteRune(rune(n))
				i = j + 3
				continue
			}
		}
		b.WriteByte(s[i])
		if j == i+1 && j < len(s) {
			i++
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

type view struct {
	code map[string]string
	cs   map[string][]comment
}

func look(files map[string]string, target string) (*view, string) {
	r := hb.Run(files, "*.hbuf", target, "")
	if r.Err != nil || r.Panic != "" {
		return nil, r.Brief()
	}
	v := &view{map[string]string{}, map[string][]comment{}}
	for n, s := range r.Out {
		v.code[n], v.cs[n] = read(target, s)
	}
	return v, ""
}

func texts(full bool) []string {
	out := append([]string{}, schemas.DocTexts...)
	out = append(out, "// a b\r\n// c\r\n", "// $1.x `\n", "/* ' */\n", "// \"\"\" '''\n", "// `x\n", "// a\n/* b\n c */\n// d\n", "/**\n * x\n * y\n */\n", "// x: y\n", "// a\u2028b\u2029c\n", "// a\rb\n", "// \\u000d w\n", "// \\\\u000a w\n", "// \\uu000Aw\n", "//\tx\ty\n", "// %s %d %%\n", "// }\n", "// ;\n", "// enum E {\n", "// \u202e bidi\n", "/*x*/ /*y*/\n", "/**/\n", "// <T> & </b> --> ]]>\n", "// \\\n// next\n")
	out = append(out, "// "+strings.Repeat("long words ", 60)+"end\n", strings.Repeat("// many lines\n", 40), "/* a\n\n"+strings.Repeat(" * many lines\n", 40)+" z */\n",
		"// a\n//\n// b\n", "// a\n//\n//\n//\n// b\n", "//\n// a\n//\n", "/*\n\n a\n\n\n b\n*/\n", "//   indented\n//     more\n", "// a\n\n// b\n", "/* a */ // b\n", "// [db: key=\"true\"]\n", "// data X {\n")
	if full {
		for _, a := range "abcxu0/*\\\"'`${}#@!:;.,<>[]()%&|~^=+-_? \t" {
			for _, b := range "/*\\\"'`$u@#:!x" {
				out = append(out, "// "+string(a)+string(b)+" w\n", "//"+string(a)+string(b)+"w\n", "/*"+string(a)+" w"+"*/\n")
			}
		}
	}
	return out
}

func run(c *ev.Check) {
	type job struct {
		t   int
		put map[slot]string
	}
	var jobs []job
	ts := texts(c.Thorough())
	for i, t := range templates {
		ss := slotsOf(t)
		for _, s := range ss {
			for _, x := range ts {
				if s.name == "." && strings.Count(strings.TrimRight(x, "\n"), "\n") > 0 && strings.HasPrefix(x, "//") {
					continue // a line below would belong to what follows
				}
				jobs = append(jobs, job{i, map[slot]string{s: x}})
			}
		}
		pair := [][2]string{{"// alpha one\n", "// beta two\n"}, {"/* alpha\n one */\n", "// beta\n// two\n"}}
		for a := range ss {
			for b := a + 1; b < len(ss); b++ {
				for j, p := range pair {
					x, y := p[0], p[1]
					if ss[a].name == "." && j == 1 {
						x = "/* alpha one */\n"
					}
					if ss[b].name == "." && j == 1 {
						y = "/* beta two */\n"
					}
					jobs = append(jobs, job{i, map[slot]string{ss[a]: x, ss[b]: y}})
				}
			}
		}
		all := map[slot]string{}
		for n, s := range ss {
			all[s] = fmt.Sprintf("// word%cq\n", 'A'+n)
		}
		jobs = append(jobs, job{i, all})
		if c.Thorough() {
			for a := range ss {
				for b := a + 1; b < len(ss); b++ {
					for d := b + 1; d < len(ss); d++ {
						jobs = append(jobs, job{i, map[slot]string{ss[a]: "// alpha one\n", ss[b]: "// beta two\n", ss[d]: "// gamma three\n"}})
					}
				}
			}
		}
	}
	base := map[string]*view{}
	for i, t := range templates {
		for _, g := range targets {
			v, msg := look(fill(t, nil), g)
			if v == nil {
				c.Violate(fmt.Sprintf("template %d %s", i, g), "the schema is rejected: "+msg)
				return
			}
			base[fmt.Sprint(i, g)] = v
		}
	}
	c.Extra["schemas"] = len(jobs)
	hb.Parallel(len(jobs), c.Stop, func(n int) {
		j := jobs[n]
		files := fill(templates[j.t], j.put)
		for _, g := range targets {
			c.State(fmt.Sprint(n, g))
			c.Trace(1)
			v, msg := look(files, g)
			if v == nil {
				msg = "the schema is rejected: " + msg
			} else {
				msg = differ(c, base[fmt.Sprint(j.t, g)], v, j.put)
			}
			if msg != "" {
				var at []string
				for s, x := range j.put {
					at = append(at, fmt.Sprintf("%s %q", s.name, x))
				}
				sort.Strings(at)
				if len(at) > 3 {
					at = at[:3]
				}
				c.Violate(fmt.Sprintf("%s %d %s", g, j.t, strings.Join(at, " ")), msg+"\n"+hb.Text(files))
			}
		}
	})
}

// differ tells how the files with comments differ from those without, except for the comments above declarations.
func differ(c *ev.Check, was, is *view, put map[slot]string) string {
	var names []string
	for n := range was.code {
		names = append(names, n)
		if _, ok := is.code[n]; !ok {
			return n + " is missing"
		}
	}
	if len(is.code) != len(was.code) {
		return fmt.Sprintf("there are %d files and not %d", len(is.code), len(was.code))
	}
	sort.Strings(names)
	seen := map[slot]bool{}
	for _, n := range names {
		if is.code[n] != was.code[n] {
			return fmt.Sprintf("the code of %s is not the same: %s", n, apart(was.code[n], is.code[n]))
		}
		had := map[comment]int{}
		for _, x := range was.cs[n] {
			had[x]++
		}
		for _, x := range is.cs[n] {
			c.Step(1)
			if had[x] > 0 {
				had[x]--
				continue
			}
			for s, t := range put {
				d := doc(t)
				if d == "" || !strings.Contains(x.text, d) {
					continue
				}
				if s.name == "." {
					return fmt.Sprintf("%s: %q is of no declaration and stands at %q", n, t, x.code)
				}
				if !named(x.code, s.name) {
					return fmt.Sprintf("%s: %q of %s stands at %q", n, t, s.name, x.code)
				}
				seen[s] = true
			}
		}
	}
	for s, t := range put {
		if s.name != "." && doc(t) != "" && !seen[s] {
			return fmt.Sprintf("%q of %s is nowhere", t, s.name)
		}
	}
	return ""
}

func apart(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	f := func(s string) string { return s[max(0, min(i-30, len(s))):min(len(s), i+60)] }
	return fmt.Sprintf("%q, it was %q", f(b), f(a))
}
