// P28: what is generated for a declaration depends on it and on what it refers to, and on nothing else. A universe of
// declarations is generated in every closed subset, in every distribution over three files that import each other, and in
// every order; each file that is generated must be exactly the sum of the sections of its declarations.
package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
)

func main() {
	guard.Main("P28", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

type decl struct {
	name, text string
	deps       []int // of the declarations before it
}

var universes = [][]decl{{
	{"Kind", `[ui: form="true"]
enum Kind {
 [lang: en="First"; de="Erste"]
 first_one = 3
}`, nil},
	{"Rules", `enum Rules {
 [format: null="false"]
 not_set = 1
 [format: min="1"; max="9"]
 small = 2
}`, nil},
	{"Base", `data Base {
 [verify: format="Rules.not_set"]
 date? base_date = 1
 Kind? base_kind = 2
}`, []int{0, 1}},
	{"Far", `[ui: form="true"; table="true"]
data Far {
 [ui: form="text"; table="text"]
 [lang: en="Far away"]
 string? far_name = 1
 [ui: form="menu"; table="menu"]
 Kind kind = 2
}`, []int{0}},
	{"User", `[ui: form="true"; table="true"]
data User : Base = 1 {
 [ui: form="text"; table="text"]
 [verify: format="Rules.small"]
 int64 user_id = 3
 [ui: form="date"; table="date"]
 date? born = 4
 decimal?[] sums = 5
}`, []int{2, 1}},
	{"Row", `[db: name="row"; insert="true"; list="self"; get="self"; update="true"]
data Row {
 [db: key="true"; where="eq"]
 int64 id = 1
 [db: converter="json"]
 Far[] fars = 2
 string? label = 3
}`, []int{3}},
	{"Plain", `data Plain {
 int32 count = 1
 Plain? next = 2
 bool<string> flags = 3
}`, nil},
	{"Calls", `server Calls {
 [tag: auth="a"]
 User load_it(Base req) = 1
 void drop_it(Plain req) = 2
}`, []int{4, 2, 6}},
	{"Near", `server Near {
 Row near_call(Plain req) = 1
}`, []int{5, 6}},
	{"More", `server More : Calls = 1, Near = 2 {
 Base extra_one(Row req) = 1
}`, []int{7, 8, 2, 5}},
}, {
	{"Color", `enum Color {
 red = 0
 dark_blue = 1
}`, nil},
	{"Shade", `[ui: table="true"]
enum Shade {
 red = 5
 [lang: fr="Sombre"]
 dark = 6
}`, nil},
	{"Limits", `enum Limits {
 [format: reg="^a+$"; null="true"]
 only_a = 1
 [format: min="2020-01-01T00:00:00Z"]
 late = 2
}`, nil},
	{"Root", `data Root {
 Color color = 1
 [ui: form="menu"]
 Shade?[] shades = 2
}`, []int{0, 1}},
	{"Side", `data Side {
 [verify: format="Limits.late"]
 date when = 3
 decimal cost = 4
}`, []int{2}},
	{"Leaf", `[ui: form="true"]
data Leaf : Root = 1, Side = 2 {
 [ui: form="text"]
 [verify: format="Limits.only_a"]
 string? word = 7
 Leaf[]? leaves = 8
}`, []int{3, 4, 2}},
	{"Twin", `[ui: table="true"]
data Twin : Root = 1 {
 [ui: table="text"]
 int64? word = 7
 Leaf<Color> by_color = 9
}`, []int{3, 5, 0}},
	{"Query", `[db: name="leaf"; list="Leaf"; count="true"; del="true"]
data Query {
 [db: where="gte"]
 int64? word = 1
 [db: where="in"]
 int64[]? words = 2
}`, []int{5}},
	{"Ask", `server Ask {
 Leaf ask(Query req) = 1
}`, []int{5, 7}},
	{"Tell", `server Tell {
 void ask(Twin req) = 1
 Side tell(Twin req) = 2
}`, []int{6, 4}},
}, {
	{"Check", `[ui: form="true"]
enum Check {
 [format: reg="^a+$"]
 [lang: en="Bad"; de="Schlecht"]
 bad = 1
 [format: null="false"]
 low = 2
}`, nil},
	{"Count", `[ui: table="true"]
enum Count {
 [format: max="5"]
 [lang: fr="Mal"]
 bad = 2
 low = 1
}`, nil},
	{"One", `[ui: form="true"; table="true"]
data One {
 [ui: form="text"; table="text"]
 [verify: format="Check.low", "Check.bad"]
 [lang: it="Ics"]
 string? x = 1
 [ui: form="menu"; table="menu"; onlyRead="true"]
 Check y = 2
}`, []int{0}},
	{"Two", `[ui: form="true"; table="true"; onlyRead="true"]
data Two {
 [ui: form="date"; table="date"; format="yyyy"]
 date x = 1
 [ui: form="text"; table="text"; digit="2"; maxLine="3"]
 [verify: format="Count.bad"]
 [lang: en="Why"]
 int64? y = 2
}`, []int{1}},
	{"Heir", `data Heir : One = 1, Two = 2 {
 bool<int64> z = 3
}`, []int{2, 3}},
	{"TableOne", `[db: name="t"; list="self"; insert="true"; cache="60"]
data TableOne {
 [db: key="true"; where="eq"]
 int64? x = 1
 [db: order="desc"; converter="json"]
 One y = 2
}`, []int{2}},
	{"TableTwo", `[db: name="t"; update="true"; del="true"; get="self"]
data TableTwo {
 [db: where="like"; name="col"]
 string? x = 1
 [db: key="true"; where="eq"]
 int32? y = 2
}`, nil},
	{"Ones", `server Ones {
 One get_it(Two req) = 1
}`, []int{2, 3}},
	{"Twos", `server Twos {
 Two get_it(One req) = 1
 void put_it(Heir req) = 2
}`, []int{2, 3, 4}},
	{"Threes", `server Threes : Ones = 3 {
 [tag: auth="t"]
 void put_it(TableTwo req) = 2
}`, []int{7, 6}},
}}

var targets = []string{"go", "ts", "dart", "java"}

// schema lays the declarations of set out over files; at[i] is the file of declaration i, order the order they stand in.
func schema(u []decl, set int, at []int, order []int, files int) map[string]string {
	out := map[string]string{}
	for f := 0; f < files; f++ {
		var b strings.Builder
		b.WriteString("package go = \"p\"\npackage java = \"p\"\n")
		for o := 0; o < files; o++ {
			if o != f {
				fmt.Fprintf(&b, "import \"%c.hbuf\"\n", 'a'+o)
			}
		}
		for _, i := range order {
			if set>>i&1 == 1 && at[i] == f {
				b.WriteString("\n" + u[i].text + "\n")
			}
		}
		out[fmt.Sprintf("%c.hbuf", 'a'+f)] = b.String()
	}
	return out
}

// bag counts lines.
type bag map[string]int

var (
	aliasRe = regexp.MustCompile(`(?m)^import \* as (\S+) from "\./|^import '[^':]*' as (\w+)`) // of files of the schema
	outerRe = regexp.MustCompile(`\b[A-C](Data|Enum|Server)\.`)
	wrapRe  = regexp.MustCompile(`^public (interface|class) [A-C](Data|Enum|Server) \{$`)
)

// lines are the lines of a generated file without those that belong to the file as a whole, and without the names of files.
func lines(target, text string) bag {
	if target == "go" {
		if i := strings.Index(text, "import ("); i >= 0 {
			if j := strings.Index(text[i:], "\n)"); j >= 0 {
				text = text[:i] + text[i+j+2:]
			}
		}
	}
	var aliases []string
	if target == "ts" || target == "dart" {
		for _, m := range aliasRe.FindAllStringSubmatch(text, -1) {
			aliases = append(aliases, regexp.QuoteMeta(m[1]+m[2]))
		}
	}
	alias := regexp.MustCompile(`(^|[^\w$.])(` + strings.Join(aliases, "|") + `)\.`)
	b := bag{}
	wrapped := 0
	for _, l := range strings.Split(text, "\n") {
		l = strings.Join(strings.Fields(l), " ")
		if l == "" || strings.HasPrefix(l, "import ") || strings.HasPrefix(l, "package ") || strings.HasPrefix(l, "// @dart") {
			continue
		}
		switch target {
		case "ts", "dart":
			if len(aliases) > 0 {
				l = alias.ReplaceAllString(l, "$1")
			}
		case "java":
			if wrapRe.MatchString(l) {
				wrapped++
				continue
			}
			l = outerRe.ReplaceAllString(l, "")
		}
		b[l]++
	}
	if b["}"] -= wrapped; b["}"] == 0 {
		delete(b, "}")
	}
	return b
}

var goKind = regexp.MustCompile(`^(?:.*/)?([a-c])\.(\w+)\.(\w+)$`)
var javaKind = regexp.MustCompile(`^(?:.*/)?([A-C])(\w+)\.java$`)

// outs are the lines of what is generated, by schema file and kind.
func outs(u []decl, set int, at, order []int, files int, target string) (map[string]bag, string, map[string]string) {
	src := schema(u, set, at, order, files)
	r := hb.Run(src, "*.hbuf", target, "")
	if r.Err != nil || r.Panic != "" {
		return nil, "the schema is rejected: " + r.Brief(), src
	}
	out := map[string]bag{}
	for n, t := range r.Out {
		m := goKind.FindStringSubmatch(n)
		if m == nil {
			m = javaKind.FindStringSubmatch(n)
		}
		if m == nil {
			return nil, "unexpected file " + n, src
		}
		if x := lines(target, t); len(x) > 0 {
			out[strings.ToLower(m[1])+" "+m[2]] = x
		}
	}
	return out, "", src
}

func closure(u []decl, i int) int {
	s := 1 << i
	for _, d := range u[i].deps {
		s |= closure(u, d)
	}
	return s
}

func closed(u []decl, set int) bool {
	for i := range u {
		if set>>i&1 == 1 && closure(u, i)&^set != 0 {
			return false
		}
	}
	return true
}

// minus takes b from a; ok tells whether all of b was there.
func minus(a, b bag) (out bag, ok bool) {
	out, ok = bag{}, true
	for l, n := range a {
		out[l] = n
	}
	for l, n := range b {
		if out[l] < n {
			ok = false
		}
		if out[l] -= n; out[l] == 0 {
			delete(out, l)
		}
	}
	return
}

func show(b bag) string {
	var ls []string
	for l, n := range b {
		ls = append(ls, fmt.Sprintf("%+d %s", n, l))
	}
	sort.Strings(ls)
	if len(ls) > 12 {
		ls = append(ls[:12], "…")
	}
	return strings.Join(ls, "\n")
}

func run(c *ev.Check) {
	for n, u := range universes {
		if !c.Stop() {
			universe(c, n, u)
		}
	}
}

func universe(c *ev.Check, un int, u []decl) {
	n := len(u)
	zero, inOrder := make([]int, n), make([]int, n)
	for i := range inOrder {
		inOrder[i] = i
	}
	// the section of a declaration: what it adds to what it refers to
	sections := map[string][]map[string]bag{} // target, declaration, kind
	for _, t := range targets {
		for i := range u {
			with, msg, src := outs(u, closure(u, i), zero, inOrder, 1, t)
			without, msg2, _ := outs(u, closure(u, i)&^(1<<i), zero, inOrder, 1, t)
			if msg+msg2 != "" {
				c.Violate(fmt.Sprintf("%s %s", t, u[i].name), msg+msg2+"\n"+hb.Text(src))
				return
			}
			sec := map[string]bag{}
			for k, b := range with {
				d, ok := minus(b, without[k])
				if !ok {
					c.Violate(fmt.Sprintf("%s %s", t, u[i].name), "adding "+u[i].name+" changes what is generated for others in "+k+":\n"+show(d)+"\n"+hb.Text(src))
				}
				if len(d) > 0 {
					sec[k[2:]] = d
				}
			}
			for k := range without {
				if with[k] == nil {
					c.Violate(fmt.Sprintf("%s %s", t, u[i].name), "adding "+u[i].name+" takes away "+k+"\n"+hb.Text(src))
				}
			}
			if len(sec) == 0 {
				c.Violate(fmt.Sprintf("%s %s", t, u[i].name), "nothing is generated for "+u[i].name+"\n"+hb.Text(src))
			}
			sections[t] = append(sections[t], sec)
		}
	}
	type job struct {
		set       int
		at, order []int
		files     int
	}
	var jobs []job
	full := 1<<n - 1
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	for set := 1; set <= full; set++ {
		if closed(u, set) {
			jobs = append(jobs, job{set, zero, inOrder, 1}, job{set, zero, rev, 1})
			one := make([]int, n) // what is referred to is in the other file
			for i := range u {
				one[i] = i % 2
			}
			jobs = append(jobs, job{set, one, inOrder, 2})
		}
	}
	// every distribution over two files, thorough: also every division among three
	for files := 2; files <= c.Pick(2, 3); files++ {
		total := 1
		for range u {
			total *= files
		}
		for x := 0; x < total; x++ {
			at, y, top := make([]int, n), x, -1
			for i := range at {
				at[i], y = y%files, y/files
				if files == 3 && at[i] > top+1 { // the same but for the names of the files
					top = -2
					break
				}
				top = max(top, at[i])
			}
			if top != -2 {
				jobs = append(jobs, job{full, at, inOrder, files})
			}
		}
	}
	// every order: each declaration moved to every place, and each pair exchanged (thorough: also all rotations of those)
	perms := map[string]bool{}
	addOrder := func(o []int) {
		if k := fmt.Sprint(o); !perms[k] {
			perms[k] = true
			split := make([]int, n)
			for i := range split {
				split[i] = i % 3
			}
			jobs = append(jobs, job{full, zero, append([]int{}, o...), 1}, job{full, split, append([]int{}, o...), 3})
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			o := append([]int{}, inOrder...)
			o[i], o[j] = o[j], o[i]
			addOrder(o)
			m := append(append([]int{}, inOrder[:i]...), inOrder[i+1:]...)
			m = append(m[:j:j], append([]int{i}, m[j:]...)...)
			addOrder(m)
			if c.Thorough() {
				for r := 1; r < n; r++ {
					addOrder(append(append([]int{}, o[r:]...), o[:r]...))
					addOrder(append(append([]int{}, m[r:]...), m[:r]...))
				}
			}
		}
	}
	c.Extra[fmt.Sprintf("schemas of universe %d", un)] = len(jobs)
	hb.Parallel(len(jobs), c.Stop, func(x int) {
		j := jobs[x]
		for _, t := range targets {
			c.State(fmt.Sprint(un, x, t))
			c.Trace(1)
			got, msg, src := outs(u, j.set, j.at, j.order, j.files, t)
			key := fmt.Sprintf("%s %d %x %v %v", t, un, j.set, j.at, j.order)
			if msg != "" {
				c.Violate(key, msg+"\n"+hb.Text(src))
				continue
			}
			want := map[string]bag{}
			for i := range u {
				if j.set>>i&1 == 0 {
					continue
				}
				for k, b := range sections[t][i] {
					f := fmt.Sprintf("%c %s", 'a'+j.at[i], k)
					if want[f] == nil {
						want[f] = bag{}
					}
					for l, n := range b {
						want[f][l] += n
					}
				}
			}
			for f := range want {
				c.Step(1)
				if d, _ := minus(got[f], want[f]); len(d) > 0 {
					c.Violate(key, f+" is not the sum of what its declarations generate; more (+) and less (-) lines:\n"+show(d)+"\n"+hb.Text(src))
				}
			}
			for f := range got {
				if want[f] == nil {
					c.Violate(key, f+" has no declaration:\n"+show(got[f])+"\n"+hb.Text(src))
				}
			}
		}
	})
}
