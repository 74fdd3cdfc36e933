// Package schemas enumerates families of accepted schemas that cover every feature of the language the generators know;
// the checks of the generated code share them.
package schemas

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Schema is one set of files.
type Schema struct {
	Family string
	Key    string
	Files  map[string]string
}

// Base types in declaration order.
var Base = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal"}

// Shapes of a type; % is the value type.
var Shapes = []string{"%", "%?", "%[]", "%?[]", "%[]?", "%?[]?"}

// Head writes the first lines of a file of a package.
func Head(pkg string, imports ...string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package go = %q\npackage java = \"com.%s\"\n", pkg, pkg)
	for _, i := range imports {
		fmt.Fprintf(&b, "import %q\n", i)
	}
	return b.String()
}

type coll struct {
	out    []Schema
	family string
	full   bool
}

func (c *coll) add(key string, files map[string]string) {
	c.out = append(c.out, Schema{c.family, c.family + ":" + key, files})
}

func (c *coll) one(key, text string) { c.add(key, map[string]string{"a.hbuf": text}) }

// Families lists the names of the families.
func Families() []string {
	var n []string
	for k := range families {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

// Of enumerates some families (all when none is given).
func Of(full bool, names ...string) []Schema {
	if len(names) == 0 {
		names = Families()
	}
	var out []Schema
	for _, n := range names {
		c := &coll{family: n, full: full}
		families[n](c)
		out = append(out, c.out...)
	}
	return out
}

var families = map[string]func(c *coll){
	"types": types, "pairs": pairs, "names": names, "docs": docs, "inherit": inherit, "enums": enums, "servers": servers,
	"verify": verify, "db": dbs, "dbfields": dbfields, "packages": packages, "lang": langs, "ui": uis, "graph": graph, "files": files, "clash": clash,
}

// other is a file of another package that declares Od and Oe.
const other = "data Od {\n int32 x = 1\n}\nenum Oe {\n one = 1\n two = 2\n}\n"

// sister is a file of the same package that declares Sd and Se.
const sister = "data Sd {\n string y = 1\n}\nenum Se {\n red = 0\n blue = 7\n}\n"

const local = "data Ld {\n bool? z = 1\n}\nenum Le {\n up = 0\n down_under = 3\n}\n"

var refs = []string{"Ld", "Le", "Od", "Oe", "Sd", "Se"}

// Trio puts declarations into a file that imports a file of the same and one of another package.
func Trio(text string) map[string]string {
	return map[string]string{
		"a.hbuf": Head("p", "b.hbuf", "c.hbuf") + local + text,
		"b.hbuf": Head("q") + other,
		"c.hbuf": Head("p") + sister,
	}
}

// TypeList are all shapes of all types, with the given map keys.
func TypeList(keys []string) []string {
	var ts []string
	for _, b := range append(append([]string{}, Base...), refs...) {
		for _, s := range Shapes {
			ts = append(ts, strings.Replace(s, "%", b, 1))
		}
		for _, k := range keys {
			for _, s := range []string{"%<K>", "%?<K>", "%<K>?", "%?<K>?"} {
				ts = append(ts, strings.Replace(strings.Replace(s, "%", b, 1), "K", k, 1))
			}
		}
	}
	return ts
}

// MapKeys are all types the language allows as keys.
var MapKeys = append(append([]string{}, Base...), "Le", "Oe", "Se")

func types(c *coll) {
	for _, t := range TypeList(MapKeys) {
		for _, doc := range []string{"", "// the field\n "} {
			c.add(t+doc, Trio("data D {\n "+doc+t+" some_field = 1\n}\n"))
		}
	}
}

func pairs(c *coll) {
	ts := TypeList([]string{"string"})
	if !c.full {
		ts = nil
		for _, b := range append([]string{"int32", "int64", "string", "date", "decimal"}, refs...) {
			for _, s := range []string{"%", "%?", "%[]", "%?[]?", "%<string>?"} {
				ts = append(ts, strings.Replace(s, "%", b, 1))
			}
		}
	}
	for _, a := range ts {
		for _, b := range ts {
			c.add(a+" "+b, Trio("data D {\n "+a+" first = 1\n "+b+" second = 2\n}\n"))
		}
	}
}

// Names are the spellings of names that are tried in every position.
var Names = []string{"a", "A", "ab", "aB", "a_b", "A_B", "user_id", "userId", "UserID", "HTTPServer", "x1", "a1_b2", "ABC", "a_", "_a", "a__b",
	"type", "func", "range", "class", "default", "package_", "map", "var", "const", "new", "this", "switch", "case", "in", "is", "if",
	"int", "error", "nil", "true_", "interface", "struct", "return", "go", "select", "chan", "defer", "final", "static", "void_", "public", "function", "await", "late", "required", "Object", "String", "List", "Map", "Date", "Error", "Long",
	"val", "g", "e", "s", "ctx", "err", "ret", "req", "json", "hbuf", "rpc", "db", "context", "name", "value", "values", "key", "data_", "get", "set", "index", "length", "toString", "hashCode", "constructor", "prototype", "client", "server_", "names", "router", "init"}

func names(c *coll) {
	t := "enum EN {\n IN = 0\n other = 5\n}\ndata DN {\n EN? FN = 1\n DX[] manyX = 2\n}\ndata DX : DN = 1 {\n DN? sub = 7\n}\nserver SN {\n DX MN(DN PN) = 1\n void note(DX req) = 2\n}\nserver SX : SN = 1 {\n}\n"
	def := map[string]string{"EN": "Eee", "IN": "first", "DN": "Ddd", "FN": "field", "SN": "Sss", "MN": "call", "PN": "req"}
	ks := []string{"DN", "EN", "FN", "IN", "MN", "PN", "SN"}
	fill := func(m map[string]string) string {
		o := t
		for _, k := range ks {
			v := def[k]
			if x, ok := m[k]; ok {
				v = x
			}
			o = strings.ReplaceAll(o, k, "\x00"+strings.Join(strings.Split(v, ""), "\x00"))
		}
		return strings.ReplaceAll(o, "\x00", "")
	}
	for _, k := range ks {
		for _, n := range Names {
			c.one(k+"="+n, Head("p")+fill(map[string]string{k: n}))
		}
	}
	if c.full {
		for i, k := range ks {
			for _, l := range ks[i+1:] {
				for _, n := range Names[:20] {
					for _, m := range Names[:20] {
						if (k == "DN" || k == "EN" || k == "SN") && (l == "DN" || l == "EN" || l == "SN") && strings.EqualFold(strings.ReplaceAll(n, "_", ""), strings.ReplaceAll(m, "_", "")) {
							continue
						}
						c.one(k+"="+n+" "+l+"="+m, Head("p")+fill(map[string]string{k: n, l: m}))
					}
				}
			}
		}
	}
}

// DocTexts are comment texts.
var DocTexts = []string{"// one line\n", "// one\n// two\n", "// quote \" and \\ back\n", "// 中文\n", "//\n", "// end */ /* start\n", "/* block */\n", "/* two\n lines */\n", "// `tick` ${x} $y\n", "//   spaces   \n", "// one\n\n// two\n", "// one\n//\n// three\n", "// 'x' #{y}\n", "/** star */\n",
	"//go:embed x\n", "// go:linkname a b\n", "//line x.go:1\n", "// <reference path=\"x\" />\n", "/// <reference path=\"x\" />\n", "// @dart=2.9\n", "// \\u002a/ \\u000a x\n", "// ends in \\\n", "// Deprecated: no\n", "/* a // b */\n", "// {@link x} [y] <b>\n"}

func docs(c *coll) {
	for _, d := range DocTexts {
		for p := 0; p < 8; p++ {
			var a [8]string
			if p < 7 {
				a[p] = d
			} else {
				for i := range a {
					a[i] = d
				}
			}
			c.one(fmt.Sprintf("%d %q", p, d), Head("p")+a[0]+"data D {\n"+a[1]+"int32? a = 1\nstring b = 2\n}\n"+a[2]+"enum E {\n"+a[3]+"x = 0\ny = 1\n}\n"+a[4]+"server S {\n"+a[5]+"D m(D req) = 1\nvoid n(D req) = 2\n}\n"+
				a[6]+"[db: name=\"t\"; get=\"self\"; list=\"self\"]\n[ui: form=\"x\"; table=\"y\"]\n[lang: en=\"X\"]\ndata T {\n"+a[6]+"[db: key=\"true\"]\n[ui: form=\"input\"; table=\"text\"]\nint32 id = 1\n}\n")
		}
	}
}

func inherit(c *coll) {
	c.one("redeclared with another type", Head("p")+"data A {\n int32 fa = 1\n}\ndata B : A = 1 {\n int64? fa = 1\n}\n")
	// up to three parents for D out of local, sister, other and further ancestors, with fields of equal and different names
	decl := "data La {\n int32 la = 1\n}\ndata Lb : La = 1 {\n string? lb = 1\n}\n"
	fs := func(x string) map[string]string {
		return map[string]string{
			"a.hbuf": Head("p", "b.hbuf", "c.hbuf") + decl + x,
			"b.hbuf": Head("q", "d.hbuf") + "data Oa {\n int64 oa = 1\n}\ndata Ob : Oa = 1, Ra = 2 {\n date? ob = 1\n Ra? r = 2\n}\n",
			"c.hbuf": Head("p") + "data Sa {\n decimal? sa = 1\n}\n",
			"d.hbuf": Head("r") + "data Ra {\n bool ra = 1\n}\n",
		}
	}
	ps := []string{"La", "Lb", "Oa", "Ob", "Sa"}
	var rec func(sel []string)
	rec = func(sel []string) {
		e := ""
		for i, s := range sel {
			if i == 0 {
				e = " : "
			} else {
				e += ", "
			}
			e += fmt.Sprintf("%s = %d", s, i+1)
		}
		for _, body := range []string{"", " int32 own = 1\n", " int32? own = 1\n Od_[] list = 2\n"} {
			if strings.Contains(body, "Od_") {
				body = strings.Replace(body, "Od_", "Ob", 1)
			}
			c.add(strings.Join(sel, ",")+body, fs("data D"+e+" {\n"+body+"}\ndata Use {\n D? d = 1\n D[] ds = 2\n}\n"))
		}
		if len(sel) == 3 {
			return
		}
		for _, p := range ps {
			used := false
			for _, s := range sel {
				used = used || s == p
			}
			if !used {
				rec(append(append([]string{}, sel...), p))
			}
		}
	}
	rec(nil)
	c.one("chain", Head("p")+"data A {\n int32 a = 1\n}\ndata B : A = 1 {\n int32 b = 1\n}\ndata C : B = 1 {\n int32 c = 1\n}\ndata D : C = 1 {\n int32 d = 1\n}\n")
	// many parents, direct and with parents of their own
	for n := 4; n <= 6; n++ {
		for _, chain := range []bool{false, true} {
			var b strings.Builder
			var e []string
			for i := 1; i <= n; i++ {
				up := ""
				if chain && i > 1 {
					up = fmt.Sprintf(" : B%d = 1", i-1)
				}
				fmt.Fprintf(&b, "data B%d%s {\n int32? field_%d = %d\n}\n", i, up, i, i)
				e = append(e, fmt.Sprintf("B%d = %d", i, i))
			}
			for _, own := range []string{"", " string own_field = 1\n"} {
				c.one(fmt.Sprint("many ", n, chain, own), Head("p")+b.String()+"data D : "+strings.Join(e, ", ")+" {\n"+own+"}\ndata Use : D = 1 {\n D[] list = 1\n}\n")
			}
		}
	}
	c.one("self reference", Head("p")+"data Node {\n Node? next = 1\n Node[] kids = 2\n Node<string>? named = 3\n}\n")
	c.one("mutual reference", Head("p")+"data A {\n B? b = 1\n}\ndata B {\n A[] a = 1\n}\n")
	c.one("field named like a base", Head("p")+"data Base {\n int32 x = 1\n}\ndata D : Base = 1 {\n int32 base = 2\n}\n")
	c.one("override", Head("p")+"data A {\n int32 x = 1\n int32? y = 2\n}\ndata B : A = 1 {\n int32 x = 1\n string z = 2\n}\n")
}

// Nums are spellings of numbers.
var Nums = []string{"0", "1", "7", "10", "255", "0x10", "0X1f", "017", "0b101", "0o17", "1_000", "2147483647"}

func enums(c *coll) {
	its := []string{"red", "GREEN", "darkBlue", "light_grey", "x"}
	for n := 0; n <= 3; n++ {
		for s := 0; s < len(its); s++ {
			for m := 0; m < len(Nums); m++ {
				if n == 0 && s+m > 0 {
					continue
				}
				b := ""
				used := map[int64]bool{}
				for i := 0; i < n; i++ {
					v, _ := strconv.ParseInt(Nums[(m+i)%len(Nums)], 0, 64)
					if used[v] {
						b = ""
						break
					}
					used[v] = true
					b += fmt.Sprintf(" %s = %s\n", its[(s+i)%len(its)], Nums[(m+i)%len(Nums)])
				}
				if b == "" && n > 0 {
					continue
				}
				c.one(fmt.Sprint(n, s, m), Head("p")+"enum Color {\n"+b+"}\ndata D {\n Color c = 1\n Color? n = 2\n Color[] l = 3\n}\n")
			}
		}
	}
	for _, n := range Nums {
		c.one("id "+n, Head("p")+"data B {\n}\ndata D : B = "+n+" {\n int32 a = "+n+"\n}\nserver S {\n void m(D req) = "+n+"\n}\nserver T : S = "+n+" {\n}\n")
	}
}

func servers(c *coll) {
	ds := []string{"Ld", "Od", "Sd"}
	sv := map[string]string{"": "", "L": "Lsv", "O": "Osv", "S": "Ssv"}
	fs := func(x string) map[string]string {
		return map[string]string{
			"a.hbuf": Head("p", "b.hbuf", "c.hbuf", "d.hbuf") + local + "server Lsv {\n Ld local_call(Ld req) = 1\n}\n" + x,
			"b.hbuf": Head("q", "d.hbuf") + other + "server Osv : Rsv = 1 {\n Od far(Od req) = 1\n void farVoid(Od req) = 2\n}\n",
			"c.hbuf": Head("p") + sister + "server Ssv {\n void sister_call(Sd some) = 1\n}\n",
			"d.hbuf": Head("r") + "data Rd {\n int32 i = 1\n}\nserver Rsv {\n Rd root(Rd req) = 1\n}\n",
		}
	}
	tags := []string{"", "[tag: auth=\"a\"]\n ", "[tag: auth=\"a\",\"b\"; role=\"x\"]\n ", "// doc\n [tag: z=\"\"; a=\"1\"]\n "}
	for _, e := range []string{"", "L", "O", "S", "LO", "OS", "LOS"} {
		ext := ""
		for i, r := range e {
			if i == 0 {
				ext = " : "
			} else {
				ext += ", "
			}
			ext += fmt.Sprintf("%s = %d", sv[string(r)], i+1)
		}
		c.add("none "+e, fs("server Srv"+ext+" {\n}\n"))
		for _, p := range ds {
			for _, r := range append([]string{"void"}, ds...) {
				for ti, t := range tags {
					c.add(fmt.Sprint(e, p, r, ti), fs("server Srv"+ext+" {\n "+t+r+" do_it("+p+" req) = 1\n}\n"))
				}
				c.add(fmt.Sprint(e, p, r, "two"), fs("server Srv"+ext+" {\n "+r+" do_it("+p+" query) = 1\n void Other("+p+" q) = 2\n Ld third(Ld Req) = 3\n}\nserver After : Srv = 1 {\n "+r+" more("+p+" req) = 1\n}\n"))
			}
		}
	}
	// servers that inherit a method more than once or declare it again
	base := "server Ba {\n Ld ma(Ld req) = 1\n void na(Ld req) = 2\n}\nserver Bb : Ba = 1 {\n Sd mb(Sd req) = 1\n}\nserver Bc : Ba = 1, Osv = 2 {\n void na(Ld other) = 1\n}\nserver Bd {\n Ld ma(Ld req) = 7\n}\n"
	for _, e := range []string{"Ba = 1, Bb = 2", "Bb = 1, Bc = 2", "Bc = 1, Bb = 2", "Bb = 1, Bd = 2", "Bd = 1, Bb = 2, Bc = 3", "Osv = 1, Bc = 2", "Bc = 1, Osv = 2", "Ba = 1, Bd = 2"} {
		for _, m := range []string{"", " Ld ma(Ld again) = 1\n", " void extra(Od req) = 1\n"} {
			c.add("diamond "+e+m, fs(base+"server Srv : "+e+" {\n"+m+"}\nserver After : Srv = 1 {\n}\n"))
		}
	}
	// many bases
	for n := 4; n <= 6; n++ {
		var b strings.Builder
		var e []string
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, "server B%d {\n Ld do_%d(Ld req) = %d\n void more_%d(Ld req) = %d\n}\n", i, i, i, i, n+i)
			e = append(e, fmt.Sprintf("B%d = %d", i, i))
		}
		for _, m := range []string{"", " Ld do_2(Ld again) = 1\n", " void extra(Od req) = 1\n"} {
			c.add(fmt.Sprint("many ", n, m), fs(b.String()+"server Srv : "+strings.Join(e, ", ")+" {\n"+m+"}\nserver After : Srv = 1 {\n}\n"))
		}
	}
	c.add("redeclared with other types", fs("server Srv : Lsv = 1 {\n Sd local_call(Sd req) = 1\n}\n"))
	// forwarding methods
	for _, where := range []string{"Lsv.local_call", "Osv.far", "Osv.farVoid", "Ssv.sister_call"} {
		for _, res := range []string{"Wrap", "void"} {
			q := map[string]string{"Lsv.local_call": "Ld", "Osv.far": "Od", "Osv.farVoid": "Od", "Ssv.sister_call": "Sd"}[where]
			void := where == "Osv.farVoid" || where == "Ssv.sister_call"
			if void != (res == "void") {
				continue
			}
			for _, ver := range []string{"", "[verify: format=\"V.bad\"]\n"} {
				c.add("bind "+where+ver, fs("enum V {\n [format: null=\"true\"]\n bad = 1\n}\n"+ver+"data Wrap : "+q+" = 1 {\n int32? extra = 1\n}\nserver Srv {\n [bind: value=\""+where+"\"]\n "+res+" forward(Wrap req) = 1\n}\n"))
				c.add("bind query "+where+ver, fs("enum V {\n [format: null=\"true\"]\n bad = 1\n}\n"+ver+"data Wrap : "+q+" = 1 {\n int32? extra = 1\n}\nserver Srv {\n [bind: value=\""+where+"\"]\n "+res+" forward(Wrap query) = 1\n}\n"))
			}
		}
	}
}

func verify(c *coll) {
	en := func(rules string) string {
		return "enum Ver {\n " + rules + "first_bad = 1\n [format: null=\"true\"]\n second = 2\n plain = 3\n}\n"
	}
	rules := []string{"[format: null=\"true\"]\n ", "[format: null=\"false\"]\n ", "[format: min=\"1\"]\n ", "[format: max=\"9\"]\n ", "[format: min=\"1\"; max=\"9\"]\n ", "[format: null=\"true\"; min=\"-1\"; max=\"9\"]\n ",
		"[format: reg=\"^[a-z]+$\"]\n ", "[format: reg=\"^a\\\\d$\"; min=\"2\"]\n ", "[format: ]\n ", ""}
	date := []string{"[format: min=\"2020-01-01T00:00:00Z\"]\n ", "[format: max=\"2020-01-01T00:00:00Z\"]\n ", "[format: null=\"true\"; min=\"2020-01-01T00:00:00Z\"; max=\"2021-01-01T00:00:00Z\"]\n "}
	var ts []string
	for _, b := range append(append([]string{}, Base...), "Le", "Oe", "Ld") {
		ts = append(ts, b, b+"?", b+"[]", b+"[]?", b+"<string>?")
	}
	fs := func(v, x string, imported bool) map[string]string {
		b := other
		a := local
		if imported {
			b += v
		} else {
			a += v
		}
		return map[string]string{"a.hbuf": Head("p", "b.hbuf") + a + x, "b.hbuf": Head("q") + b}
	}
	for _, t := range ts {
		rs := rules
		if strings.HasPrefix(t, "date") {
			rs = append(append([]string{}, date...), "[format: null=\"true\"]\n ", "[format: ]\n ", "")
		}
		for ri, r := range rs {
			if strings.Contains(r, "-1") && strings.HasPrefix(t, "uint") {
				r = strings.Replace(r, "-1", "1", 1)
			}
			for fi, f := range []string{"\"Ver.first_bad\"", "\"Ver.first_bad\",\"Ver.second\"", "\"Ver.second\",\"Ver.first_bad\"", "\"Ver.plain\"", "\"Ver.first_bad\",\"Ver.plain\",\"Ver.first_bad\""} {
				for _, imported := range []bool{false, true} {
					for di, d := range []string{"", "[verify: format=\"Ver.plain\"]\n"} {
						if !c.full && (fi+di+ri)%3 != 0 && (imported || fi > 1) {
							continue
						}
						c.add(fmt.Sprint(t, ri, fi, imported, di), fs(en(r), d+"data D {\n [verify: format="+f+"]\n "+t+" the_field = 1\n int32 other = 2\n}\n", imported))
					}
				}
			}
		}
	}
	for _, d := range []string{"", "[verify: format=\"Ver.plain\"]\n"} {
		for _, d2 := range []string{"", "[verify: format=\"Ver.plain\"]\n"} {
			c.add("inherited "+d+d2, fs(en("[format: min=\"1\"]\n "), d+"data A {\n [verify: format=\"Ver.first_bad\"]\n int32 a = 1\n}\n"+d2+"data B : A = 1, Od = 2 {\n [verify: format=\"Ver.first_bad\"]\n string? b = 1\n}\n", false))
		}
	}
}

// DbOps are the operations a db tag can ask for.
var DbOps = []string{"get=\"self\"", "list=\"self\"", "map=\"id:self\"", "count=\"true\"", "insert=\"self\"", "inserts=\"self\"", "update=\"self\"", "set=\"self\"", "del=\"true\"", "rm=\"true\""}

const dbBody = " [db: key=\"true\"]\n int64 id = 1\n [db: name=\"user_name\"]\n string? name = 2\n [db: ]\n int32 age = 3\n"

func dbs(c *coll) {
	tag := func(ops []string, more string) string {
		return "[db: name=\"user\"; " + strings.Join(append(append([]string{}, ops...), more), "; ") + "]\n"
	}
	var sel [][]string
	for m := 1; m < 1<<len(DbOps); m++ {
		n := 0
		var s []string
		for i := range DbOps {
			if m>>i&1 == 1 {
				n++
				s = append(s, DbOps[i])
			}
		}
		if n <= 2 || n == len(DbOps) || c.full {
			sel = append(sel, s)
		}
	}
	sel = append(sel, nil)
	for _, s := range sel {
		for _, cache := range []string{"", "[cache: min=\"10\"; max=\"20\"]\n", "[cache: ]\n", "[cache: min=\"0\"; max=\"5\"]\n"} {
			for _, fake := range []string{"fake=\"false\"", "fake=\"true\"", "schema=\"sch\""} {
				if len(s) > 2 && len(s) < len(DbOps) && (fake != "fake=\"true\"" || cache == "[cache: ]\n") {
					continue
				}
				c.one(fmt.Sprint(s, cache, fake), Head("p")+tag(s, fake)+cache+"data User {\n"+dbBody+"}\n")
			}
		}
	}
	// a type that reads and writes the table of another type
	for _, op := range append([]string{strings.Join(DbOps, "; ")}, DbOps...) {
		for _, val := range []string{"self", "parent"} {
			o := strings.ReplaceAll(op, "self", val)
			for _, cache := range []string{"", "[cache: min=\"10\"; max=\"20\"]\n"} {
				for _, ext := range []string{"", " : User = 1"} {
					for _, imp := range []bool{false, true} {
						u := "[db: name=\"user\"]\ndata User {\n" + dbBody + "}\n"
						q := "[db: table=\"User\"; " + o + "]\n" + cache + "data Query" + ext + " {\n [db: where=\"AND id = ?\"]\n int64? the_id = 4\n [db: where=\"AND age > ?\",\"AND age < ?\"]\n int32[]? ages = 5\n [db: limit=\"?\"]\n int32 limit = 6\n [db: offset=\"?\"]\n int32 offset = 7\n [db: order=\"id $\"]\n string? order = 8\n [db: name=\"user_name\"; set=\"?\"; get=\"?\"]\n string? name2 = 9\n}\n"
						k := fmt.Sprint("table ", o, cache, ext, imp)
						if imp {
							c.add(k, map[string]string{"a.hbuf": Head("p", "b.hbuf") + q, "b.hbuf": Head("q") + u})
						} else {
							c.one(k, Head("p")+u+q)
						}
					}
				}
			}
		}
	}
}

func dbfields(c *coll) {
	ops := strings.Join(DbOps, "; ")
	tags := []string{"", "where=\"AND x = ?\"", "where=\"AND x > ? AND x < ?\"", "where=\"AND x = ?{id}\"", "where=\"AND x IN(?)\"", "where=\"AND x = 1\"", "where=\"AND x > ?\",\"AND x < ?\"", "converter=\"json\"", "converter=\"json\"; where=\"AND x = ?\"",
		"set=\"? + 1\"", "set=\"NOW()\"", "get=\"COUNT(?)\"", "group=\"x\"", "force=\"true\"", "name=\"other\""}
	strTags := []string{"order=\"x $\"", "order=\"$\"", "where=\"AND x LIKE CONCAT('%', ?, '%')\"", "where=\"AND $ = 1\"", "where=\"AND ${name} = ?\""}
	intTags := []string{"limit=\"?\"", "offset=\"?\""}
	for _, b := range append(append([]string{}, Base...), "Le", "Ld", "Oe") {
		for _, s := range []string{"%", "%?", "%[]", "%[]?", "%<string>?", "%?[]?"} {
			t := strings.Replace(s, "%", b, 1)
			tt := tags
			if s == "%" || s == "%?" {
				if b == "string" {
					tt = append(append([]string{}, tags...), strTags...)
				}
				if strings.Contains(b, "int") {
					tt = append(append([]string{}, tags...), intTags...)
				}
			}
			for _, g := range tt {
				if (b == "Ld" || strings.ContainsAny(s, "[<")) && !strings.Contains(g, "converter") && !strings.Contains(g, "IN(") && !strings.Contains(g, "\",\"") && g != "" {
					continue
				}
				c.add(t+" "+g, map[string]string{"a.hbuf": Head("p", "b.hbuf") + local + "[db: name=\"user\"; " + ops + "]\ndata User {\n [db: key=\"true\"]\n int64 id = 1\n [db: ]\n string? name = 2\n [db: " + g + "]\n " + t + " x_y = 3\n int32 free = 4\n}\n", "b.hbuf": Head("q") + other})
			}
		}
	}
	for _, kt := range append(append([]string{}, Base...), "Le") {
		c.one("key "+kt, Head("p")+local+"[db: name=\"user\"; "+ops+"]\ndata User {\n [db: key=\"true\"]\n "+kt+" id = 1\n [db: ]\n string? name = 2\n}\n")
		c.one("key? "+kt, Head("p")+local+"[db: name=\"user\"; "+ops+"]\ndata User {\n [db: key=\"true\"]\n "+kt+"? id = 1\n [db: ]\n string? name = 2\n}\n")
	}
}

func packages(c *coll) {
	ps := []string{"p", "q", "a.b", "a.c", "x.b", "db", "json", "context", "hbuf", "rpc", "sql", "time", "cache", "manage", "user_api", "P"}
	for _, a := range ps {
		for _, b := range ps {
			c.add(a+" "+b, map[string]string{
				"a.hbuf": Head(a, "b.hbuf") + "[db: name=\"t\"; get=\"self\"; insert=\"self\"]\n[cache: min=\"1\"; max=\"2\"]\n[verify: format=\"Oe.one\"]\ndata D : Od = 1 {\n [db: key=\"true\"]\n int64 id = 1\n [verify: format=\"Oe.one\"]\n [db: ]\n Oe? e = 2\n Od[] l = 3\n date at = 4\n}\nserver S : O = 1 {\n Od m(D req) = 1\n D n(Od req) = 2\n}\n",
				"b.hbuf": Head(b) + "data Od {\n int32 x = 1\n}\nenum Oe {\n [format: null=\"true\"]\n one = 1\n}\nserver O {\n Od o(Od req) = 1\n}\n"})
		}
	}
	for _, drop := range []string{"go", "java", "both"} {
		h := Head("p", "b.hbuf")
		o := Head("q")
		if drop != "java" {
			h = strings.Replace(h, "package go = \"p\"\n", "", 1)
			o = strings.Replace(o, "package go = \"q\"\n", "", 1)
		}
		if drop != "go" {
			h = strings.Replace(h, "package java = \"com.p\"\n", "", 1)
			o = strings.Replace(o, "package java = \"com.q\"\n", "", 1)
		}
		c.add("without "+drop, map[string]string{"a.hbuf": h + "data D : Od = 1 {\n}\n", "b.hbuf": o + other})
	}
}

func langs(c *coll) {
	ls := []string{"", "[lang: en=\"Text\"]\n", "[lang: zhCN=\"文\"]\n", "[lang: en=\"A\"; zh=\"B\"; fr=\"C\"]\n", "[lang: zh_CN=\"文\"]\n", "[lang: en=\"with 'quotes' and ${x}\"]\n", "[lang: En=\"\"]\n"}
	for _, l0 := range ls {
		for _, l1 := range ls {
			for _, l2 := range ls {
				c.one(l0+l1+l2, Head("p")+l0+"enum Color {\n "+l1+"red = 0\n "+l2+"dark_blue = 1\n HTTPCode = 2\n}\n[ui: form=\"true\"; table=\"true\"]\n"+l0+"data D {\n [ui: form=\"input\"; table=\"text\"]\n "+l1+"string? name = 1\n [ui: form=\"menu\"; table=\"text\"]\n "+l2+"Color? some_color = 2\n}\n")
			}
		}
	}
}

// UiForms and UiTables are the widget kinds of ui tags.
var UiForms = []string{"", "text", "input", "date", "datetime", "dates", "year", "month", "pass", "menu", "radio", "radioButton", "image", "switch", "click", "link", "file", "x"}
var UiTables = []string{"", "text", "image", "switch", "click", "link", "date"}

func uis(c *coll) {
	for _, b := range append(append([]string{}, Base...), refs...) {
		for _, s := range []string{"%", "%?", "%[]", "%[]?", "%<string>", "%<string>?"} {
			t := strings.Replace(s, "%", b, 1)
			for i, f := range UiForms {
				for j, tb := range UiTables {
					if !c.full && i > 0 && j > 0 && i%len(UiTables) != j {
						continue
					}
					g := ""
					if f != "" {
						g += "form=\"" + f + "\"; "
					}
					if tb != "" {
						g += "table=\"" + tb + "\"; "
					}
					c.add(t+g, Trio("[ui: form=\"true\"; table=\"true\"]\n[lang: en=\"X\"]\ndata D {\n [ui: "+strings.TrimSuffix(g, "; ")+"]\n "+t+" the_field = 1\n}\n"))
				}
			}
			for _, o := range []string{"onlyRead=\"true\"", "toNull=\"true\"", "maxLine=\"3\"", "maxCount=\"9\"", "digit=\"2\"", "format=\"yyyy-MM-dd\"", "index=\"4\"", "width=\"20\"", "height=\"20\"", "clip=\"1:2\"", "extensions=\"png\",\"jpg\"", "unlink=\"true\""} {
				c.add(t+o, Trio("[ui: form=\"true\"; table=\"true\"]\n[lang: en=\"X\"]\ndata D {\n [ui: form=\"input\"; table=\"text\"; "+o+"]\n "+t+" the_field = 1\n}\n"))
			}
		}
	}
	for _, d := range []string{"", "[ui: form=\"true\"]\n", "[ui: table=\"true\"]\n", "[ui: form=\"true\"; table=\"true\"]\n", "[ui: form=\"true\"; table=\"true\"; width=\"100\"; height=\"10\"; toNull=\"true\"]\n"} {
		for _, v := range []string{"", "[verify: format=\"Ver.bad\"]\n "} {
			for _, dv := range []string{"", "[verify: format=\"Ver.bad\"]\n"} {
				c.one(d+v+dv, Head("p")+local+"enum Ver {\n [format: min=\"1\"; reg=\"x\"]\n bad = 1\n}\n"+d+dv+"data D {\n [ui: form=\"input\"; table=\"text\"]\n "+v+"string? s = 1\n [ui: form=\"menu\"; table=\"text\"]\n Le? e = 2\n}\ndata X : D = 1 {\n [ui: form=\"input\"]\n int32? n = 3\n}\n")
			}
		}
	}
	for _, n := range Names {
		for k, at := range []string{"DN", "EN", "FN", "IN"} {
			x := []string{"Ddd", "Eee", "field", "first"}
			x[k] = n
			c.one("name "+at+"="+n, Head("p")+"[ui: form=\"true\"]\nenum "+x[1]+" {\n "+x[3]+" = 0\n other = 5\n}\n[ui: form=\"true\"; table=\"true\"]\ndata "+x[0]+" {\n [ui: form=\"menu\"; table=\"text\"]\n "+x[1]+"? "+x[2]+" = 1\n}\n")
		}
	}
	for _, from := range []string{"Ld", "Od", "Sd"} {
		for _, u := range []string{"", "[ui: form=\"true\"]\n", "[ui: form=\"true\"; table=\"true\"]\n"} {
			c.add("from "+from+u, Trio("data Middle : "+from+" = 1 {\n [ui: form=\"input\"; table=\"text\"]\n string? mid = 1\n}\n"+u+"data D : Middle = 1 {\n [ui: form=\"menu\"; table=\"text\"]\n Oe? own = 2\n}\n"))
		}
	}
}

// FileNames are names of files without their ending.
var FileNames = []string{"user", "User", "userData", "user_data", "user-data", "user.data", "a.b.c", "2a", "a2", "_a", "a_", "data", "enum", "class", "index", "a_test", "a_linux", "a_windows", "a_js_wasm", "windows", "用户", "é", "a+b", "a@b", "UPPER", "con-fig.v2"}

// files: files of any name that import and are imported, in the same and another package.
func files(c *coll) {
	for _, n := range FileNames {
		for _, o := range []string{"b", "x-y"} {
			for k, pk := range [][3]string{{"p", "p", "p"}, {"p", "q", "r"}} {
				body := func(x string) string {
					return strings.ReplaceAll("enum E@ {\n [format: null=\"true\"; min=\"1\"]\n one_item = 1\n}\n[ui: form=\"true\"; table=\"true\"]\ndata D@ {\n [ui: form=\"menu\"; table=\"text\"]\n E@ e = 1\n [ui: form=\"text\"]\n [verify: format=\"E@.one_item\"]\n int32? i = 2\n}\nserver S@ {\n D@ call@(D@ req) = 1\n}\n", "@", x)
				}
				use := func(x, y string) string {
					return strings.NewReplacer("@", x, "%", y).Replace("[ui: form=\"true\"]\n[db: name=\"t@\"; get=\"self\"]\ndata Use@ : D% = 1 {\n [db: key=\"true\"]\n int64 id = 3\n [ui: form=\"menu\"]\n [db: ]\n E% other = 4\n [verify: format=\"E%.one_item\"]\n string? s = 5\n}\nserver More@ : S% = 1 {\n D% more@(Use@ req) = 2\n}\n")
				}
				c.add(fmt.Sprintf("%s %s %d", n, o, k), map[string]string{
					"root.hbuf": Head(pk[0], n+".hbuf") + body("a") + use("a", "n"),
					n + ".hbuf": Head(pk[1], o+".hbuf") + body("n") + use("n", "o"),
					o + ".hbuf": Head(pk[2]) + body("o"),
				})
			}
		}
	}
}

// graph: import graphs with references along every edge.
func graph(c *coll) {
	n := 3
	for m := 0; m < 1<<(n*n); m++ {
		ok := true
		for i := 0; i < n; i++ {
			if m>>(i*n+i)&1 == 1 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for pk := 0; pk < 5; pk++ {
			pn := [][]string{{"p", "p", "p"}, {"p", "q", "r"}, {"p", "p", "q"}, {"p", "q", "p"}, {"p", "q", "q"}}[pk]
			// Go cannot compile packages that import each other
			cyc := false
			e := func(i, j int) bool { return m>>(i*n+j)&1 == 1 }
			reach := map[string]map[string]bool{}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if e(i, j) && pn[i] != pn[j] {
						if reach[pn[i]] == nil {
							reach[pn[i]] = map[string]bool{}
						}
						reach[pn[i]][pn[j]] = true
					}
				}
			}
			for k := 0; k < n; k++ {
				for a := range reach {
					for b := range reach[a] {
						for d := range reach[b] {
							reach[a][d] = true
						}
					}
				}
			}
			for a := range reach {
				cyc = cyc || reach[a][a]
			}
			if cyc {
				continue
			}
			fs := map[string]string{}
			for i := 0; i < n; i++ {
				t := ""
				var im []string
				for j := 0; j < n; j++ {
					if e(i, j) {
						im = append(im, fmt.Sprintf("f%d.hbuf", j))
						t += fmt.Sprintf(" D%d? d%d = %d\n E%d[] e%d = %d\n", j, j, 10+j, j, j, 20+j)
					}
				}
				fs[fmt.Sprintf("f%d.hbuf", i)] = Head(pn[i], im...) + fmt.Sprintf("data D%d {\n int32 own = 1\n%s}\nenum E%d {\n zero%d = 0\n}\nserver S%d {\n D%d m(D%d req) = 1\n}\n", i, t, i, i, i, i, i)
			}
			c.add(fmt.Sprint(m, pk), fs)
		}
	}
}

// Derived are the names that generated code has besides those of the declarations Shop, Color and User of clash.
var Derived = []string{"ShopClient", "NewShopClient", "ShopRouter", "NewShopRouter", "DefaultShop", "NotFoundShop", "GetShop", "ColorRed", "ColorValues", "colorValues", "colorMap", "ColorLang", "colorLang", "ColorLocalizations", "UserFormItems", "UserTableColumn", "UserImpl", "_User", "FormUserBuild", "TableUserBuild", "UserLocalizations", "verifyUser_Id", "AData", "AServer", "AEnum", "AVerify"}

// clash: declarations that are named like another of another file, or like something generated for another.
func clash(c *coll) {
	kinds := []string{"data", "enum", "server"}
	decl := map[string]string{"data": "data @ {\n int32 own = 1\n}\n", "enum": "enum @ {\n mine = 3\n}\n", "server": "server @ {\n Unit own(Unit req) = 5\n}\ndata Unit {\n}\n"}
	use := map[string]string{"data": "data Use : @ = 1 {\n @[]? l = 2\n}\nserver Uses {\n @ u(Use req) = 1\n}\n", "enum": "data Use {\n @ e = 2\n @[]? l = 3\n}\n", "server": "server Uses : @ = 1 {\n}\n"}
	full := "[lang: en=\"X\"]\nenum Color {\n [lang: en=\"X\"]\n [format: null=\"true\"; min=\"1\"]\n red = 0\n}\n[ui: form=\"true\"; table=\"true\"]\n[lang: en=\"X\"]\ndata User {\n [ui: form=\"menu\"; table=\"text\"]\n [lang: en=\"X\"]\n Color? c = 0\n [ui: form=\"text\"]\n [verify: format=\"Color.red\"]\n string? id = 1\n}\nserver Shop {\n User m(User req) = 0\n}\n"
	for _, n := range Derived {
		for _, k := range kinds {
			d, u := strings.ReplaceAll(decl[k], "@", n), strings.ReplaceAll(use[k], "@", n)
			c.one(n+" "+k+" here", Head("p")+full+d+u)
			c.add(n+" "+k+" there", map[string]string{"a.hbuf": Head("p", "b.hbuf") + full + u, "b.hbuf": Head("p") + d})
			c.add(n+" "+k+" beyond", map[string]string{"a.hbuf": Head("p", "b.hbuf") + full + u, "b.hbuf": Head("q") + d})
		}
	}
	for _, k := range kinds {
		for _, o := range kinds {
			d, e := strings.ReplaceAll(decl[k], "@", "Same"), strings.ReplaceAll(decl[o], "@", "Same")
			d, e = strings.ReplaceAll(d, "Unit", "Du"), strings.ReplaceAll(e, "Unit", "Eu")
			for i, pk := range [][2]string{{"p", "p"}, {"p", "q"}, {"x.p", "y.p"}} {
				c.add(fmt.Sprintf("%s %s apart %d", k, o, i), map[string]string{"a.hbuf": Head(pk[0]) + d + strings.ReplaceAll(use[k], "@", "Same"), "b.hbuf": Head(pk[1]) + e})
			}
		}
	}
}
