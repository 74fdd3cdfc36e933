// P30: names mean nothing. A schema whose names and texts are all made of words that occur nowhere else is generated; then
// each word is replaced, one at a time and in pairs, by every other word of an alphabet, and what is generated has to be the
// same with the word replaced in it.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
)

func main() {
	guard.Main("P30", func(c *ev.Check, g *guard.Guard) { run(c, g) }, func(kind byte, data string) {})
}

// slot is a word of the schema: what it names and how.
type slot struct {
	word, what string
}

// base makes the schema. Every @what@ becomes a word of its own; a capital first letter of what spells the word with one.
func base() (files map[string]string, slots []slot) {
	text := map[string]string{
		"@fileA@.hbuf": `package go = "@pkg@.@pkgOne@"
package java = "com.@javaPkg@"
import "@fileB@_@fileBTwo@.hbuf"
import "@fileC@.hbuf"
// @comment@ of an enum
[ui: form="true"]
enum @EnumA@@EnumATwo@ {
 // @commentItem@ words
 [lang: en="@textItem@ text"; @language@="@textItemTwo@"]
 @itemA@_@itemATwo@ = 3
 @itemB@ = 4
}
enum @Rules@ {
 [format: null="false"]
 [lang: en="@message@"]
 @ruleA@_@ruleATwo@ = 1
 [format: min="1"; max="9"; reg="^@pattern@$"]
 @ruleB@ = 2
}
// @commentData@ lines
[ui: form="true"; table="true"]
[lang: en="@textData@"]
data @DataA@@DataATwo@ : @DataB@@DataBTwo@ = 1, @DataC@ = 2 {
 // @commentField@ lines
 [ui: form="text"; table="text"]
 [lang: en="@textField@ two"; @language@="x"]
 [verify: format="@Rules@.@ruleB@"]
 string? @fieldA@_@fieldATwo@ = 3
 [ui: form="menu"; table="text"]
 [verify: format="@Rules@.@ruleA@_@ruleATwo@"]
 @EnumA@@EnumATwo@? @fieldB@ = 4
 [ui: form="date"]
 date? @fieldC@ = 5
 int64[]? @fieldD@ = 6
 @DataC@<@EnumB@> @fieldE@@FieldETwo@ = 7
 decimal<string>? @fieldF@ = 8
 @DataA@@DataATwo@?[] @fieldG@ = 9
}
[db: name="@tableName@"; get="self"; find="self"; insert="self"; inserts="self"; update="self"; set="self"; del="self"; remove="self"; count="self"]
[cache: min="1"; max="2"]
data @Row@@RowTwo@ {
 [db: key="true"]
 int64 @rowId@ = 1
 [db: where="AND @column@ > ?"]
 int32? @rowA@_@rowATwo@ = 2
 [db: converter="json"]
 @DataC@[] @rowB@ = 3
 [db: name="@columnName@"]
 string @rowC@ = 4
}
[db: name="@Row@@RowTwo@"; find="@Row@@RowTwo@"; count="true"; del="true"]
data @Query@ {
 [db: where="AND x = ?"; name="@filter@"]
 int64? @rowId@ = 1
 [db: where="AND x IN (?)"]
 int64[]? @queryA@ = 2
}
// @commentServer@ lines
server @ServerA@@ServerATwo@ : @ServerB@ = 1, @ServerC@ = 2 {
 // @commentMethod@ lines
 [tag: @tagKey@="@tagValue@"]
 @DataA@@DataATwo@ @methodA@_@methodATwo@(@Query@ req) = 1
 void @methodB@(@DataC@ req) = 2
}
server @ServerB@ {
 @DataC@ @methodC@(@DataB@@DataBTwo@ req) = 1
}
`,
		"@fileB@_@fileBTwo@.hbuf": `package go = "@pkg@.@pkgOne@"
package java = "com.@javaPkg@"
import "@fileC@.hbuf"
enum @EnumB@ {
 @itemC@ = 0
 @itemD@ = 1
}
[ui: table="true"]
data @DataB@@DataBTwo@ {
 [verify: format="@RulesB@.@ruleC@"]
 int32 @fieldH@ = 1
 [ui: table="text"]
 @EnumB@[] @fieldI@ = 2
 @DataC@ @fieldJ@ = 3
}
`,
		"@fileC@.hbuf": `package go = "@pkg@.@pkgTwo@"
package java = "com.@javaPkg@.@javaPkgTwo@"
enum @RulesB@ {
 [format: min="5"]
 @ruleC@ = 1
}
data @DataC@ {
 bool @fieldK@ = 1
 double? @fieldL@ = 2
}
server @ServerC@ {
 void @methodD@(@DataC@ req) = 1
}
`}
	words := map[string]string{}
	var whats []string
	at := regexp.MustCompile(`@(\w+)@`)
	key := func(w string) string { return strings.ToLower(w[:1]) + w[1:] }
	for _, f := range []string{"@fileA@.hbuf", "@fileB@_@fileBTwo@.hbuf", "@fileC@.hbuf"} {
		for _, m := range at.FindAllStringSubmatch(f+text[f], -1) {
			if k := key(m[1]); words[k] == "" {
				i := len(whats)
				words[k] = fmt.Sprintf("zq%c%cx", 'a'+i/26, 'a'+i%26)
				whats = append(whats, k)
			}
		}
	}
	fill := func(s string) string {
		return at.ReplaceAllStringFunc(s, func(m string) string {
			w := words[key(m[1:len(m)-1])]
			if m[1] < 'a' {
				w = title(w)
			}
			return w
		})
	}
	files = map[string]string{}
	for f, t := range text {
		files[fill(f)] = fill(t)
	}
	for _, k := range whats {
		slots = append(slots, slot{words[k], k})
	}
	return files, slots
}

func title(w string) string { return strings.ToUpper(w[:1]) + w[1:] }

// put replaces words in all their spellings.
func put(s string, re [][2]string) string {
	var l []string
	for _, r := range re {
		l = append(l, r[0], r[1], title(r[0]), title(r[1]), strings.ToUpper(r[0]), strings.ToUpper(r[1]))
	}
	return strings.NewReplacer(l...).Replace(s)
}

func putAll(m map[string]string, re [][2]string) map[string]string {
	out := map[string]string{}
	for n, t := range m {
		out[put(n, re)] = put(t, re)
	}
	return out
}

// even takes out of a file what names may change: the white space that aligns columns, and the order of imports.
func even(text string) string {
	var out, imps []string
	inside := false
	flush := func() {
		sort.Strings(imps)
		out, imps = append(out, imps...), nil
	}
	for _, l := range strings.Split(text, "\n") {
		l = strings.Join(strings.Fields(l), " ")
		switch {
		case l == "import (":
			inside = true
			out = append(out, l)
		case inside && l == ")":
			inside = false
			flush()
			out = append(out, l)
		case inside || strings.HasPrefix(l, "import "):
			imps = append(imps, l)
		default:
			flush()
			out = append(out, l)
		}
	}
	flush()
	return strings.Join(out, "\n")
}

// vocabulary are words people name things with; none of them is a keyword of a target.
var vocabulary = strings.Fields(`id ids uid uuid url uri ip api http https json xml sql html css utf os io db ui cpu ram ssl tcp udp
 name names title label text note memo desc key keys val value values data datas item items list lists map maps set sets array size length count total sum max min avg
 index page limit offset order sort group where having from join left right inner table column row rows field fields insert update delete remove add get gets put post head patch find select create drop
 is has can on off to by at of or and not all any none some each
 user users admin role auth token login logout password email phone address city country zip code status state flag active enabled deleted hidden visible
 date time datetime day month year week hour minute second now today start end begin stop created updated timestamp
 type kind class object base super this self other parent child root node tree leaf path file dir link
 int int8 int32 int64 uint bool string float double decimal number byte bytes char text blob
 true false null nil undefined void empty unit
 error errors err result results response request req res ret reply call calls client server servers service router route handler method methods func function invoke init close open
 context ctx tx row hash equal equals copy clone print format parse read write load save send receive encode decode json tojson fromjson
 color red green blue black white dark light width height left top bottom image photo icon video audio
 price amount money pay cost tax rate score level grade rank point
 test tests testing main linux windows js wasm amd64 go dart java ts node web flutter vue react
 verify rule rules check lang language locale form forms builder build widget enum enums import export package public private static final const var let new`)

func run(c *ev.Check, g *guard.Guard) {
	files, slots := base()
	first := map[string]map[string]string{}
	for _, t := range hb.Targets {
		r := hb.Run(files, "*.hbuf", t, "")
		if r.Err != nil || r.Panic != "" || len(r.Out) == 0 {
			c.Violate(t, fmt.Sprintf("%s: the schema is not generated: %s\n%s", t, r.Brief(), hb.Text(files)))
			return
		}
		first[t] = r.Out
	}
	var words []string
	had := map[string]bool{}
	add := func(w string) {
		if !had[w] {
			had[w] = true
			words = append(words, w)
		}
	}
	lits, pairs := literals(ev.Repo())
	for _, w := range lits {
		add(w)
	}
	letters := "abcdefghijklmnopqrstuvwxyz"
	for _, a := range letters {
		add(string(a))
		for _, b := range letters {
			add(string(a) + string(b))
			if c.Thorough() {
				for _, d := range letters {
					add(string(a) + string(b) + string(d))
				}
			}
		}
	}
	for _, w := range vocabulary {
		add(w)
		if c.Thorough() {
			add(w + "s")
			add("x" + w)
		}
	}
	for _, a := range letters {
		for d := 0; d < 10; d++ {
			add(fmt.Sprintf("%c%d", a, d))
		}
	}
	// one schema per shift gives every word of the schema another one; all shifts give each of them every one
	n := len(words)
	c.Extra["words of the schema"], c.Extra["words that replace them"] = len(slots), n
	g.Par(c)("names", n*len(hb.Targets), func(w, k int) {
		t, shift := hb.Targets[k%len(hb.Targets)], k/len(hb.Targets)
		var re []repl
		for i, s := range slots {
			x := words[(i*stride+shift)%n]
			if left(t, s.what, x) {
				c.Outcome("left as it is: " + t)
				continue
			}
			re = append(re, repl{s.what + "=" + x + " " + t, [][2]string{{s.word, x}}})
		}
		try(c, t, fmt.Sprintf("shift %d %s", shift, t), files, first[t], re)
	})
	// names of two words
	var twos [][2]slot
	for _, s := range slots {
		for _, o := range slots {
			if o.what == s.what+"Two" {
				twos = append(twos, [2]slot{s, o})
			}
		}
	}
	c.Extra["names of two words"], c.Extra["pairs that replace them"] = len(twos), len(pairs)
	g.Par(c)("pairs", len(pairs)*len(hb.Targets), func(w, k int) {
		t, shift := hb.Targets[k%len(hb.Targets)], k/len(hb.Targets)
		var re []repl
		for i, s := range twos {
			x := pairs[(i*stride+shift)%len(pairs)]
			if left(t, s[0].what, x[0]) || left(t, s[1].what, x[1]) || gives[t][x[0]+"_"+x[1]] {
				c.Outcome("left as it is: " + t)
				continue
			}
			re = append(re, repl{s[0].what + "=" + x[0] + "_" + x[1] + " " + t, [][2]string{{s[0].word, x[0]}, {s[1].word, x[1]}}})
		}
		try(c, t, fmt.Sprintf("pairs, shift %d %s", shift, t), files, first[t], re)
	})
}

// repl is a replacement of the words of one name.
type repl struct {
	key string
	re  [][2]string
}

// left reports whether a word cannot be there.
func left(t, what, x string) bool {
	return reserved[x] || keywords[t][x] || strings.HasPrefix(what, "file") && suffixes[x] || what == "language" && x == "en"
}

// try generates the schema with all replacements at once and, if something is wrong, with each of them.
func try(c *ev.Check, t, key string, files, first map[string]string, all []repl) {
	c.Outcome(t)
	c.Trace(1)
	bad := func(l []repl) (string, map[string]string) {
		c.Step(1)
		var re [][2]string
		for _, r := range l {
			re = append(re, r.re...)
		}
		in := putAll(files, re)
		r := hb.Run(in, "*.hbuf", t, "")
		if r.Err != nil || r.Panic != "" {
			return "rejected: " + r.Brief(), in
		}
		return differ(putAll(first, re), r.Out), in
	}
	for _, r := range all {
		c.State(r.key)
	}
	d, in := bad(all)
	if d == "" {
		if len(all) > 0 && len(all[0].key)%5 == 0 {
			c.Sample(key + ": " + all[0].key + " ...")
		}
		return
	}
	alone := false
	for i, r := range all {
		if d, in := bad(all[i : i+1]); d != "" {
			alone = true
			c.Violate(r.key, fmt.Sprintf("%s: what is generated is not the same with the words of the name replaced:\n%s\n%s", r.key, d, hb.Text(in)))
		}
	}
	if !alone {
		c.Violate(key, fmt.Sprintf("%s: what is generated is not the same with the words of these names replaced: %v\n%s\n%s", key, all, d, hb.Text(in)))
	}
}

// gives are names that give way to members of the classes of a target.
var gives = map[string]map[string]bool{
	"dart": set("from_map to_map hash_code runtime_type read_only copy_with to_string no_such_method"),
}

// literals are the words that the code under test has in its texts: a name with a meaning has to be among them.
func literals(dir string) (words []string, pairs [][2]string) {
	had, two := map[string]bool{}, map[string]bool{}
	_ = filepath.Walk(filepath.Join(dir), func(p string, f os.FileInfo, err error) error {
		if err != nil || f.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		file, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(file, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				if t, err := strconv.Unquote(l.Value); err == nil {
					if l := wordRe.FindAllString(t, -1); nameRe.MatchString(t) {
						for i := 1; i < len(l); i++ {
							two[strings.ToLower(l[i-1]+" "+l[i])] = true
						}
					}
					for _, w := range wordRe.FindAllString(strings.ReplaceAll(t, "\\n", " "), -1) {
						if w = strings.ToLower(w); len(w) < 30 {
							had[w] = true
						}
					}
				}
			}
			return true
		})
		return nil
	})
	for w := range had {
		words = append(words, w)
	}
	sort.Strings(words)
	for _, w := range strings.Fields(twoWords) {
		two[strings.ReplaceAll(w, "_", " ")] = true
	}
	var l []string
	for w := range two {
		l = append(l, w)
	}
	sort.Strings(l)
	for _, w := range l {
		a, b, _ := strings.Cut(w, " ")
		pairs = append(pairs, [2]string{a, b})
	}
	return words, pairs
}

var nameRe = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

const twoWords = `user_id create_time update_time delete_time created_at updated_at deleted_at is_deleted is_null is_empty has_next order_by group_by page_size page_index row_count start_time end_time
 to_json from_json to_map from_map to_string hash_code copy_with get_id set_id get_name set_name get_list get_data new_data init_data data_list list_item key_value value_of value_list index_of name_of type_of
 http_server url_path json_text xml_node id_card uu_id e_mail phone_no no_name un_known in_it x_y a_b no_key first_name last_name old_new min_max is_x on_click on_change table_name column_name`

var wordRe = regexp.MustCompile(`[A-Z]?[a-z]+[0-9]*|[A-Z]+[0-9]*`)

// stride keeps words that follow each other in the alphabet apart.
const stride = 11

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// reserved are the words of the schema language.
var reserved = set("int8 int16 int32 int64 uint8 uint16 uint32 uint64 bool float double string data server enum import package date decimal void")

// suffixes are ends of file names that have a meaning for the go command.
var suffixes = set("test js linux windows wasm amd64 darwin unix android ios")

// keywords are words a target cannot name something with.
var keywords = map[string]map[string]bool{
	"go": set("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var"),
	"ts": set("break case catch class const constructor continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with let static yield async await of"),
	"dart": set("abstract as assert async await break case catch class const continue covariant default deferred do dynamic else enum export extends extension external factory false final finally for function get hide if implements import in interface is late library mixin new null of on operator part required rethrow return set show static super switch sync this throw true try typedef var void while with yield " +
		"build builder context copy id identical info int invoke name num other padding sizes"), // and what the members of its classes give way to
	"java": set("abstract assert boolean break byte case catch char class const continue default do double else enum extends final finally float for goto if implements import instanceof int interface long native new package private protected public return short static strictfp super switch synchronized this throw throws transient try void volatile while true false null var record yield"),
}

// differ tells the first difference of two outputs.
func differ(want, got map[string]string) string {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := got[n]
		if !ok {
			return "no file " + n
		}
		if g == want[n] {
			continue
		}
		a, b := strings.Split(even(want[n]), "\n"), strings.Split(even(g), "\n")
		if strings.HasSuffix(n, ".lang.ts") || strings.HasSuffix(n, ".ui.dart") { // texts are in the order of their names
			sort.Strings(a)
			sort.Strings(b)
		}
		for i := range a {
			if i >= len(b) {
				return n + ": missing: " + a[i]
			}
			if a[i] != b[i] {
				return n + ":\nwant " + a[i] + "\ngot  " + b[i]
			}
		}
		if len(b) > len(a) {
			return n + ": besides: " + b[len(a)]
		}
	}
	if len(got) > len(want) {
		return "more files"
	}
	return ""
}
