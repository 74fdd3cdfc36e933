package main

import (
	"fmt"
	"strings"

	"verif/harness/schemas"
)

// lang writes a tag with a text of entry i for every language of a set.
func lang(ls []string, set, i int) string {
	var kv []string
	for j, l := range ls {
		if set>>j&1 == 1 {
			kv = append(kv, fmt.Sprintf("%s=\"T%d %s\"", l, i, l))
		}
	}
	if len(kv) == 0 {
		return ""
	}
	return "[lang: " + strings.Join(kv, "; ") + "]\n"
}

const uiData = "[ui: form=\"true\"; table=\"true\"]\n"
const uiField = " [ui: form=\"text\"; table=\"text\"]\n "

// families are the schemas that are checked.
func families(full bool) (out []schemas.Schema) {
	var family string
	files := func(key string, fs map[string]string) {
		out = append(out, schemas.Schema{Family: family, Key: family + ":" + key, Files: fs})
	}
	one := func(key, text string) { files(key, map[string]string{"a.hbuf": schemas.Head("p") + text}) }

	family = "subsets"
	ls := []string{"en", "zh", "fr"}
	if full {
		ls = append(ls, "de")
	}
	n := 1 << len(ls)
	for i := 0; i < n*n*n; i++ {
		a, b, d := lang(ls, i%n, 0), lang(ls, i/n%n, 1), lang(ls, i/n/n, 2)
		one(fmt.Sprintf("enum %d", i), "[ui: x=\"y\"]\n"+"enum Color {\n "+a+"red = 0\n "+b+"dark_blue = 1\n "+d+"lightGrey = 2\n}\n")
		one(fmt.Sprintf("data %d", i), uiData+"data User {\n"+uiField+a+"string name = 1\n"+uiField+b+"int32? user_age = 2\n"+uiField+d+"bool isOld = 3\n}\n")
	}

	family = "several"
	for i := 0; i < 4*4*4*4; i++ {
		g := func(k int) string { return lang(ls[:2], i>>(2*k)&3, k) }
		text := "[ui: x=\"y\"]\nenum One {\n " + g(0) + "first = 0\n}\n[ui: x=\"y\"]\nenum Two {\n " + g(1) + "first = 0\n}\n" +
			uiData + "data Three {\n" + uiField + g(2) + "One first = 1\n}\n" + uiData + "data Four {\n" + uiField + g(3) + "Two first = 1\n}\n"
		one(fmt.Sprint(i), text)
		files(fmt.Sprintf("%d apart", i), map[string]string{
			"a.hbuf": schemas.Head("p", "b.hbuf") + "[ui: x=\"y\"]\nenum One {\n " + g(0) + "first = 0\n}\n" + uiData + "data Three {\n" + uiField + g(2) + "Two first = 1\n" + uiField + "One second = 2\n}\n",
			"b.hbuf": schemas.Head("p") + "[ui: x=\"y\"]\nenum Two {\n " + g(1) + "first = 0\n}\n" + uiData + "data Four {\n" + uiField + g(3) + "Two first = 1\n}\n",
		})
	}

	family = "tags"
	dataTags := []string{"", "[ui: x=\"y\"]\n", "[ui: form=\"true\"]\n", "[ui: table=\"true\"]\n", uiData, "[ui: form=\"false\"; table=\"true\"]\n", "[ui: form=\"true\"; table=\"no\"]\n", "[lang: en=\"Whole\"; fr=\"Tout\"]\n", "[lang: de=\"Whole\"]\n" + uiData}
	fieldTags := []string{"", "[ui: x=\"y\"]\n", "[ui: form=\"text\"]\n", "[ui: table=\"text\"]\n", "[ui: form=\"\"; table=\"text\"]\n", "[ui: form=\"text\"; table=\"\"]\n", "[ui: form=\"text\"; table=\"text\"]\n", "[ui: form=\"menu\"; table=\"image\"; onlyRead=\"true\"]\n"}
	for i, d := range dataTags {
		for j, f := range fieldTags {
			for k, h := range fieldTags {
				if !full && (j+k)%2 == 1 && i%2 == 1 {
					continue
				}
				one(fmt.Sprintf("%d %d %d", i, j, k), d+"data User {\n "+f+" [lang: en=\"A\"]\n string? first = 1\n "+h+" [lang: zh=\"B\"]\n string? second = 2\n}\n")
			}
		}
		for k, e := range []string{"", "first = 0\n", "[lang: en=\"A\"]\n first = 0\n [lang: zh=\"B\"]\n second = 1\n"} {
			one(fmt.Sprintf("enum %d %d", i, k), d+"enum Color {\n "+e+"}\n"+uiData+"data User {\n"+uiField+" Color? a = 1\n}\n")
		}
	}

	family = "names"
	all := append([]string{}, schemas.Names...)
	all = append(all, "userNameOfTheHouse", "USER_NAME", "User_Name", "user__name", "userID", "HTTPCode", "x", "X", "xY", "Xy", "XY", "x_y", "x_Y", "name1", "name_1", "n1a", "a1B2", "_under", "under_", "éa", "aé", "Ünder", "名字", "a名", "ñandú_ñu")
	for _, nm := range all {
		for k := 0; k < 4; k++ {
			x := []string{"User", "Color", "field", "first"}
			if x[k] == nm || k < 2 && nm == "Object" || k == 2 && nm == "constructor" { // Object hides what node needs; constructor: see P15
				continue
			}
			x[k] = nm
			for t := 0; t < 2; t++ {
				tag := []string{"", "[lang: zh=\"B\"]\n "}[t]
				one(fmt.Sprintf("%d %s %d", k, nm, t), "[ui: x=\"y\"]\nenum "+x[1]+" {\n "+tag+x[3]+" = 0\n other_one = 1\n}\n"+uiData+"data "+x[0]+" {\n"+uiField+tag+x[1]+"? "+x[2]+" = 1\n"+uiField+"string plain_name = 2\n}\n")
			}
		}
	}

	family = "texts"
	texts := []string{`""`, `" "`, `" a "`, `"a"`, `"a\"b"`, `"a'b"`, `"a\\b"`, `"a\\"`, `"\\n"`, `"a\nb"`, `"a\tb"`, `"$a"`, `"${a}"`, `"\\$a"`, `"$"`, `"a$"`, "`raw`", "`ra\"w`", "`ra\\w`", "`ra\\n$x`", "`two\nlines`", `"文 \u00e9 \U0001F600"`, `"\u2028"`, `"\x41\101"`, `"\a\b\f\v"`, `"<b>&amp;</b>"`, `"%s {0} @:x | y"`, `"/* x */ // y"`, `"{{ x }}"`, `"#"`, `"null"`, `"` + strings.Repeat("long ", 50) + `"`}
	for i, a := range texts {
		for j, b := range texts {
			if !full && i != j && (i*7+j)%5 != 0 {
				continue
			}
			one(fmt.Sprintf("%d %d", i, j), "[ui: x=\"y\"]\nenum Color {\n [lang: en="+a+"; zh="+b+"]\n red = 0\n [lang: zh="+a+"]\n blue = 1\n}\n"+uiData+"data User {\n"+uiField+"[lang: en="+b+"; fr="+a+"]\n string? name = 1\n}\n")
		}
	}

	family = "kinds"
	for _, t := range schemas.TypeList([]string{"string"}) {
		for i, f := range schemas.UiForms {
			for j, b := range schemas.UiTables {
				if i > 0 && j > 0 && (i%len(schemas.UiTables) != j || !full && (len(t)+i)%3 != 0) {
					continue
				}
				files(fmt.Sprintf("%s %s %s", t, f, b), schemas.Trio(uiData+"data User {\n [ui: form=\""+f+"\"; table=\""+b+"\"]\n [lang: zh=\"B\"]\n "+t+" the_field = 1\n}\n"))
			}
		}
	}

	family = "inherit"
	base := []string{"", uiField, uiField + "[lang: en=\"Base\"; fr=\"B\"]\n", " [ui: form=\"text\"]\n [lang: zh=\"Base\"]\n", " [lang: zh=\"Base\"]\n"}
	for i, b := range base {
		for j, o := range append([]string{"-"}, base...) {
			for k, d := range []string{"", "[ui: form=\"true\"]\n", uiData} {
				for l, e := range []string{"", uiData} {
					own := ""
					if o != "-" {
						own = o + " string first = 1\n"
					}
					x := e + "data Base {\n" + b + " string first = 1\n}\n"
					y := "data Middle : Base = 1 {\n" + uiField + "[lang: de=\"M\"]\n string? middle = 2\n}\n" + d + "data User : Middle = 1 {\n" + own + uiField + " string? last = 3\n}\n"
					key := fmt.Sprintf("%d %d %d %d", i, j, k, l)
					one(key, x+y)
					files(key+" apart", map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + y, "b.hbuf": schemas.Head("q") + x})
				}
			}
		}
	}

	family = "languages"
	for _, a := range []string{"en", "zh", "zhCN", "zh_CN", "zhHant", "x", "default", "class", "in", "is", "e", "fil", "pt_BR", "new", "this", "name"} {
		for _, b := range []string{"", "en", "zh", "fr"} {
			if a == b {
				continue
			}
			tag := "[lang: " + a + "=\"A\""
			if b != "" {
				tag += "; " + b + "=\"B\""
			}
			one(a+" "+b, "[ui: x=\"y\"]\nenum Color {\n "+tag+"]\n red = 0\n blue = 1\n}\n"+uiData+"data User {\n"+uiField+tag+"]\n string? name = 1\n}\n")
		}
	}
	return
}
