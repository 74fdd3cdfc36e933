package main

import (
	"fmt"
	"strings"

	"verif/harness/schemas"
	"verif/harness/sem"
)

type unit struct {
	group string
	files map[string]string
}

const enums = "[ui: form=\"true\"]\nenum Color {\n red = 0\n dark_blue = 1\n lightGrey = 7\n}\n[ui: form=\"true\"]\nenum Size {\n big = 3\n}\n"

func ui(kv ...string) string { return " [ui: " + strings.Join(kv, "; ") + "]\n" }

func data(name, fields string) string {
	return "[ui: form=\"true\"; table=\"true\"]\ndata " + name + " {\n" + fields + "}\n"
}

// units are the schemas whose forms are checked.
func units(full bool) (out []unit) {
	one := func(group, text string) {
		out = append(out, unit{group, map[string]string{"a.hbuf": schemas.Head("p") + text}})
	}
	trio := func(group, text string) { out = append(out, unit{group, schemas.Trio(text)}) }
	keys := []string{"string"}
	if full {
		keys = []string{"string", "int32", "int64", "Le"}
	}

	// all kinds of controls and cells for every type, side by side
	for _, t := range schemas.TypeList(keys) {
		var b strings.Builder
		n := 0
		add := func(kv ...string) {
			n++
			fmt.Fprintf(&b, "%s %s field_%d = %d\n", ui(kv...), t, n, n)
		}
		for _, f := range schemas.UiForms {
			for _, r := range []string{"", "true", "false"} {
				kv := []string{fmt.Sprintf("form=%q", f)}
				if r != "" {
					kv = append(kv, fmt.Sprintf("onlyRead=%q", r))
				}
				add(kv...)
			}
		}
		for _, f := range schemas.UiTables {
			add(fmt.Sprintf("table=%q", f))
		}
		trio("type "+t, data("User", b.String()))
		for _, f := range schemas.UiForms {
			for j, r := range []string{"", "; onlyRead=\"true\""} {
				for k, x := range schemas.UiTables {
					if !full && (j != 0 || k != len(f)%len(schemas.UiTables) || strings.ContainsAny(t, "[<")) {
						continue
					}
					tag := fmt.Sprintf("form=%q; table=%q%s", f, x, r)
					trio("type "+t+" "+tag, data("User", ui(tag)+" "+t+" the_field = 1\n"+ui("form=\"text\"; table=\"text\"")+" string other = 2\n"))
				}
			}
		}
	}

	// digits and formats
	for _, t := range []string{"float", "double", "decimal", "float?", "double?", "decimal?", "int32", "int64?"} {
		for _, d := range []string{"0", "1", "2", "5", "12"} {
			for _, f := range []string{"text", "input", "pass"} {
				tag := fmt.Sprintf("form=%q; table=%q; digit=%q", f, "text", d)
				one("digit "+t+" "+tag, data("User", ui(tag)+" "+t+" the_field = 1\n"+ui("form=\"text\"; table=\"text\"")+" "+t+" other = 2\n"))
			}
		}
	}
	for _, t := range []string{"date", "date?"} {
		for _, d := range []string{"", "yyyy", "yyyy-MM-dd", "HH:mm", "yyyy/MM/dd HH:mm:ss", "'x' dd"} {
			for _, f := range []string{"text", "input", "pass", "date"} {
				tag := fmt.Sprintf("form=%q; table=%q; format=%q; width=%q", f, "text", d, "80")
				one("format "+t+" "+tag, data("User", ui(tag)+" "+t+" the_field = 1\n"+ui("form=\"text\"; table=\"text\"; width=\"99.5\"")+" "+t+" other = 2\n"))
			}
		}
	}

	// which forms and tables there are
	for _, d := range []string{"", ui("x=\"y\""), ui("form=\"true\""), ui("table=\"true\""), ui("form=\"true\"", "table=\"true\""), ui("form=\"false\"", "table=\"true\""), ui("form=\"true\"", "table=\"no\""), ui("form=\"\"")} {
		for i, f := range []string{"", ui("x=\"y\""), ui("form=\"text\""), ui("table=\"text\""), ui("form=\"text\"", "table=\"text\""), ui("form=\"\"", "table=\"text\""), ui("form=\"text\"", "table=\"\"")} {
			for j, h := range []string{"", ui("x=\"y\""), ui("form=\"menu\""), ui("table=\"image\""), ui("form=\"switch\"", "table=\"switch\"")} {
				one(fmt.Sprintf("which %q %d %d", d, i, j), enums+d+"data User {\n"+f+" string? first = 1\n"+h+" Color? second = 2\n"+f+" int32 third = 3\n}\n"+data("Other", f+" bool b = 1\n"))
			}
		}
	}

	// inherited fields, in one and in two files
	base := []string{"", ui("form=\"text\""), ui("table=\"text\""), ui("form=\"pass\"", "table=\"text\"", "onlyRead=\"true\"")}
	for i, b := range base {
		for j, o := range append([]string{"-"}, base...) {
			for k, m := range base {
				own := ""
				if o != "-" {
					own = o + " string first = 1\n"
				}
				x := "data Base {\n" + b + " string first = 1\n" + ui("form=\"menu\"", "table=\"text\"") + " Color? color = 2\n}\n" + enums
				y := "data Middle : Base = 1 {\n" + m + " int64? middle = 2\n}\n" + data("User : Middle = 1", own+ui("form=\"text\"")+" uint64? last = 3\n")
				one(fmt.Sprintf("inherit %d %d %d", i, j, k), x+y)
				out = append(out, unit{fmt.Sprintf("inherit %d %d %d apart", i, j, k), map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + y, "b.hbuf": schemas.Head("q") + x}})
			}
		}
	}

	// names
	for _, n := range schemas.Names {
		for k := 0; k < 4; k++ {
			x := []string{"User", "Color", "the_field", "red"}
			if x[k] == n || n == "constructor" || k < 2 && n == "Object" { // see P21
				continue
			}
			if _, ok := sem.Under(n); k == 2 && !ok { // no determined name in JSON, which is none of this property's
				continue
			}
			x[k] = n
			text := "[ui: form=\"true\"]\nenum " + x[1] + " {\n " + x[3] + " = 0\n other_one = 1\n}\n"
			var b strings.Builder
			for i, f := range []string{"menu", "radio", "radioButton", "text"} {
				name := x[2]
				if i > 0 {
					name = fmt.Sprintf("extra_%d", i)
				}
				fmt.Fprintf(&b, "%s %s %s = %d\n", ui("form=\""+f+"\"", "table=\"text\""), x[1], name, i+1)
			}
			one(fmt.Sprintf("name %d %s", k, n), text+data(x[0], b.String()))
		}
	}

	// rules of fields
	rules := "[verify: x=\"y\"]\nenum V {\n [format: reg=\"^a$\"]\n one = 0\n [format: reg=\"^b$\"; null=\"true\"]\n two = 1\n [format: min=\"3\"; max=\"5\"]\n num = 2\n}\n"
	tags := []string{"", " [verify: format=\"V.one\"]\n", " [verify: format=\"V.two\"]\n", " [verify: format=\"V.one\",\"V.two\"]\n"}
	for i, a := range tags {
		for j, b := range tags {
			for k, f := range []string{"text", "pass", "image"} {
				fs := ui("form=\""+f+"\"") + a + " string? first = 1\n" + ui("form=\"text\"") + b + " string second_one = 2\n" + " [verify: format=\"V.num\"]\n" + ui("form=\""+f+"\"") + " int32? third = 3\n"
				one(fmt.Sprintf("rules %d %d %d", i, j, k), rules+data("User", fs))
				out = append(out, unit{fmt.Sprintf("rules %d %d %d apart", i, j, k), map[string]string{
					"a.hbuf": schemas.Head("p", "b.hbuf") + data("User : Base = 1", ui("form=\"text\"")+b+" string last = 3\n"),
					"b.hbuf": schemas.Head("p") + rules + "data Base {\n" + fs + "}\n",
				}})
			}
		}
	}

	// what is shown and in which order
	for n := 0; n <= 3; n++ {
		fs := ""
		for i := 0; i < n; i++ {
			fs += ui("form=\"text\"", "table=\"text\"") + fmt.Sprintf(" string %s = %d\n", []string{"zz_one", "b_two", "a_three"}[i], i+1)
		}
		one(fmt.Sprintf("order %d", n), data("User", fs))
	}
	return
}
