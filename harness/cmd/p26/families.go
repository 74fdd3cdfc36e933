package main

import (
	"fmt"
	"strings"

	"verif/harness/schemas"
	"verif/harness/sem"
)

type unit struct {
	group string
	files map[string]string
}

const enums = "[ui: form=\"true\"]\nenum Color {\n [lang: en=\"Deep red\"]\n red = 0\n dark_blue = 1\n [lang: en=\"Gray, light\"]\n lightGrey = 7\n}\nenum Size {\n big = 3\n very_small = 9\n}\n"

func ui(kv ...string) string { return " [ui: " + strings.Join(kv, "; ") + "]\n" }

func data(name, fields string) string {
	return "[ui: form=\"true\"; table=\"true\"]\ndata " + name + " {\n" + fields + "}\n"
}

// hides are names of types that hide those of the libraries, for which P19 has findings.
var hides = map[string]bool{"Map": true, "Set": true, "String": true, "List": true, "Object": true, "Type": true, "Context": true, "Client": true, "Data": true}

var forms = []string{"text", "file", "date", "click", "menu", "switch", "image"}

// units are the schemas whose forms are checked.
func units(full bool) (out []unit) {
	one := func(group, text string) {
		out = append(out, unit{group, map[string]string{"a.hbuf": schemas.Head("p") + text}})
	}
	two := func(group, a, b string) {
		out = append(out, unit{group, map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + a, "b.hbuf": schemas.Head("q") + b}})
	}
	shapes := func(b string) []string { return []string{b, b + "?", b + "[]", b + "[]?", b + "?[]", b + "?[]?"} }
	scope := func(form, t string) bool {
		b := strings.TrimRight(t, "?[]")
		list := strings.Contains(t, "[]")
		switch form {
		case "file":
			return b == "string" && !list
		case "date":
			return (b == "string" || b == "date") && !list
		case "menu":
			return (b == "Color" || b == "Size") && !list
		case "switch":
			return b == "bool" && !list
		case "image":
			return b == "string" && !strings.Contains(t, "?[]")
		}
		return b != "Color" || !list || form == "click" // a text of an item has a comma
	}
	bases := append(append([]string{}, schemas.Base...), "Color", "Size")

	// all kinds of controls and cells for every type
	for _, b := range bases {
		for _, t := range shapes(b) {
			for _, f := range forms {
				if !scope(f, t) {
					continue
				}
				for _, r := range []string{"", "true", "false"} {
					for j, x := range []string{"", "text", "image", "click"} {
						if x == "image" && b != "string" || !full && j != 1 && (r != "" || f != "text") {
							continue
						}
						tag := []string{fmt.Sprintf("form=%q", f)}
						if x != "" {
							tag = append(tag, fmt.Sprintf("table=%q", x))
						}
						if r != "" {
							tag = append(tag, fmt.Sprintf("onlyRead=%q", r))
						}
						fs := ui(tag...) + " " + t + " the_field = 1\n" + ui("form=\"text\"", "table=\"text\"") + " string? other = 2\n"
						g := fmt.Sprintf("type %s %s", t, strings.Join(tag, " "))
						if (b == "Color" || b == "Size") && len(g)%2 == 0 {
							two(g, data("User", fs), enums)
						} else {
							one(g, enums+data("User", fs))
						}
					}
				}
			}
		}
	}

	// digits and formats
	for _, t := range []string{"float", "double", "decimal", "float?", "double?", "decimal?", "float[]", "decimal?[]", "int32", "int64?"} {
		for _, d := range []string{"0", "1", "2", "5", "12"} {
			tag := fmt.Sprintf("form=\"text\"; table=\"text\"; digit=%q", d)
			one("digit "+t+" "+d, data("User", ui(tag)+" "+t+" the_field = 1\n"+ui("form=\"text\"; table=\"text\"")+" "+t+" other = 2\n"))
		}
	}
	for _, t := range []string{"date", "date?", "date[]", "date?[]?"} {
		for _, d := range []string{"", "yyyy-MM-dd", "yyyy/MM/dd", "yyyy-MM-dd HH:mm", "yyyy/MM/dd HH:mm:ss"} {
			for _, f := range []string{"text", "date"} {
				if f == "date" && strings.Contains(t, "[]") {
					continue
				}
				tag := fmt.Sprintf("form=%q; table=%q; format=%q", f, "text", d)
				one("format "+t+" "+tag, data("User", ui(tag)+" "+t+" the_field = 1\n"+ui("form=\"text\"; table=\"text\"")+" "+t+" other = 2\n"))
			}
		}
		for _, d := range []string{"yyyy", "HH:mm", "dd. MM. yyyy"} {
			tag := fmt.Sprintf("form=\"click\"; table=\"text\"; format=%q", d)
			one("format "+t+" "+tag, data("User", ui(tag)+" "+t+" the_field = 1\n"))
		}
	}

	// the rest of the attributes
	for i, a := range []string{"maxLine=\"3\"", "maxCount=\"4\"", "clip=\"true\"", "clip=\"false\"", "width=\"20\"", "height=\"30.5\"", "width=\"1\"; height=\"2\"", "extensions=\"png\"", "extensions=\"png\",\"jpg\"", "index=\"5\"", "index=\"1\"", "index=\"-3\"", "digit=\"1\"; maxLine=\"2\""} {
		for _, f := range []string{"text", "image", "file", "click"} {
			fs := ui("form=\""+f+"\"", "table=\"text\"", a) + " string the_field = 1\n" + ui("form=\"image\"", "table=\"text\"") + " string? second = 2\n" + ui("table=\"text\"", "form=\"text\"") + " string third = 3\n"
			one(fmt.Sprintf("attribute %d %s", i, f), data("User", fs))
		}
	}

	// which forms and tables there are
	for _, d := range []string{"", ui("x=\"y\""), ui("form=\"true\""), ui("table=\"true\""), ui("form=\"true\"", "table=\"true\""), ui("form=\"false\"", "table=\"true\""), ui("form=\"true\"", "table=\"no\""), ui("form=\"\"")} {
		for i, f := range []string{"", ui("x=\"y\""), ui("form=\"text\""), ui("table=\"text\""), ui("form=\"text\"", "table=\"text\""), ui("form=\"\"", "table=\"text\""), ui("form=\"text\"", "table=\"\"")} {
			for j, h := range []string{"", ui("x=\"y\""), ui("form=\"menu\""), ui("table=\"click\""), ui("form=\"click\"", "table=\"switch\"")} {
				one(fmt.Sprintf("which %q %d %d", d, i, j), enums+d+"data User {\n"+f+" string? first = 1\n"+h+" Color? second = 2\n"+f+" int32 third = 3\n}\n"+data("Other", f+" bool b = 1\n"))
			}
		}
	}

	// inherited fields, in one and in two files
	base := []string{"", ui("form=\"text\""), ui("table=\"text\""), ui("form=\"click\"", "table=\"text\"", "onlyRead=\"true\"")}
	for i, b := range base {
		for j, o := range append([]string{"-"}, base...) {
			for k, m := range base {
				own := ""
				if o != "-" {
					own = o + " string first = 1\n"
				}
				x := "data Base {\n" + b + " string first = 1\n" + ui("form=\"menu\"", "table=\"text\"") + " Color? color = 2\n}\n" + enums
				y := "data Middle : Base = 1 {\n" + m + " int64? middle = 2\n}\n" + data("User : Middle = 1", own+ui("form=\"text\"")+" uint64? last = 3\n")
				one(fmt.Sprintf("inherit %d %d %d", i, j, k), x+y)
				two(fmt.Sprintf("inherit %d %d %d apart", i, j, k), y, x)
			}
		}
	}

	// names
	for _, n := range append(schemas.Names, "info", "read_only", "sizes", "padding", "build", "builder", "list", "select", "on_select", "tables", "item", "x", "y", "val", "element") {
		for k := 0; k < 4; k++ {
			x := []string{"User", "Color", "the_field", "red"}
			if x[k] == n || k < 2 && hides[sem.Hump(n)] {
				continue
			}
			if _, ok := sem.Under(n); k == 2 && !ok { // no determined name in JSON, which is none of this property's
				continue
			}
			x[k] = n
			text := "[ui: form=\"true\"]\nenum " + x[1] + " {\n " + x[3] + " = 0\n other_one = 1\n}\n"
			var b strings.Builder
			for i, f := range []string{"menu", "click", "text"} {
				name := x[2]
				if i > 0 {
					name = fmt.Sprintf("extra_%d", i)
				}
				fmt.Fprintf(&b, "%s %s %s = %d\n", ui("form=\""+f+"\"", "table=\"text\""), x[1], name, i+1)
			}
			one(fmt.Sprintf("name %d %s", k, n), text+data(x[0], b.String()))
		}
	}

	// rules of fields
	rules := "enum V {\n [format: reg=\"^a$\"]\n one = 0\n [format: reg=\"^b$\"; null=\"true\"]\n two = 1\n [format: min=\"3\"; max=\"5\"]\n num = 2\n [format: min=\"2000-01-01T00:00:00Z\"]\n day = 3\n [format: null=\"true\"]\n any = 4\n [format: min=\"3\"]\n least = 5\n [format: null=\"false\"]\n set = 6\n}\n"
	tags := map[string][]string{
		"string": {"V.one", "V.two", "V.two V.one"}, "date": {"V.day", "V.any"}, "bool": {"V.any", "V.set"}, "Color": {"V.any", "V.set"}, "int32": {"V.num", "V.any V.num"}, "uint64": {"V.num", "V.least", "V.any"}, "int64": {"V.least"}, "decimal": {"V.num"}, "double": {"V.num"},
	}
	for _, b := range []string{"string", "date", "bool", "Color", "int32", "int64", "uint64", "decimal", "double"} {
		for _, t := range []string{b, b + "?"} {
			for _, f := range forms {
				if !scope(f, t) {
					continue
				}
				for _, v := range tags[b] {
					var l []string
					for _, r := range strings.Fields(v) {
						l = append(l, fmt.Sprintf("%q", r))
					}
					fs := ui("form=\""+f+"\"", "table=\"text\"", "digit=\"3\"") + " [verify: format=" + strings.Join(l, ",") + "]\n " + t + " the_field = 1\n"
					one(fmt.Sprintf("rules %s %s %s", t, f, v), rules+enums+data("User", fs))
					one(fmt.Sprintf("rules %s %s %s read only", t, f, v), rules+enums+data("User", strings.Replace(fs, "digit=", "onlyRead=\"true\"; digit=", 1)))
					two(fmt.Sprintf("rules %s %s %s apart", t, f, v), data("User : Base = 1", ui("form=\"text\"")+" string last = 3\n"), rules+enums+"data Base {\n"+fs+"}\n")
				}
			}
		}
	}

	// what is shown and in which order
	for n := 0; n <= 3; n++ {
		fs := ""
		for i := 0; i < n; i++ {
			fs += ui("form=\"text\"", "table=\"text\"") + fmt.Sprintf(" string %s = %d\n", []string{"zz_one", "b_two", "a_three"}[i], i+1)
		}
		one(fmt.Sprintf("order %d", n), data("User", fs))
	}
	return
}
