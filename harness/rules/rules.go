// Package rules enumerates schemas with validation rules and says what the rules are (shared by P12 and P22).
package rules

import (
	"fmt"
	"strings"

	"verif/harness/hb"
	"verif/harness/schemas"
	"verif/harness/sem"
)

// Rule is one declared rule of a field.
type Rule struct {
	Code          int64
	Msg           string
	Null          bool
	Reg, Min, Max string
	File, Enum    string // that declares it
}

// Field is a field that names rules.
type Field struct {
	Field string
	Owner string
	Rules []Rule
}

// Unit is a schema.
type Unit struct {
	Group string
	Files map[string]string
}

// Of lists the fields of a type that name rules.
func Of(m *sem.Model, r *sem.Ref) (out []Field, err error) {
	for _, f := range m.Fields(r) {
		t := sem.Tag(f.Tags, "verify")
		if t == nil {
			continue
		}
		x := Field{Field: f.Name, Owner: f.File + ":" + f.Owner, Rules: []Rule{}}
		for _, kv := range t.KV {
			if kv.K != "format" {
				continue
			}
			for _, v := range kv.V {
				at := strings.Split(sem.Unquote(v), ".")
				e := m.Resolve(f.File, at[0])
				if e == nil || e.Kind != hb.Enum {
					return nil, fmt.Errorf("%s.%s: no enum %s", r.Name, f.Name, at[0])
				}
				var it *hb.Item
				for i := range e.Items {
					if e.Items[i].Name == at[1] {
						it = &e.Items[i]
					}
				}
				if it == nil {
					return nil, fmt.Errorf("%s.%s: no item %v", r.Name, f.Name, at)
				}
				ft := sem.Tag(it.Tags, "format")
				if ft == nil {
					continue
				}
				n, err := sem.Number(it.Id)
				if err != nil {
					return nil, err
				}
				one := func(k string) string {
					if v, ok := sem.Get(ft, k); ok && len(v) > 0 {
						return v[0]
					}
					return ""
				}
				x.Rules = append(x.Rules, Rule{n, sem.Hump(it.Name), one("null") == "true", one("reg"), one("min"), one("max"), e.File, e.Name})
			}
		}
		out = append(out, x)
	}
	return
}

type bounds struct{ lo, hi, mid string }

// the numbers rules are made of
var numbers = map[string]bounds{
	"int8": {"-128", "127", "5"}, "int16": {"-32768", "32767", "-7"}, "int32": {"-2147483648", "2147483647", "10"}, "int64": {"-9223372036854775808", "9223372036854775807", "9007199254740993"},
	"uint8": {"0", "255", "200"}, "uint16": {"0", "65535", "300"}, "uint32": {"0", "4294967295", "3000000000"}, "uint64": {"0", "18446744073709551615", "9007199254740993"},
	"float": {"-1.5", "1000000", "0.25"}, "double": {"-1.5", "1e15", "0.1"}, "decimal": {"-12345678901234567890.123456789", "12345678901234567890.000000001", "0.1"},
	"date": {"1970-01-01T00:00:00Z", "2038-01-19T03:14:08Z", "2023-11-14T22:13:20Z"}, "string": {"0", "3", "2"},
}

// Patterns as they are written in a schema.
var Patterns = []string{"\"^[a-z]+$\"", "\"\\\\d\"", "`^\\d+$`", "`^[^\"]*$`", "\"a|b\"", "\"^.$\"", "\"é\"", "`\\\\$`", "\"^(a|1){2}$\"", "\"^$\"", "\"\\\\.\"", "\"b\""}

// tags writes the rules of a type: every pattern and pair of bounds with every null setting.
func tags(t string, small bool) (out []string) {
	var conds []string
	if b, ok := numbers[t]; ok {
		conds = []string{"", "min=" + q(b.mid), "max=" + q(b.mid), "min=" + q(b.mid) + "; max=" + q(b.hi)}
		if !small {
			conds = append(conds, "min="+q(b.lo), "max="+q(b.hi), "min="+q(b.lo)+"; max="+q(b.hi), "max="+q(b.mid)+"; min="+q(b.mid), "max="+q(b.mid)+"; min="+q(b.lo))
		}
	} else {
		conds = []string{""}
		if !small {
			conds = append(conds, "min=\"1\"; max=\"2\"")
		}
	}
	if t == "string" {
		ps := Patterns
		if small {
			ps = ps[:3]
		}
		for i, p := range ps {
			conds = append(conds, "reg="+p)
			if !small {
				conds = append(conds, fmt.Sprintf("min=\"%d\"; reg=%s; max=\"%d\"", i%3, p, i%3+1))
			}
		}
	}
	for _, n := range []string{"null=\"true\"", "null=\"false\"", ""} {
		if small && n == "" {
			continue
		}
		for _, c := range conds {
			switch {
			case n == "" && c == "":
				out = append(out, "null=\"no\"")
			case n == "":
				out = append(out, c)
			case c == "":
				out = append(out, n)
			case len(out)%2 == 0:
				out = append(out, n+"; "+c)
			default:
				out = append(out, c+"; "+n)
			}
		}
	}
	return
}

func q(s string) string { return "\"" + s + "\"" }

// enum writes rules as an enum; nums spells the numbers of its items.
func enum(name string, ts []string, num func(i int) string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "enum %s {\n", name)
	for i, t := range ts {
		if t != "" {
			fmt.Fprintf(&b, " [format: %s]\n", t)
		}
		fmt.Fprintf(&b, " %s = %s\n", item(i), num(i))
	}
	b.WriteString("}\n")
	return b.String()
}

func item(i int) string { return fmt.Sprintf("r%d_ule", i) }

// Types that fields with rules have.
func types() (out []string) {
	return append(append([]string{}, schemas.Base...), "Le", "Oe", "Ld", "Od", "int32[]", "string?[]", "string<int32>", "Ld[]", "Le<string>")
}

// Units enumerates schemas.
func Units(full bool) (us []Unit) {
	fields := func(group string, t string, enums string, lists [][]string) {
		const per = 240
		for i := 0; i < len(lists); i += per {
			j := i + per
			if j > len(lists) {
				j = len(lists)
			}
			var b strings.Builder
			b.WriteString(enums)
			n := 0
			for k := i; k < j; k += 3 {
				fmt.Fprintf(&b, "[verify: format=%q]\ndata D%d {\n", lists[k][0], k)
				for x := k; x < k+3 && x < j; x++ {
					n++
					for _, ty := range []string{t, null(t)} {
						fmt.Fprintf(&b, " [verify: format=%s]\n %s f%d = %d\n", strings.Join(quote(lists[x]), ","), ty, n, n)
						n++
					}
					if x%4 == 0 {
						fmt.Fprintf(&b, " %s free%d = %d\n", t, n, n+1)
						n++
					}
				}
				b.WriteString("}\n")
			}
			us = append(us, Unit{fmt.Sprintf("%s %s %d", group, t, i), schemas.Trio(b.String())})
		}
	}
	for ti, t := range types() {
		// every rule alone, pairs of the small rules, items without a rule between them
		ts := append(tags(t, false), "", "")
		num := func(i int) string {
			switch (i + ti) % 4 {
			case 0:
				return fmt.Sprintf("0x%X", i+10)
			case 1:
				return fmt.Sprintf("0%o", i+10)
			}
			return fmt.Sprint(i + 10)
		}
		e := enum("V", ts, num)
		lists := [][]string{}
		for i := range ts {
			lists = append(lists, []string{"V." + item(i)})
		}
		none := "V." + item(len(ts)-1)
		none2 := "V." + item(len(ts)-2)
		fields("rule", t, e, lists)
		sm := append(tags(t, !full), "", "")
		e = enum("V", sm, num)
		lists = nil
		none, none2 = "V."+item(len(sm)-1), "V."+item(len(sm)-2)
		for i := range sm[:len(sm)-2] {
			a := "V." + item(i)
			lists = append(lists, []string{none, a}, []string{none, none2, a}, []string{a, none})
			for j := range sm[:len(sm)-2] {
				b := "V." + item(j)
				lists = append(lists, []string{a, b})
				if !full || (i+j)%5 == 0 {
					lists = append(lists, []string{a, none, b})
				}
			}
		}
		fields("pair", t, e, lists)
		if full || t == "int32" || t == "string" {
			sm = append(tags(t, true), "", "")
			e = enum("V", sm, num)
			lists = nil
			for i := range sm[:len(sm)-2] {
				for j := range sm[:len(sm)-2] {
					for k := range sm[:len(sm)-2] {
						if t == "string" && (i+j+k)%3 != 0 && !full {
							continue
						}
						lists = append(lists, []string{"V." + item(i), "V." + item(j), "V." + item(k)})
					}
				}
			}
			fields("triple", t, e, lists)
		}
	}
	us = append(us, inherit()...)
	us = append(us, places()...)
	return
}

func quote(ss []string) (o []string) {
	for _, s := range ss {
		o = append(o, q(s))
	}
	return
}

func null(t string) string { return t + "?" }

// inherit: rules of inherited and redeclared fields, with enums of the same name in other files.
func inherit() (us []Unit) {
	b := schemas.Head("q", "d.hbuf") + "enum Oe {\n one = 1\n two = 2\n}\ndata Od {\n int32 x = 1\n}\n" +
		"[verify: format=\"V.bad\"]\ndata Base {\n [verify: format=\"V.bad\"]\n int32? num = 1\n [verify: format=\"V.worse\"]\n string text = 2\n int32 free = 3\n}\n" +
		"data Quiet {\n [verify: format=\"V.bad\",\"V.worse\"]\n int32? num = 1\n [verify: format=\"X.bad\"]\n string? far = 2\n}\n" +
		"[verify: format=\"V.bad\"]\ndata Mid : Base = 1 {\n [verify: format=\"V.worse\"]\n string? middle = 1\n}\n"
	d := schemas.Head("r") + "enum X {\n [format: null=\"false\"; reg=\"^x\"]\n bad = 9\n}\nenum V {\n [format: null=\"false\"; min=\"100\"]\n bad = 4\n [format: null=\"true\"; max=\"2\"]\n worse = 5\n}\n"
	a := "enum V {\n [format: null=\"true\"; max=\"7\"]\n bad = 14\n [format: null=\"false\"; min=\"1\"]\n other = 15\n}\n"
	n := 0
	for _, bases := range [][]string{{"Base"}, {"Quiet"}, {"Mid"}, {"Base", "Quiet"}, {"Quiet", "Base"}, {"Mid", "Quiet"}, {"Quiet", "Mid"}, {}} {
		ext := ""
		for i, x := range bases {
			ext += fmt.Sprintf("%s%s = %d", map[bool]string{true: " : ", false: ", "}[i == 0], x, i+1)
		}
		for _, own := range []string{"", " [verify: format=\"V.bad\"]\n int32? own = 1\n", " [verify: format=\"V.other\"]\n int32? num = 1\n", " int32? num = 1\n", " [verify: format=\"V.other\"]\n string? text = 1\n [verify: format=\"V.bad\"]\n int32 free = 2\n", " string text = 1\n string? far = 2\n", " [verify: format=\"V.bad\",\"V.other\"]\n string? middle = 1\n"} {
			for _, tag := range []string{"", "[verify: format=\"V.bad\"]\n"} {
				a += fmt.Sprintf("%sdata D%d%s {\n%s}\n", tag, n, ext, own)
				if n%3 == 0 {
					a += fmt.Sprintf("[verify: format=\"V.other\"]\ndata E%d : D%d = 1 {\n [verify: format=\"V.other\"]\n int64 more = 1\n}\n", n, n)
				}
				n++
			}
		}
	}
	return []Unit{{"inherit", map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf", "c.hbuf") + a, "b.hbuf": b, "c.hbuf": schemas.Head("p") + "enum Se {\n red = 0\n}\ndata Sd {\n string y = 1\n}\n", "d.hbuf": d}}}
}

// places: enums of this file, of a sister file and of another package; names of enums and items; layouts of the tag.
func places() (us []Unit) {
	b := schemas.Head("q") + "enum Oe {\n [format: min=\"2\"]\n one = 1\n [format: null=\"true\"; max=\"5\"]\n two = 2\n}\n"
	c := schemas.Head("p") + "enum se_x {\n [format: null=\"true\"; min=\"3\"]\n red_light = 0\n [format: max=\"6\"]\n blue = 7\n [format: reg=`[0-9]+`; null=\"true\"]\n Y = 9\n plain = 12\n}\n"
	a := "enum Le {\n [format: null=\"false\"]\n up = 0\n [format: min=\"1\"; max=\"8\"]\n downUnder = 3\n}\n"
	all := []string{"Le.up", "Le.downUnder", "Oe.one", "Oe.two", "se_x.red_light", "se_x.blue", "se_x.Y", "se_x.plain"}
	n := 0
	for _, t := range []string{"int32", "string", "int64?", "string?", "decimal?", "uint8"} {
		for _, x := range all {
			for _, y := range all {
				a += fmt.Sprintf("[verify: format=\"%s\"]\ndata D%d {\n [verify: format=\"%s\",\"%s\"]\n %s some_field = 1\n [verify: other=\"x\"; format=\"%s\"]\n %s otherField = 2\n [verify: other=\"x\"]\n %s z = 3\n}\n", x, n, x, y, t, y, t, t)
				n++
			}
		}
	}
	// names that differ only in case, or of which one begins the other
	a += "enum Rc {\n [format: min=\"1\"]\n one = 1\n [format: min=\"2\"]\n oNE = 2\n [format: min=\"3\"]\n onE = 3\n [format: min=\"4\"]\n on = 4\n [format: min=\"5\"]\n ones = 5\n}\n" +
		"enum RC {\n [format: max=\"1\"]\n one = 1\n [format: max=\"2\"]\n oNE = 2\n}\nenum Rcs {\n [format: max=\"3\"]\n one = 1\n}\n"
	for _, x := range []string{"Rc.one", "Rc.oNE", "Rc.onE", "Rc.on", "Rc.ones", "RC.one", "RC.oNE", "Rcs.one"} {
		a += fmt.Sprintf("[verify: format=\"Rc.one\"]\ndata D%d {\n [verify: format=\"%s\"]\n int32 some = 1\n [verify: format=\"%s\"]\n string? other = 2\n [verify: format=\"%s\"]\n string others = 3\n}\n", n, x, x, x)
		n++
	}
	us = append(us, Unit{"places", map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf", "c.hbuf") + a, "b.hbuf": b, "c.hbuf": c}})
	return
}
