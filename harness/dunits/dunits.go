// Package dunits enumerates schemas of data types: every type shape, pairs of them, names and inheritance.
package dunits

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"verif/harness/schemas"
	"verif/harness/sem"
)

// Unit is a schema with many data types.
type Unit struct {
	Group string // default group of its types
	Files map[string]string
	Names map[string]string // data name -> group
}

func keysOf() (ok, bad []string) {
	for _, k := range schemas.MapKeys {
		switch k {
		case "bool", "date":
			bad = append(bad, k)
		default:
			ok = append(ok, k)
		}
	}
	return
}

// Redeclared names, for Of, the types that declare an inherited field again with another type.
const Redeclared = "redeclared with another type"

// clash are the bases which have a field that is declared with another type.
var clash = map[string][]string{" int64? the_fa = 1\n": {"La", "Lb", "Lc", "Le2"}, " Od? x = 1\n": {"Od"}, " string y = 1\n date? firstB2 = 2\n": {"Lb", "Le2"}}

// Of lists the schemas; some names of fields can be left out.
func Of(full bool, without ...string) (us []Unit) {
	ok, bad := keysOf()
	// every type shape alone
	add := func(group string, decls []string, names map[string]string) {
		us = append(us, Unit{group, schemas.Trio(strings.Join(decls, "")), names})
	}
	chunk := func(group string, decl []string, keys []string) {
		const n = 150
		for i := 0; i < len(decl); i += n {
			j := i + n
			if j > len(decl) {
				j = len(decl)
			}
			names := map[string]string{}
			var ds []string
			for k := i; k < j; k++ {
				nm := fmt.Sprintf("D%d", k)
				names[nm] = group + " " + keys[k]
				ds = append(ds, strings.Replace(decl[k], "@", nm, 1))
			}
			add(group, ds, names)
		}
	}
	var decl, keys []string
	for _, t := range schemas.TypeList(ok) {
		decl = append(decl, "data @ {\n "+t+" some_field = 1\n}\n")
		keys = append(keys, t)
	}
	chunk("type", decl, keys)
	decl, keys = nil, nil
	for _, k := range bad {
		decl = append(decl, "data @ {\n int32<"+k+"> some_field = 1\n}\n")
		keys = append(keys, "int32<"+k+">")
	}
	chunk("type", decl, keys)
	// pairs of types
	var ts []string
	for _, b := range []string{"int32", "int64", "string", "bool", "date", "decimal", "double", "Ld", "Le", "Od", "Se"} {
		for _, s := range []string{"%", "%?", "%[]", "%?[]?", "%<string>?", "%?<int64>"} {
			ts = append(ts, strings.Replace(s, "%", b, 1))
		}
	}
	if full {
		ts = schemas.TypeList([]string{"string", "int64"})
	}
	decl, keys = nil, nil
	for i, a := range ts {
		for j, b := range ts {
			if !full && j < i || full && (i+j)%7 != 0 {
				continue
			}
			decl = append(decl, "data @ {\n "+a+" first = 1\n "+b+" second = 2\n}\n")
			keys = append(keys, a+" "+b)
		}
	}
	if !full {
		// a third of the pairs in the quick tier: every pair of shapes and every pair of bases still occurs
		var d, k []string
		for i := range decl {
			if i%3 == 0 {
				d, k = append(d, decl[i]), append(k, keys[i])
			}
		}
		decl, keys = d, k
	}
	chunk("pair", decl, keys)
	// names of fields
	decl, keys = nil, nil
	fns := append(append([]string{}, schemas.Names...), "a2b", "x_1", "é", "a名", "aé", "abC_dE", "userID2", "X", "xY", "x_y_z", "aBC")
	sort.Strings(fns)
	fns = slices.DeleteFunc(fns, func(n string) bool { return slices.Contains(without, n) })
	for i, n := range fns {
		if i > 0 && fns[i-1] == n {
			continue
		}
		if _, ok := sem.Under(n); !ok {
			continue
		}
		for _, t := range []string{"int32?", "string", "Ld[]"} {
			decl = append(decl, "data @ {\n "+t+" "+n+" = 1\n int64? zz9 = 2\n}\n")
			keys = append(keys, t+" "+n)
		}
	}
	if !slices.Contains(without, "名字") {
		decl, keys = append(decl, "data @ {\n string 名字 = 1\n}\n"), append(keys, "caseless")
	}
	chunk("name", decl, keys)
	decl, keys = nil, nil
	for _, a := range fns {
		if _, ok := sem.Under(a); !ok {
			continue
		}
		for _, b := range []string{"id", "userId", "user_name", "URL"} {
			ua, _ := sem.Under(a)
			if ub, _ := sem.Under(b); ua == ub || sem.Hump(a) == sem.Hump(b) {
				continue
			}
			decl = append(decl, "data @ {\n int32? "+a+" = 1\n string "+b+" = 2\n}\n")
			keys = append(keys, a+" "+b)
		}
	}
	chunk("names", decl, keys)
	inherit(full, slices.Contains(without, Redeclared), add)
	return
}

// inherit: bases from this file, another file of the package and other packages, themselves with bases; own fields that
// hide inherited ones with the same or another type.
func inherit(full, same bool, add func(string, []string, map[string]string)) {
	var b strings.Builder
	b.WriteString("data La {\n int32 the_fa = 1\n string? both = 2\n}\ndata Lb : La = 1 {\n string? firstB2 = 1\n Ld? inner = 2\n}\ndata Lc : La = 1 {\n int64[] FCount = 1\n}\ndata Le2 : Lb = 1, Lc = 2 {\n}\ndata Lz {\n}\n")
	names := map[string]string{}
	bases := []string{"La", "Lb", "Lc", "Le2", "Lz", "Od", "Sd"}
	owns := []string{"", " int32 own_field = 1\n", " string? ownField = 1\n Ld[] more = 2\n", " int32 the_fa = 1\n", " int64? the_fa = 1\n", " string? both = 1\n bool own = 2\n", " Od? x = 1\n", " string y = 1\n date? firstB2 = 2\n"}
	n := 0
	max := 2
	if full {
		max = 3
	}
	var rec func(sel []string)
	rec = func(sel []string) {
		var e []string
		for i, s := range sel {
			e = append(e, fmt.Sprintf("%s = %d", s, i+1))
		}
		ext := ""
		if len(e) > 0 {
			ext = " : " + strings.Join(e, ", ")
		}
		for _, o := range owns {
			if same && slices.ContainsFunc(clash[o], func(b string) bool { return slices.Contains(sel, b) }) {
				continue
			}
			nm := fmt.Sprintf("X%d", n)
			n++
			names[nm] = "inherit " + strings.Join(sel, ",") + " {" + strings.ReplaceAll(o, "\n", ";") + "}"
			fmt.Fprintf(&b, "data %s%s {\n%s}\n", nm, ext, o)
			if n%5 == 0 {
				use := fmt.Sprintf("Y%d", n)
				names[use] = "use of " + names[nm]
				fmt.Fprintf(&b, "data %s : %s = 1 {\n %s? self = 1\n %s[] list = 2\n}\n", use, nm, nm, nm)
			}
		}
		if len(sel) == max {
			return
		}
	next:
		for _, s := range bases {
			for _, t := range sel {
				if s == t {
					continue next
				}
			}
			rec(append(append([]string{}, sel...), s))
		}
	}
	rec(nil)
	add("inherit", []string{b.String()}, names)
}
