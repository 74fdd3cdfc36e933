// Package sunits enumerates schemas of servers.
package sunits

import (
	"fmt"
	"slices"
	"strings"

	"verif/harness/schemas"
	"verif/harness/sem"
)

const base = "server Ba {\n Ld ma(Ld req) = 1\n void na(Ld req) = 2\n}\nserver Bb : Ba = 1 {\n Sd mb(Sd req) = 1\n}\nserver Bc : Ba = 1, Osv = 2 {\n void na(Ld other) = 1\n}\nserver Bd {\n Ld ma(Ld req) = 7\n}\nserver Lsv {\n Ld local_call(Ld req) = 1\n}\n"

func files(x string) map[string]string {
	return map[string]string{
		"a.hbuf": schemas.Head("p", "b.hbuf", "c.hbuf", "d.hbuf") + "data Ld {\n bool? z = 1\n string text = 2\n int64[]? nums = 3\n}\nenum Le {\n up = 0\n}\n" + base + x,
		"b.hbuf": schemas.Head("q", "d.hbuf") + "data Od {\n int32 x = 1\n Rd? sub = 2\n}\nserver Osv : Rsv = 1 {\n Od far(Od req) = 1\n void farVoid(Od req) = 2\n}\n",
		"c.hbuf": schemas.Head("p") + "data Sd {\n string y = 1\n}\nserver Ssv {\n void sister_call(Sd some) = 1\n}\n",
		"d.hbuf": schemas.Head("r") + "data Rd {\n int32 i = 1\n}\nserver Rsv {\n Rd root(Rd req) = 1\n void self(Rd me) = 2\n}\n",
	}
}

// Of lists schemas of servers: every inheritance shape, signature and name; some names can be left out.
func Of(full bool, without ...string) (us []map[string]string) {
	ds := []string{"Ld", "Od", "Sd"}
	bases := []string{"Lsv", "Osv", "Ssv", "Rsv", "Ba", "Bb", "Bc", "Bd"}
	tags := []string{"", " [tag: auth=\"a\"]\n", " [tag: auth=\"a\",\"b\"; role=\"x\"]\n", " // doc\n [tag: z=\"\"; a=\"1\"]\n", " [tag: a=`x\"y\\d`; b=\"q\\\"\\\\z\\n\"; c=\"é\",``]\n"}
	bodies := []string{""}
	n := 0
	for _, p := range ds {
		for _, r := range append([]string{"void"}, ds...) {
			t := tags[n%len(tags)]
			n++
			bodies = append(bodies, t+" "+r+" do_it("+p+" req) = 1\n", t+" "+r+" do_it("+p+" query) = 1\n void Other("+p+" q) = 2\n"+t+" Ld third(Ld Req) = 3\n")
		}
	}
	// bases without root: Rsv is imported by a.hbuf as well
	max := 2
	if full {
		max = 3
	}
	var decls []string
	var rec func(sel []string)
	k := 0
	rec = func(sel []string) {
		ext := ""
		for i, s := range sel {
			sep := " : "
			if i > 0 {
				sep = ", "
			}
			ext += fmt.Sprintf("%s%s = %d", sep, s, i+1)
		}
		bs := bodies
		if len(sel) == 2 && !full {
			bs = []string{bodies[k%len(bodies)], " Ld ma(Ld again) = 1\n", " void na(Ld req) = 4\n Sd mb(Sd req) = 5\n"}
		} else if len(sel) == 3 {
			bs = []string{bodies[k%len(bodies)]}
		}
		for _, b := range bs {
			k++
			// after redeclares nothing, before is inherited by it
			d := fmt.Sprintf("server Srv%s%s {\n%s}\n", letters(k), ext, b)
			if k%4 == 0 {
				d += fmt.Sprintf("server After%s : Srv%s = 1 {\n Ld more(Ld req) = 1\n}\n", letters(k), letters(k))
			}
			decls = append(decls, d)
		}
		if len(sel) == max {
			return
		}
	next:
		for _, s := range bases {
			for _, t := range sel {
				if s == t {
					continue next
				}
			}
			rec(append(append([]string{}, sel...), s))
		}
	}
	rec(nil)
	const per = 60
	for i := 0; i < len(decls); i += per {
		j := i + per
		if j > len(decls) {
			j = len(decls)
		}
		us = append(us, files(strings.Join(decls[i:j], "")))
	}
	// three bases that share methods
	var three []string
	head := ""
	for i := 0; i < 6; i++ {
		b := ""
		if i%3 != 2 {
			b += " Ld shared_m(Ld req) = 1\n"
		}
		if i%3 != 0 {
			b += " void shared_n(Ld req) = 2\n"
		}
		head += fmt.Sprintf("server Three%s {\n%s}\n", letters(i), b)
	}
	for i := 0; i < 216; i++ {
		a, b, c := i/36, i/6%6, i%6
		if a == b || b == c || a == c || !full && (a+b+c)%2 == 0 {
			continue
		}
		own := ""
		if i%5 == 0 {
			own = " void shared_n(Ld req) = 9\n"
		}
		three = append(three, fmt.Sprintf("server Sum%s : Three%s = 1, Three%s = 2, Three%s = 3 {\n%s}\n", letters(i), letters(a), letters(b), letters(c), own))
	}
	for i := 0; i < len(three); i += per {
		us = append(us, files(head+strings.Join(three[i:min(i+per, len(three))], "")))
	}
	// bound methods
	x := "enum V {\n [format: null=\"false\"]\n bad = 1\n}\n"
	i := 0
	for _, where := range []string{"Lsv.local_call", "Osv.far", "Osv.farVoid", "Ssv.sister_call", "Ba.ma", "Ba.na", "Bb.mb"} {
		q := map[string]string{"Lsv.local_call": "Ld", "Osv.far": "Od", "Osv.farVoid": "Od", "Ssv.sister_call": "Sd", "Ba.ma": "Ld", "Ba.na": "Ld", "Bb.mb": "Sd"}[where]
		void := where == "Osv.farVoid" || where == "Ssv.sister_call" || where == "Ba.na"
		for _, ver := range []string{"", "[verify: format=\"V.bad\"]\n"} {
			f := ""
			if ver != "" {
				f = " [verify: format=\"V.bad\"]\n"
			}
			w := fmt.Sprintf("Wrap%s", letters(i))
			x += fmt.Sprintf("%sdata %s : %s = 1 {\n%s int32? extra = 1\n}\n", ver, w, q, f)
			for _, res := range []string{w, q, "void"} {
				if void != (res == "void") {
					continue
				}
				for _, par := range []string{w, q} {
					i++
					x += fmt.Sprintf("server Fwd%s {\n [bind: value=\"%s\"]\n %s forward(%s req) = 1\n Ld own(Ld req) = 2\n}\n", letters(i), where, res, par)
				}
			}
		}
	}
	us = append(us, files(x))
	// names of servers and methods
	var done []bool
	names := slices.DeleteFunc(slices.Clone(schemas.Names), func(n string) bool { return slices.Contains(without, n) })
	done = make([]bool, len(names))
	for {
		seen := map[string]bool{"Ld": true, "Le": true, "Ba": true, "Bb": true, "Bc": true, "Bd": true, "Lsv": true, "ba": true, "bb": true, "bc": true, "bd": true, "lsv": true, "Od": true, "Sd": true, "Rd": true, "Osv": true, "Ssv": true, "Rsv": true}
		x := ""
		left := false
		for i, n := range names {
			u, ok := sem.Under(n)
			if done[i] || !ok {
				continue
			}
			h := sem.Hump(n)
			gen := false
			switch strings.ToLower(h) {
			case "default", "client", "router", "get", "new":
				gen = true
			}
			if seen[h] || seen[strings.ToLower(h)] || seen[u] || gen && seen["<gen>"] {
				left = true
				continue
			}
			seen[h], seen[strings.ToLower(h)], seen[u] = true, true, true
			done[i] = true
			seen["<gen>"] = seen["<gen>"] || gen
			b := ""
			ms := map[string]bool{"Init": true, "GetName": true, "GetId": true}
			for j, k := range names {
				if !full && (i+j)%8 != 0 {
					continue
				}
				if u, ok := sem.Under(k); ok && !ms[sem.Hump(k)] && !ms[u] && !strings.EqualFold(k, "init") {
					ms[sem.Hump(k)], ms[u] = true, true
					if j%2 == 0 {
						b += fmt.Sprintf(" Ld %s(Ld req) = %d\n", k, j+1)
					} else {
						b += fmt.Sprintf(" void %s(Ld req) = %d\n", k, j+1)
					}
				}
			}
			if strings.EqualFold(n, "init") {
				continue
			}
			x += fmt.Sprintf("server %s {\n%s}\n", n, b)
		}
		if x == "" {
			break
		}
		us = append(us, files(x))
		if !left {
			break
		}
	}
	return
}

func letters(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		n /= 26
		if n == 0 {
			return s
		}
	}
}
