// P10: generated enums agree with the schema in every language. Enums over alphabets of names and numbers are generated
// for every target, compiled and run; constants, numbers, names and the lists of values are compared with the schema.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/javarun"
	"verif/harness/schemas"
	"verif/harness/sem"
)

func main() {
	guard.Main("P10", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

type item struct {
	Name  string
	Value int64
}

type enum struct {
	Key, Group, Unit, Name string
	Items                  []item
	text                   string
}

// lits are spellings of numbers.
var lits = append(append([]string{}, schemas.Nums...), "2", "3", "007", "0xFF", "0XAB", "0B11", "0O7", "0x7fffffff", "1_0", "00", "0_1", "2147483646", "65536")

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func list(full bool) (es []*enum) {
	seen := map[string]bool{}
	add := func(group string, name string, pre string, ns []string, nums []string, tag string) {
		e := &enum{Group: group, Name: name, Items: []item{}}
		used, vals := map[string]bool{}, map[int64]bool{}
		t := ""
		for i, n := range ns {
			v, err := sem.Number(nums[i])
			if err != nil || v > 2147483647 || used[norm(n)] || vals[v] || norm(n) == "" {
				return
			}
			used[norm(n)], vals[v] = true, true
			e.Items = append(e.Items, item{n, v})
			t += " " + strings.ReplaceAll(tag, "@", n) + n + " = " + nums[i] + "\n"
		}
		if seen[name+pre+t] {
			return
		}
		seen[name+pre+t] = true
		if e.Name == "" {
			e.Name = fmt.Sprintf("E%d", len(es))
		}
		e.text = pre + "enum " + e.Name + " {\n" + t + "}\n"
		es = append(es, e)
	}
	var names []string
	for _, n := range append(append([]string{}, schemas.Names...), "a2b", "x_1", "abC_dE", "userID2", "X", "xY", "x_y_z", "aBC", "é", "aé", "Éa", "a__b", "a_", "a1", "A1b2C3") {
		if n != "values" { // a known finding of P08
			names = append(names, n)
		}
	}
	add("empty", "", "", nil, nil, "")
	for _, n := range names {
		for i, l := range lits {
			add("one item "+n, "", "", []string{n}, []string{l}, "")
			if i < 3 {
				add("two items "+n, "", "", []string{n, "other_item"}, []string{l, "77"}, "")
				add("two items "+n, "", "", []string{"OtherItem", n}, []string{"77", l}, "")
			}
		}
	}
	small := []string{"red", "GREEN", "darkBlue", "light_grey", "x", "HTTPCode"}
	snum := []string{"0", "1", "0x10", "017", "2147483647", "2"}
	if full {
		small = append(small, "Up_Down", "A1", "a2b")
		snum = append(snum, "0b101", "1_000", "9")
	}
	depth := 3
	var rec func(ns, nums []string)
	rec = func(ns, nums []string) {
		if len(ns) > 1 {
			add(fmt.Sprintf("%d items", len(ns)), "", "", append([]string{}, ns...), append([]string{}, nums...), "")
		}
		if len(ns) == depth {
			return
		}
		for _, n := range small {
			for j, l := range snum {
				if len(ns) == 2 && !full && j > 2 {
					continue
				}
				rec(append(append([]string{}, ns...), n), append(append([]string{}, nums...), l))
			}
		}
	}
	rec(nil, nil)
	// many items, tags and comments
	var ns, nu []string
	for i := 0; i < 200; i++ {
		ns = append(ns, fmt.Sprintf("item_%d", i))
		nu = append(nu, fmt.Sprint((i*37)%200))
		switch len(ns) {
		case 4, 5, 16, 17, 64, 65, 200:
			add("many items", "", "", append([]string{}, ns...), append([]string{}, nu...), "")
		}
	}
	for _, d := range append([]string{""}, schemas.DocTexts...) {
		for _, pre := range []string{"", "[ui: x=\"1\"]\n", "[lang: en=\"X\"; zh=\"文\"]\n"} {
			for _, tag := range []string{"", "[lang: en=\"@ text\"]\n ", "[format: null=\"true\"; min=\"1\"]\n ", "[ui: form=\"x\"]\n "} {
				add("tags", "", d+pre, []string{"red", "darkBlue", "x"}, []string{"3", "0", "1"}, d+tag)
			}
		}
	}
	return
}

func run(c *ev.Check) {
	es := list(c.Thorough())
	// names of enums, which are to be alone
	const per = 250
	units := map[string]map[string]string{}
	var order []string
	unit := func(text string) string {
		u := fmt.Sprintf("u%d", len(order))
		order = append(order, u)
		units[u] = map[string]string{"a.hbuf": strings.ReplaceAll(schemas.Head("p"), "com.p", "com."+u) + text}
		return u
	}
	for i := 0; i < len(es); i += per {
		t := ""
		for _, e := range es[i:min(i+per, len(es))] {
			e.Unit = fmt.Sprintf("u%d", len(order))
			t += e.text
		}
		unit(t)
	}
	for _, n := range schemas.Names {
		if _, ok := sem.Under(n); !ok || n == "String" || n == "Object" { // known findings of P20 and P15
			continue
		}
		e := &enum{Group: "enum " + n, Name: n, Items: []item{{"red", 0}, {"darkBlue", 4}}, text: "enum " + n + " {\n red = 0\n darkBlue = 4\n}\n"}
		e.Unit = unit(e.text)
		es = append(es, e)
	}
	text := map[string]string{}
	byClass := map[string]*enum{}
	for _, e := range es {
		e.Key = e.Unit + " " + e.Name
		text[e.Group] = e.text
		byClass["com."+e.Unit+".AEnum$"+sem.Hump(e.Name)] = e
	}
	gen := func(u, target, pack string) map[string]string {
		r := hb.Run(units[u], "*.hbuf", target, pack)
		if r.Err != nil || r.Panic != "" {
			c.Violate(u, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(units[u]))
			return nil
		}
		return r.Out
	}
	var wg sync.WaitGroup
	for _, f := range []func(){
		func() { // Go
			p := &gorun.Prog{Driver: "p10", Model: map[string]any{"Enums": es}}
			for _, u := range order {
				p.Units = append(p.Units, gorun.Unit{Dir: "gen/" + u, Files: gen(u, "go", "gen/gen/"+u+"/")})
			}
			for _, e := range es {
				pk := p.Import("gen/gen/" + e.Unit + "/p")
				n := sem.Hump(e.Name)
				x := fmt.Sprintf("drv.Enum{%s.%sValues, %s.%s(0), map[string]int64{", pk, n, pk, n)
				for _, it := range e.Items {
					x += fmt.Sprintf("%q: int64(%s.%s%s), ", it.Name, pk, n, sem.Hump(it.Name))
				}
				p.Reg(e.Key, x+"}}")
			}
			p.Run(c, 2, func(k string) string { return text[k] })
		},
		func() { // TypeScript
			files := map[string]map[string]string{}
			for _, u := range order {
				files[u] = gen(u, "ts", "")
			}
			m := map[string]any{"Files": files}
			var l []*enum
			for _, e := range es {
				x := *e
				x.Name = sem.Hump(e.Name)
				l = append(l, &x)
			}
			m["Enums"] = l
			js, err := json.Marshal(m)
			if err != nil {
				c.Fatal("%v", err)
			}
			dir := hb.Scratch()
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "model.json")
			if err := os.WriteFile(name, js, 0644); err != nil {
				c.Fatal("%v", err)
			}
			cmd := exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts/p10.js"), name)
			gorun.Follow(c, cmd, func(k string) string { return text[k] })
		},
		func() { // Java
			var us []javarun.Unit
			for _, u := range order {
				us = append(us, javarun.Unit{Key: u, Files: gen(u, "java", "")})
			}
			var mu sync.Mutex
			got := map[string]string{}
			javarun.Run(c, us, 3, func(f *javarun.Facts) {
				mu.Lock()
				defer mu.Unlock()
				c.Trace(1)
				for _, e := range f.Errors {
					n, _, _ := strings.Cut(e, ":")
					if x := byClass[n]; x != nil {
						c.Violate(x.Group, "Java "+e+"\n"+x.text)
					} else {
						c.Violate("java "+f.Key, "Java "+e+"\n"+hb.Text(units[f.Key]))
					}
				}
				for _, l := range f.Of["items"] {
					n, rest, _ := strings.Cut(l, " ")
					got[n] = norm(rest)
				}
			})
			for n, e := range byClass {
				c.State("java " + e.Key)
				c.Step(len(e.Items) * len(e.Items))
				want := ""
				for _, it := range e.Items {
					want += fmt.Sprintf(" %s=%d", norm(it.Name), it.Value)
				}
				if g, ok := got[n]; (!ok || g != strings.TrimSpace(want)) && !c.Stop() {
					c.Violate(e.Group, fmt.Sprintf("Java %s: the values are %q, not %q\n%s", n, g, want, e.text))
				}
			}
		},
	} {
		wg.Add(1)
		go func(f func()) { defer wg.Done(); f() }(f)
	}
	wg.Wait()
	for _, e := range es {
		c.Outcome(strings.Fields(e.Group)[0] + " " + fmt.Sprint(len(e.Items)))
	}
	c.Sample(es[len(es)/2].text)
	c.Sample(es[len(es)/3].text)
}
