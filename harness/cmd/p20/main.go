// P20: generated Java is well formed and faithful. Every schema of the enumerated families is compiled by the real
// compiler and its Java output by javac; the classes are loaded, described by reflection and exercised, and what they
// declare and do is compared with what the schema says.
package main

import (
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/javarun"
	"verif/harness/schemas"
	"verif/harness/sem"
)

func main() {
	guard.Main("P20", func(c *ev.Check, g *guard.Guard) { run(c, g) }, func(kind byte, data string) {})
}

func run(c *ev.Check, g *guard.Guard) {
	var ss []schemas.Schema
	for _, s := range schemas.Of(c.Thorough()) {
		switch s.Family {
		case "verify", "db", "dbfields", "lang", "ui": // Java knows none of these tags
			if !c.Thorough() && len(ss)%10 != 0 && len(s.Key)%17 != 0 {
				continue
			}
		}
		ss = append(ss, s)
	}
	units := make([]javarun.Unit, len(ss))
	want := make([]map[string][]string, len(ss))
	g.Par(c)("schemas", len(ss), func(w, i int) {
		s := ss[i]
		g.Slots[w].Begin(0, s.Key)
		defer g.Slots[w].End()
		r := hb.Run(s.Files, "*.hbuf", "java", "")
		c.Step(1)
		if r.Err != nil || r.Panic != "" {
			c.Violate(s.Key, fmt.Sprintf("%s: %s\n%s", s.Key, r.Brief(), hb.Text(s.Files)))
			return
		}
		m, err := sem.Load(s.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		want[i] = expect(m)
		units[i] = javarun.Unit{Key: strconv.Itoa(i), Files: r.Out}
	})
	var us []javarun.Unit
	for _, u := range units {
		if u.Key != "" && want[atoi(u.Key)] != nil {
			us = append(us, u)
		}
	}
	var mu sync.Mutex
	javarun.Run(c, us, 8, func(f *javarun.Facts) {
		mu.Lock()
		defer mu.Unlock()
		i := atoi(f.Key)
		key := ss[i].Key
		c.Step(1)
		c.Trace(1)
		c.State(key)
		c.Outcome(ss[i].Family)
		if i%1999 == 0 {
			c.Sample(key)
		}
		for _, l := range f.Of["moves"] {
			n, _ := strconv.Atoi(l[strings.LastIndex(l, " ")+1:])
			c.Step(n)
		}
		p := f.Errors
		if len(p) == 0 {
			p = compare(want[i], f.Of)
		}
		if len(p) > 0 {
			c.Violate(key, fmt.Sprintf("%s: generated Java:\n%s\n%s%s", key, strings.Join(p, "\n"), hb.Text(ss[i].Files), hb.Text(units[i].Files)))
		}
	})
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

var boxed = map[string]string{"int8": "java.lang.Byte", "int16": "java.lang.Short", "int32": "java.lang.Integer", "int64": "java.lang.Long", "uint8": "java.lang.Character", "uint16": "java.lang.Integer",
	"uint32": "java.lang.Long", "uint64": "java.math.BigInteger", "bool": "java.lang.Boolean", "float": "java.lang.Float", "double": "java.lang.Double", "string": "java.lang.String", "date": "java.util.Date", "decimal": "java.math.BigDecimal"}

// class names the class of a declaration: <package>.<File><Kind>$<Name>
func class(m *sem.Model, r *sem.Ref) string {
	kind := []string{"Data", "Enum", "Server"}[r.Kind]
	return m.Package(r.File, "java") + "." + javaFile(path.Base(r.File)) + kind + "$" + sem.Hump(r.Name)
}

func name(m *sem.Model, file, n string) string {
	if b, ok := boxed[n]; ok {
		return b
	}
	if r := m.Resolve(file, n); r != nil {
		return class(m, r)
	}
	return "?" + n
}

func typ(m *sem.Model, file string, t hb.Type) string {
	v := name(m, file, t.Name)
	switch t.Kind {
	case hb.Array:
		return "java.util.List<" + v + ">"
	case hb.Map:
		return "java.util.Map<" + name(m, file, t.Key) + ", " + v + ">"
	}
	return v
}

// expect says what the classes of a schema are to be; nil when a file has no package for Java.
func expect(m *sem.Model) map[string][]string {
	w := map[string][]string{}
	add := func(kind, format string, a ...interface{}) { w[kind] = append(w[kind], fmt.Sprintf(format, a...)) }
	for _, fn := range m.Names() {
		if m.Package(fn, "java") == "" {
			return nil
		}
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			n := class(m, r)
			var ext []string
			for _, e := range r.Exts {
				ext = append(ext, name(m, fn, e.Name))
			}
			switch r.Kind {
			case hb.Data:
				add("data", "%s extends %s", n, list(append(ext, "com.hbuf.java.Data")))
				for _, x := range r.Fields {
					add("accessor", "%s get%s() %s", n, norm(x.Name), typ(m, fn, x.Type))
					add("accessor", "%s set%s(%s) void", n, norm(x.Name), typ(m, fn, x.Type))
				}
				for _, x := range m.Fields(r) {
					add("member", "%s %s %s", n, norm(x.Name), typ(m, x.File, x.Type))
				}
			case hb.Enum:
				add("enum", "%s", n)
				s := n
				for _, x := range r.Items {
					v, err := sem.Number(x.Id)
					if err != nil {
						v = -1
					}
					s += fmt.Sprintf(" %s=%d", norm(x.Name), v)
				}
				if len(r.Items) == 0 {
					s += " "
				}
				add("items", "%s", s)
			case hb.Server:
				add("server", "%s extends %s", n, list(ext))
				for _, x := range r.Methods {
					add("method", "%s %s", n, signature(m, fn, x))
				}
				if u, ok := sem.Under(r.Name); ok {
					add("name", "%s %s", n, u)
				} else {
					add("name", "%s ?", n)
				}
				for _, x := range m.Methods(r) {
					route := "?"
					us, ok := sem.Under(r.Name)
					um, ok2 := sem.Under(x.Name)
					if ok && ok2 {
						route = us + "/" + um
					}
					id, _ := sem.Number(x.Id)
					reads := "nothing"
					if x.Result.Name != "void" {
						reads = typ(m, x.File, x.Result) + "Impl"
					}
					add("call", "%s %s sends the data as %s %d reads %s", n, signature(m, x.File, x.Method), route, id, reads)
				}
			}
		}
	}
	for _, l := range w {
		sort.Strings(l)
	}
	return w
}

func signature(m *sem.Model, file string, x hb.Method) string {
	res := "java.lang.Void"
	if x.Result.Name != "void" {
		res = typ(m, file, x.Result)
	}
	return fmt.Sprintf("%s(%s, com.hbuf.java.Server$Context) java.util.concurrent.CompletableFuture<%s>", norm(x.Name), typ(m, file, x.Param), res)
}

func list(s []string) string {
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// names of members are compared without case and underscores
func flat(kind, l string) string {
	p := strings.SplitN(l, " ", 3)
	switch kind {
	case "accessor", "method", "call":
		n, rest, _ := strings.Cut(p[1], "(")
		p[1] = norm(n) + "(" + rest
	case "member":
		p[1] = norm(p[1])
	case "items":
		for i, x := range strings.Split(strings.Join(p[1:], " "), " ") {
			if i == 0 {
				p = p[:1]
			}
			p = append(p, norm(x))
		}
	}
	return strings.Join(p, " ")
}

func compare(want, got map[string][]string) (out []string) {
	for _, k := range []string{"data", "accessor", "member", "enum", "items", "server", "method", "name", "call"} {
		var g []string
		for _, l := range got[k] {
			g = append(g, flat(k, l))
		}
		sort.Strings(g)
		w := want[k]
		for i := 0; i < len(w) || i < len(g); i++ {
			a, b := "nothing more", "nothing more"
			if i < len(w) {
				a = w[i]
			}
			if i < len(g) {
				b = g[i]
			}
			if a != b && !undefined(a, b) {
				out = append(out, fmt.Sprintf("%s: want %s\n      got %s", k, a, b))
				break
			}
		}
	}
	// every data type is implemented, every server has a client
	for kind, of := range map[string][2]string{"impl": {"data", "Impl"}, "client": {"server", "Client"}} {
		for _, d := range got[of[0]] {
			n, _, _ := strings.Cut(d, " ")
			ok := false
			for _, l := range got[kind] {
				c, i, _ := strings.Cut(l, " implements ")
				ok = ok || c == n+of[1] && strings.Contains(", "+i+",", ", "+n+",")
			}
			if !ok {
				out = append(out, "nothing implements "+n)
			}
		}
	}
	return
}

// undefined says whether two lines differ only where the schema leaves the name of a server or a route open.
func undefined(want, got string) bool {
	w, g := strings.Split(want, " "), strings.Split(got, " ")
	if len(w) != len(g) {
		return false
	}
	for i := range w {
		if w[i] != g[i] && w[i] != "?" {
			return false
		}
	}
	return true
}

// javaFile is what the names of the interfaces of a file begin with: its name as an identifier.
func javaFile(name string) string {
	s := ""
	for i, r := range sem.Hump(strings.TrimSuffix(name, ".hbuf")) {
		if i == 0 && unicode.IsDigit(r) {
			s += "_"
		}
		if unicode.IsLetter(r) || unicode.IsDigit(r) || r == '$' {
			s += string(r)
		} else {
			s += "_"
		}
	}
	return s
}
