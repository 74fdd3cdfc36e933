// P18: all targets agree on the route of every remote method. The clients and routers of the servers of P11 are generated
// for every target and run; the routes they use are compared with each other and with what the names of server and method
// say.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/javarun"
	"verif/harness/sem"
	"verif/harness/sunits"
)

func main() {
	guard.Main("P18", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

type server struct {
	Key, Unit, File, Name string
	methods               []sem.Method
	ref                   *sem.Ref
	model                 *sem.Model
	group                 string
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// use is where a target uses a route: client and router
type use struct{ route, more string }

func run(c *ev.Check) {
	// names no method can have in TypeScript and no server in Java, see P15 and P20
	us := sunits.Of(c.Thorough(), "constructor", "name", "new", "String", "data_", "server_", "void_")
	var ss []*server
	byKey := map[string]*server{}
	byClass := map[string]*server{}
	var ju []javarun.Unit
	tsFiles := map[string]map[string]string{}
	p := &gorun.Prog{Driver: "p18"}
	rpc := p.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc")
	var names []string
	for i, files := range us {
		u := fmt.Sprintf("u%d", i)
		out := map[string]map[string]string{}
		for _, t := range []string{"go", "ts", "java"} {
			r := hb.Run(files, "*.hbuf", t, "gen/"+u+"/")
			if r.Err != nil || r.Panic != "" {
				c.Violate(u, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(files))
				return
			}
			out[t] = r.Out
		}
		p.Units = append(p.Units, gorun.Unit{Dir: u, Files: out["go"]})
		tsFiles[u] = out["ts"]
		ju = append(ju, javarun.Unit{Key: u, Files: out["java"]})
		m, err := sem.Load(files)
		if err != nil {
			c.Fatal("%v", err)
		}
		for _, fn := range m.Names() {
			f := m.Files[fn]
			for j := range f.Decls {
				r := &sem.Ref{File: fn, Decl: &f.Decls[j]}
				if r.Kind != hb.Server {
					continue
				}
				base := strings.TrimSuffix(fn, ".hbuf")
				d := hb.File{Name: fn, Decls: []hb.Decl{*r.Decl}}
				s := &server{Key: u + "/" + r.Key(), Unit: u, File: base + ".server.ts", Name: sem.Hump(r.Name), methods: m.Methods(r), ref: r, model: m, group: strings.TrimSpace(d.Render())}
				ss = append(ss, s)
				byKey[s.Key] = s
				names = append(names, s.Key)
				byClass[u+" "+m.Package(fn, "java")+"."+sem.Hump(base)+"Server$"+s.Name] = s
				a := p.Import("gen/" + u + "/" + m.Package(fn, "go"))
				p.Reg(s.Key, fmt.Sprintf("drv.Server{Client: func(c %s.Client) any { return %s.New%sClient(c) }, Router: func() %s.ServerRouter { return %s.New%sRouter(nil) }}", rpc, a, s.Name, rpc, a, s.Name))
			}
		}
	}
	c.Extra["servers"] = len(ss)
	facts := map[string]map[string][]string{} // server -> where -> "method route"
	var mu sync.Mutex
	fact := func(where, key, method, route string) {
		mu.Lock()
		defer mu.Unlock()
		if facts[key] == nil {
			facts[key] = map[string][]string{}
		}
		facts[key][where] = append(facts[key][where], norm(method)+" "+route)
	}
	p.Model = map[string]any{"Servers": names}
	p.Fact = func(f []string) { fact(f[0], f[1], f[2], f[3]) }
	var wg sync.WaitGroup
	for _, f := range []func(){
		func() { p.Run(c, 2, nil) },
		func() {
			var l []*server
			for _, s := range ss {
				l = append(l, s)
			}
			js, err := json.Marshal(map[string]any{"Files": tsFiles, "Servers": l})
			if err != nil {
				c.Fatal("%v", err)
			}
			dir := hb.Scratch()
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "model.json")
			if err := os.WriteFile(name, js, 0644); err != nil {
				c.Fatal("%v", err)
			}
			gorun.FollowFacts(c, exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts/p18.js"), name), nil, func(f []string) {
				fact(f[0], f[1], f[2], f[3])
				if f[0] == "ts client" {
					fact("ts id", f[1], f[2], f[4])
				}
				fact("ts name", f[1], "", f[5])
			})
		},
		func() {
			javarun.Run(c, ju, 3, func(f *javarun.Facts) {
				for _, e := range f.Errors {
					c.Violate("java "+f.Key, "Java: "+e)
				}
				for _, l := range f.Of["call"] {
					w := strings.Fields(l)
					s := byClass[f.Key+" "+w[0]]
					i := strings.Index(l, " as ")
					if s == nil || i < 0 {
						c.Fatal("no server for %q", l)
					}
					method, _, _ := strings.Cut(w[1], "(")
					w = strings.Fields(l[i+4:])
					fact("java client", s.Key, method, w[0])
					fact("java id", s.Key, method, w[1])
				}
			})
		},
	} {
		wg.Add(1)
		go func(f func()) { defer wg.Done(); f() }(f)
	}
	wg.Wait()
	if c.Stop() {
		return
	}
	for _, s := range ss {
		c.State(s.Key)
		if t := judge(c, s, facts[s.Key]); t != "" {
			c.Violate(s.group, s.Key+": "+t+"\n"+s.group)
		}
		c.Outcome(fmt.Sprintf("%d bases, %d methods", len(s.ref.Exts), min(len(s.methods), 6)))
	}
	c.Sample(ss[len(ss)/2].group)
	// different servers of one program do not share routes
	type at struct{ unit, route string }
	owner := map[at]*server{}
	for _, s := range ss {
		for _, l := range facts[s.Key]["go client"] {
			_, r, _ := strings.Cut(l, " ")
			c.Step(1)
			k := at{s.Unit, r}
			if o := owner[k]; o != nil && norm(o.Name) != norm(s.Name) {
				c.Violate(s.group, fmt.Sprintf("the servers %s and %s share the route %s", o.Key, s.Key, r))
			}
			owner[k] = s
		}
	}
}

func judge(c *ev.Check, s *server, f map[string][]string) string {
	routes := map[string]string{} // by method, as the Go client has them
	for _, l := range f["go client"] {
		m, r, _ := strings.Cut(l, " ")
		routes[m] = r
	}
	seen := map[string]string{}
	for _, me := range s.methods {
		n := norm(me.Name)
		r, ok := routes[n]
		if !ok {
			return "the Go client has no method " + me.Name
		}
		if o, ok := seen[r]; ok {
			return fmt.Sprintf("the methods %s and %s share the route %s", o, n, r)
		}
		seen[r] = n
		us, ok := sem.Under(s.ref.Name)
		um, ok2 := sem.Under(me.Name)
		if ok && ok2 && r != us+"/"+um {
			return fmt.Sprintf("the Go client sends %s as %s, not %s/%s", me.Name, r, us, um)
		}
	}
	if len(routes) != len(s.methods) {
		return fmt.Sprintf("the Go client has the methods %v", f["go client"])
	}
	for _, w := range []string{"go router", "ts client", "ts router", "java client"} {
		c.Step(len(s.methods))
		var want []string
		for m, r := range routes {
			if w == "go router" {
				m = "?"
			}
			want = append(want, m+" "+r)
		}
		got := f[w]
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "; ") != strings.Join(want, "; ") {
			return fmt.Sprintf("%s has\n   %s\nbut the Go client\n   %s", w, strings.Join(got, "; "), strings.Join(want, "; "))
		}
	}
	return ""
}
