// P04: every small schema is accepted exactly when the reference rules say so, and a rejection points at a culprit.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/ref"
)

type job struct {
	Space string
	Files []hb.File
}

func main() {
	guard.Main("P04", body, func(kind byte, data string) {
		var fs map[string]string
		if json.Unmarshal([]byte(data), &fs) != nil {
			os.Exit(3)
		}
		for _, t := range append([]string{"none"}, hb.Targets...) {
			if r := hb.Run(fs, "*.hbuf", t, ""); r.Panic != "" {
				panic(r.Panic)
			}
		}
	})
}

func lines(f *hb.File, i int) (int, int) {
	g := *f
	g.Decls = f.Decls[:i]
	a := strings.Count(g.Render(), "\n") + 1
	g.Decls = f.Decls[:i+1]
	return a, strings.Count(g.Render(), "\n")
}

func body(c *ev.Check, g *guard.Guard) {
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	par := g.Par(c)
	js := jobs(c.Thorough())
	var mu sync.Mutex
	rules := map[string]int{}
	spaces := map[string]int{}
	acc, rej, amb := 0, 0, 0
	par("schemas", len(js), func(w, i int) {
		j := js[i]
		bads, ambiguous := ref.Check(j.Files)
		if ambiguous {
			mu.Lock()
			amb++
			mu.Unlock()
			return
		}
		files := map[string]string{}
		for k := range j.Files {
			files[j.Files[k].Name] = j.Files[k].Render()
		}
		b, _ := json.Marshal(files)
		g.Slots[w].Begin('S', string(b))
		bad := ""
		for _, t := range []string{"none", hb.Targets[i%4]} {
			d := hb.Scratch()
			hb.WriteTree(filepath.Join(d, "in"), files)
			r := hb.RunIn(d, "*.hbuf", t, "")
			_ = os.RemoveAll(d)
			switch {
			case r.Panic != "":
				bad = "the compiler crashes: " + r.Panic
			case r.Err == nil && len(bads) > 0:
				bad = fmt.Sprintf("a schema that breaks a rule is accepted (%v)", bads)
			case r.Err != nil && len(bads) == 0:
				bad = "a well-formed schema is rejected (target " + t + "): " + r.Err.Error()
			case r.Err != nil && len(r.Out) > 0:
				bad = fmt.Sprintf("a rejected schema leaves %d output files (target %s): %v", len(r.Out), t, r.Err)
			case r.Err != nil:
				file, line, _, ok := hb.ErrPos(r.Err)
				hit := false
				for _, x := range bads {
					for k := range j.Files {
						f := &j.Files[k]
						if f.Name != x.File || filepath.Base(file) != f.Name {
							continue
						}
						lo, hi := lines(f, x.Decl)
						if line >= lo && line <= hi {
							hit = true
						}
					}
				}
				if !ok || !hit {
					bad = fmt.Sprintf("the error names no position that breaks a rule: %v; broken: %v", r.Err, bads)
				}
			}
			if bad != "" {
				break
			}
		}
		g.Slots[w].End()
		if bad != "" {
			c.Violate(j.Space+":"+hb.Text(files), bad+"\n"+hb.Text(files))
		}
		var rs []string
		seen := map[string]bool{}
		for _, x := range bads {
			if !seen[x.Rule] {
				seen[x.Rule] = true
				rs = append(rs, x.Rule)
			}
		}
		sort.Strings(rs)
		mu.Lock()
		for _, r := range rs {
			rules[r]++
		}
		spaces[j.Space]++
		if len(bads) > 0 {
			rej++
		} else {
			acc++
		}
		mu.Unlock()
		c.Step(2)
		c.Trace(2)
		c.State(hb.Text(files))
	})
	c.Extra["accepted"] = acc
	c.Extra["rejected"] = rej
	c.Extra["skipped_ambiguous_imports"] = amb
	c.Extra["rules_broken"] = rules
	c.Extra["spaces"] = spaces
	c.Sample(hb.ModelText(js[len(js)/3].Files))
	c.Sample(hb.ModelText(js[len(js)-1].Files))
	c.Assumptions = []string{"a name visible through two imports is left open by the rules and not judged", "a 'void?' result is not judged"}
}
