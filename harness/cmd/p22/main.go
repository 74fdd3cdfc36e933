// P22: generated TypeScript validation agrees with generated Go validation. The schemas of P12 are generated for both;
// the Go code judges every boundary value of every field, then the TypeScript validators judge the same values.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/rules"
	"verif/harness/sem"
)

type model struct {
	*dmodel.World
	Verify map[string][]rules.Field
	Whole  map[string]bool
}

type tsModel struct {
	World  *dmodel.World
	Files  map[string]map[string]string
	Where  map[string][3]string
	Verify map[string][]rules.Field
}

func main() {
	guard.Main("P22", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

func run(c *ev.Check) {
	p := &gorun.Prog{Driver: "p22"}
	w := dmodel.New()
	mo := &model{World: w, Verify: map[string][]rules.Field{}, Whole: map[string]bool{}}
	ts := &tsModel{w, map[string]map[string]string{}, map[string][3]string{}, mo.Verify}
	text := map[string]string{}
	n := 0
	for i, u := range rules.Units(c.Thorough()) {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "go", "gen/"+dir+"/")
		t := hb.Run(u.Files, "*.hbuf", "ts", "")
		for _, x := range []*hb.Result{r, t} {
			if x.Err != nil || x.Panic != "" {
				c.Violate(u.Group, "the schema is rejected: "+x.Brief()+"\n"+hb.Text(u.Files))
				return
			}
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
		ts.Files[dir] = t.Out
		err = w.Add(dir, m, func(key string, x *sem.Ref) {
			at := p.Import("gen/" + dir + "/" + m.Package(x.File, "go"))
			kind := "data"
			switch x.Kind {
			case hb.Data:
				p.Reg(key, "func() any { return new("+at+"."+sem.Hump(x.Name)+") }")
				w.Data[key].Group = u.Group + " " + x.Name
				text[w.Data[key].Group] = hb.Text(u.Files)
				fs, err := rules.Of(m, x)
				if err != nil {
					c.Fatal("%v", err)
				}
				mo.Verify[key] = fs
				n += len(fs)
			case hb.Enum:
				kind = "enum"
				p.Reg(key, at+"."+sem.Hump(x.Name)+"(0)")
			}
			ts.Where[key] = [3]string{dir, strings.TrimSuffix(x.File, ".hbuf") + "." + kind + ".ts", sem.Hump(x.Name)}
		})
		if err != nil {
			c.Fatal("%v", err)
		}
	}
	c.Extra["fields with rules"] = n
	p.Model = mo
	bin, dir, cerr := p.Build(c)
	defer os.RemoveAll(dir)
	if cerr != "" {
		c.Violate("generated code does not compile", "the generated Go code does not compile:\n"+cerr)
		return
	}
	js, err := json.Marshal(ts)
	if err != nil {
		c.Fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "ts.json"), js, 0644); err != nil {
		c.Fatal("%v", err)
	}
	describe := func(k string) string {
		t := text[k]
		if len(t) > 6000 {
			i := strings.LastIndex(k, " ")
			if j := strings.Index(t, "data "+k[i+1:]+" "); j > 0 {
				t = t[j:]
			}
			if len(t) > 3000 {
				t = t[:3000] + "..."
			}
		}
		return t
	}
	const shards = 8
	hb.Parallel(shards, c.Stop, func(i int) {
		name := filepath.Join(dir, fmt.Sprintf("verdicts%d", i))
		f, err := os.Create(name)
		if err != nil {
			c.Fatal("%v", err)
		}
		cmd := exec.Command(bin, filepath.Join(dir, "model.json"), c.Tier, fmt.Sprint(i), fmt.Sprint(shards))
		cmd.Stdout, cmd.Stderr = f, os.Stderr
		if err := cmd.Run(); err != nil || f.Close() != nil {
			c.Fatal("the verdicts of the Go code cannot be taken: %v", err)
		}
		node := exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts/p22.js"), filepath.Join(dir, "ts.json"), name)
		gorun.Follow(c, node, describe)
	})
}
