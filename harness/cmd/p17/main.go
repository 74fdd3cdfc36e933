// P17: what one target writes every other target reads. The schemas of P09 are generated for Go, TypeScript and Dart; the
// Go code writes every assignment of boundary values, the Dart and the TypeScript code read it and write it again, and
// each reads what the others wrote.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/dunits"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

func main() {
	guard.Main("P17", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

type tsModel struct {
	World *dmodel.World
	Files map[string]map[string]string
	Where map[string][3]string
}

func run(c *ev.Check) {
	us := dunits.Of(c.Thorough(), "constructor") // no name of a field in TypeScript, see P15
	p := &gorun.Prog{Driver: "p17"}
	w := dmodel.New()
	ts := &tsModel{w, map[string]map[string]string{}, map[string][3]string{}}
	text, texts, shaped, groups := map[string]string{}, map[string]string{}, map[string]string{}, map[string]string{}
	for i, u := range us {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "go", "gen/"+dir+"/")
		t := hb.Run(u.Files, "*.hbuf", "ts", "")
		for _, x := range []*hb.Result{r, t} {
			if x.Err != nil || x.Panic != "" {
				c.Violate(u.Group, "the schema is rejected: "+x.Brief()+"\n"+hb.Text(u.Files))
				return
			}
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
		ts.Files[dir] = t.Out
		keys, own := map[string]string{}, map[string]string{}
		err = w.Add(dir, m, func(key string, x *sem.Ref) {
			kind := ""
			switch x.Kind {
			case hb.Data:
				kind = "data"
				d := w.Data[key]
				d.Group = u.Group + " " + x.Name
				if n, ok := u.Names[x.Name]; ok {
					d.Group = n
				}
				f := hb.File{Name: x.File, Decls: []hb.Decl{*x.Decl}}
				text[d.Group] = f.Render()
				texts[key], groups[key] = text[d.Group], d.Group
				keys[x.Name], own[x.Name] = key, text[d.Group]
				p.Reg(key, "func() any { return new("+p.Import("gen/"+dir+"/"+m.Package(x.File, "go"))+"."+sem.Hump(x.Name)+") }")
			case hb.Enum:
				kind = "enum"
				p.Reg(key, p.Import("gen/"+dir+"/"+m.Package(x.File, "go"))+"."+sem.Hump(x.Name)+"(0)")
			default:
				return
			}
			ts.Where[key] = [3]string{dir, strings.TrimSuffix(x.File, ".hbuf") + "." + kind + ".ts", sem.Hump(x.Name)}
		})
		if err != nil {
			c.Fatal("%s: %v", u.Group, err)
		}
		for n, s := range shapes(u.Group, own) {
			shaped[keys[n]] = s
		}
	}
	p.Model = w
	bin, dir, cerr := p.Build(c)
	defer os.RemoveAll(dir)
	if cerr != "" {
		c.Violate("generated code does not compile", "the generated Go code does not compile:\n"+cerr)
		return
	}
	js, err := json.Marshal(ts)
	if err != nil {
		c.Fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "ts.json"), js, 0644); err != nil {
		c.Fatal("%v", err)
	}
	ds := dartCode(c)
	missing := 0
	for _, s := range shaped {
		if _, ok := ds.of[s]; !ok {
			missing++
		}
	}
	c.Logf("%d of %d types are not in Dart", missing, len(shaped))
	describe := func(k string) string { return text[k] }
	const shards = 8
	hb.Parallel(shards, c.Stop, func(i int) {
		at := func(s string) string { return filepath.Join(dir, fmt.Sprint(s, i)) }
		values, results := at("values"), at("results")
		prog := func(args ...string) *exec.Cmd {
			return exec.Command(bin, append([]string{filepath.Join(dir, "model.json"), c.Tier, fmt.Sprint(i), fmt.Sprint(shards)}, args...)...)
		}
		gorun.Follow(c, prog("write", values), describe)
		dartWriter(c, ds, shaped, groups, texts, values, at("dart"))
		gorun.Follow(c, exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts/p17.js"), filepath.Join(dir, "ts.json"), values, at("dart"), results), describe)
		if !c.Stop() {
			dartReader(c, ds, shaped, groups, texts, values, results)
			gorun.Follow(c, prog("read", results), describe)
		}
	})
}
