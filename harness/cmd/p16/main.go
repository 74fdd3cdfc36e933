// P16: generated TypeScript data survives its JSON form and copies independently. The schemas of P09 are generated as
// TypeScript and run under node; every assignment of boundary values goes through toJson, fromJson and clone.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/dunits"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

func main() {
	guard.Main("P16", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

type model struct {
	World *dmodel.World
	Files map[string]map[string]string
	Where map[string][3]string
}

func run(c *ev.Check) {
	us := dunits.Of(c.Thorough(), "constructor") // no name of a field in TypeScript, see P15
	p := &model{dmodel.New(), map[string]map[string]string{}, map[string][3]string{}}
	text := map[string]string{}
	for i, u := range us {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "ts", "")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			continue
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Files[dir] = r.Out
		err = p.World.Add(dir, m, func(key string, x *sem.Ref) {
			kind := ""
			switch x.Kind {
			case hb.Data:
				kind = "data"
				d := p.World.Data[key]
				d.Group = u.Group + " " + x.Name
				if n, ok := u.Names[x.Name]; ok {
					d.Group = n
				}
				f := hb.File{Name: x.File, Decls: []hb.Decl{*x.Decl}}
				text[d.Group] = f.Render()
			case hb.Enum:
				kind = "enum"
			default:
				return
			}
			p.Where[key] = [3]string{dir, strings.TrimSuffix(x.File, ".hbuf") + "." + kind + ".ts", sem.Hump(x.Name)}
		})
		if err != nil {
			c.Fatal("%s: %v", u.Group, err)
		}
	}
	js, err := json.Marshal(p)
	if err != nil {
		c.Fatal("%v", err)
	}
	dir := hb.Scratch()
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "model.json")
	if err := os.WriteFile(name, js, 0644); err != nil {
		c.Fatal("%v", err)
	}
	const shards = 8
	hb.Parallel(shards, c.Stop, func(i int) {
		cmd := exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts/p16.js"), name, c.Tier, fmt.Sprint(i), fmt.Sprint(shards))
		gorun.Follow(c, cmd, func(k string) string { return text[k] })
	})
}
