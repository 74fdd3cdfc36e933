// P24: generated TypeScript forms and tables show the fields and change what is edited. Every schema of the enumerated
// families is compiled, its forms and tables are rendered by node for every boundary value of every field, and every
// control is given every input of a list.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

func main() {
	guard.Main("P24", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

// field is what the ui tag of a field asks for.
type field struct {
	Name, Label string
	Form, Table string
	OnlyRead    bool
	Digit       int
	Format      string
	Width       string
	Rules       []rule
}

// rule is a rule of a field: the item that names the message, its pattern and whether it allows null.
type rule struct {
	Text string
	Reg  string
	Null bool
}

type form struct {
	Unit, File, Key, Hump string
	Group                 string
	Form, Table           bool
	Fields                []field
}

type model struct {
	World *dmodel.World
	Files map[string]map[string]string
	Where map[string][3]string
	Names map[string]map[string]string // enum -> number -> item as it is written
	Forms []form
}

func get(t *hb.Tag, key string) string {
	v, ok := sem.Get(t, key)
	if !ok || len(v) == 0 {
		return ""
	}
	return v[0]
}

func fieldOf(m *sem.Model, r *sem.Ref, f sem.Field) field {
	u := sem.Tag(f.Tags, "ui")
	o := field{Name: f.Name, Label: sem.LowerHump(sem.Hump(r.Name)) + "Lang." + sem.LowerHump(f.Name), Width: "160"}
	if u != nil {
		o.Form, o.Table, o.Format = get(u, "form"), get(u, "table"), get(u, "format")
		o.OnlyRead = get(u, "onlyRead") == "true"
		o.Digit, _ = strconv.Atoi(get(u, "digit"))
		if w := get(u, "width"); w != "" {
			o.Width = w
		}
	}
	if o.Format == "" {
		o.Format = "yyyy/MM/dd HH:mm:ss"
	}
	if v, ok := sem.Get(sem.Tag(f.Tags, "verify"), "format"); ok {
		for _, x := range v {
			p := strings.Split(x, ".")
			e := m.Resolve(f.File, p[0])
			for _, it := range e.Items {
				if it.Name == p[1] {
					t := sem.Tag(it.Tags, "format")
					o.Rules = append(o.Rules, rule{sem.LowerHump(sem.Hump(e.Name)) + "Lang." + sem.Hump(it.Name), get(t, "reg"), get(t, "null") == "true"})
				}
			}
		}
	}
	return o
}

func run(c *ev.Check) {
	us := units(c.Thorough())
	p := &model{dmodel.New(), map[string]map[string]string{}, map[string][3]string{}, map[string]map[string]string{}, nil}
	text := map[string]string{}
	results := make([]*hb.Result, len(us))
	hb.Parallel(len(us), c.Stop, func(i int) { results[i] = hb.Run(us[i].files, "*.hbuf", "ts", "") })
	for i, u := range us {
		dir := fmt.Sprintf("u%d", i)
		r := results[i]
		if r == nil {
			return
		}
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.files))
			continue
		}
		m, err := sem.Load(u.files)
		if err != nil {
			c.Fatal("%v", err)
		}
		text[u.group] = hb.Text(u.files)
		p.Files[dir] = r.Out
		err = p.World.Add(dir, m, func(key string, x *sem.Ref) {
			file := strings.TrimSuffix(x.File, ".hbuf")
			switch x.Kind {
			case hb.Data:
				p.World.Data[key].Group = u.group
				p.Where[key] = [3]string{dir, file + ".data.ts", sem.Hump(x.Name)}
				t := sem.Tag(x.Tags, "ui")
				f := form{Unit: dir, File: file + ".ui.tsx", Key: key, Hump: sem.Hump(x.Name), Group: u.group, Form: get(t, "form") == "true", Table: get(t, "table") == "true"}
				for _, y := range m.Fields(x) {
					f.Fields = append(f.Fields, fieldOf(m, x, y))
				}
				if t != nil || strings.HasPrefix(u.group, "which") {
					p.Forms = append(p.Forms, f)
				}
			case hb.Enum:
				p.Where[key] = [3]string{dir, file + ".enum.ts", sem.Hump(x.Name)}
				p.Names[key] = map[string]string{}
				for _, it := range x.Items {
					n, _ := sem.Number(it.Id)
					p.Names[key][fmt.Sprint(n)] = sem.Hump(it.Name)
				}
			}
		})
		if err != nil {
			c.Fatal("%s: %v", u.group, err)
		}
	}
	dir := hb.Scratch()
	defer os.RemoveAll(dir)
	const shards = 8
	hb.Parallel(shards, c.Stop, func(i int) {
		// every shard gets its forms and the files they need
		q := &model{p.World, map[string]map[string]string{}, p.Where, p.Names, nil}
		for j := range p.Forms {
			if j%shards == i {
				q.Forms = append(q.Forms, p.Forms[j])
				q.Files[p.Forms[j].Unit] = p.Files[p.Forms[j].Unit]
			}
		}
		js, err := json.Marshal(q)
		if err != nil {
			c.Fatal("%v", err)
		}
		name := filepath.Join(dir, fmt.Sprintf("model%d.json", i))
		if err := os.WriteFile(name, js, 0644); err != nil {
			c.Fatal("%v", err)
		}
		cmd := exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts/p24.js"), name, c.Tier)
		gorun.Follow(c, cmd, func(k string) string { return text[k] })
	})
}
