// P09: generated Go data types carry every field. Schemas of every type shape, name and inheritance shape are generated by
// the real compiler and compiled; a driver sets, reads, serialises and parses every assignment of boundary values.
package main

import (
	"fmt"

	"verif/harness/dmodel"
	"verif/harness/dunits"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

func main() {
	guard.Main("P09", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

func run(c *ev.Check) {
	us := dunits.Of(c.Thorough())
	p := &gorun.Prog{Driver: "p09"}
	w := dmodel.New()
	text := map[string]string{}
	for i, u := range us {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "go", "gen/"+dir+"/")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			continue
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
		err = w.Add(dir, m, func(key string, x *sem.Ref) {
			switch x.Kind {
			case hb.Data:
				d := w.Data[key]
				d.Group = u.Group + " " + x.Name
				if n, ok := u.Names[x.Name]; ok {
					d.Group = n
				}
				text[d.Group] = declText(m, x)
				p.Reg(key, "func() any { return new("+p.Import("gen/"+dir+"/"+m.Package(x.File, "go"))+"."+sem.Hump(x.Name)+") }")
			case hb.Enum:
				p.Reg(key, p.Import("gen/"+dir+"/"+m.Package(x.File, "go"))+"."+sem.Hump(x.Name)+"(0)")
			}
		})
		if err != nil {
			c.Fatal("%s: %v", u.Group, err)
		}
	}
	p.Model = w
	p.Run(c, 8, func(k string) string { return text[k] })
}

func declText(m *sem.Model, x *sem.Ref) string {
	f := hb.File{Name: x.File, Decls: []hb.Decl{*x.Decl}}
	return f.Render()
}
