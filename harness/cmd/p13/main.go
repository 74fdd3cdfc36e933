// P13: generated database operations do what the tags declare. Types with every operation, column type and choice of
// filters are generated and compiled; a driver runs every operation on a small database for every value of the filters.
package main

import (
	"fmt"
	"strings"

	"verif/harness/dbm"
	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
)

type model struct {
	*dmodel.World
	X     []*dbm.X
	Group map[string]string
}

func main() {
	guard.Main("P13", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

func run(c *ev.Check) {
	dangling(c)
	p := &gorun.Prog{Driver: "p13"}
	mo := &model{World: dmodel.New(), Group: map[string]string{}}
	text := map[string]string{}
	for i, u := range dbm.Units(c.Thorough()) {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "go", "gen/"+dir+"/")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			continue
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
		var e2 error
		err = mo.Add(dir, m, func(key string, x *sem.Ref) {
			at := p.Import("gen/" + dir + "/" + m.Package(x.File, "go"))
			switch x.Kind {
			case hb.Data:
				p.Reg(key, "func() any { return new("+at+"."+sem.Hump(x.Name)+") }")
				d, err := dbm.Of(dir, m, x)
				if err != nil {
					e2 = err
				}
				if d != nil {
					mo.X = append(mo.X, d)
					mo.Group[key] = u.Group + " " + x.Name
					text[mo.Group[key]] = hb.Text(u.Files)
				}
			case hb.Enum:
				p.Reg(key, at+"."+sem.Hump(x.Name)+"(0)")
			}
		})
		if err == nil {
			err = e2
		}
		if err != nil {
			c.Fatal("%v", err)
		}
	}
	c.Extra["types with operations"] = len(mo.X)
	p.Model = mo
	p.Run(c, 8, func(k string) string {
		f := strings.Fields(k)
		for len(f) > 0 && text[strings.Join(f, " ")] == "" {
			f = f[:len(f)-1]
		}
		if len(f) == 0 {
			return ""
		}
		t := text[strings.Join(f, " ")]
		n := f[len(f)-1]
		var out []string
		for _, d := range strings.Split(t, "}\n") {
			if strings.Contains(d, "data "+n+" ") || strings.Contains(d, "data User ") || strings.Contains(d, "data U"+strings.TrimPrefix(n, "Q")+" ") {
				out = append(out, d+"}")
			}
		}
		return strings.Join(out, "\n")
	})
}
