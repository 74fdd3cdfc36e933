// P12: generated Go validation enforces exactly the declared rules. Fields of every type with every list of rules up to
// a length are generated and compiled; a driver validates every boundary value, field by field and as a whole.
package main

import (
	"fmt"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/rules"
	"verif/harness/sem"
)

type model struct {
	*dmodel.World
	Verify map[string][]rules.Field
	Whole  map[string]bool
}

func main() {
	guard.Main("P12", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

func run(c *ev.Check) {
	p := &gorun.Prog{Driver: "p12"}
	w := dmodel.New()
	mo := &model{World: w, Verify: map[string][]rules.Field{}, Whole: map[string]bool{}}
	text := map[string]string{}
	n := 0
	for i, u := range rules.Units(c.Thorough()) {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(u.Files, "*.hbuf", "go", "gen/"+dir+"/")
		if r.Err != nil || r.Panic != "" {
			c.Violate(u.Group, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(u.Files))
			continue
		}
		m, err := sem.Load(u.Files)
		if err != nil {
			c.Fatal("%v", err)
		}
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
		err = w.Add(dir, m, func(key string, x *sem.Ref) {
			at := p.Import("gen/" + dir + "/" + m.Package(x.File, "go"))
			switch x.Kind {
			case hb.Data:
				p.Reg(key, "func() any { return new("+at+"."+sem.Hump(x.Name)+") }")
				w.Data[key].Group = u.Group + " " + x.Name
				text[w.Data[key].Group] = hb.Text(u.Files)
				fs, err := rules.Of(m, x)
				if err != nil {
					c.Fatal("%v", err)
				}
				mo.Verify[key] = fs
				n += len(fs)
				mo.Whole[key] = sem.Tag(x.Tags, "verify") != nil
			case hb.Enum:
				p.Reg(key, at+"."+sem.Hump(x.Name)+"(0)")
			}
		})
		if err != nil {
			c.Fatal("%v", err)
		}
	}
	c.Extra["fields with rules"] = n
	p.Model = mo
	p.Run(c, 8, func(k string) string {
		t := text[k]
		if len(t) > 6000 {
			i := strings.LastIndex(k, " ")
			if j := strings.Index(t, "data "+k[i+1:]+" "); j > 0 {
				t = t[j:]
			}
			if len(t) > 3000 {
				t = t[:3000] + "..."
			}
		}
		return t
	})
}
