// P11: every remote call reaches its own method. Servers of every inheritance shape, signature and name are generated and
// compiled; a driver joins client and router and performs every call and every short sequence of calls.
package main

import (
	"fmt"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/ev"
	"verif/harness/gorun"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
	"verif/harness/sunits"
)

type bind struct {
	Server, Method, Part, PartT, Result, ResT, Need string
}

type method struct {
	Name, Hump, Param, Result string
	Tags                      map[string][]string
	Bind                      *bind
}

type server struct {
	Key, Unit, Group, Name string
	Methods                []method
}

type model struct {
	*dmodel.World
	Servers []server
}

func main() {
	guard.Main("P11", func(c *ev.Check, g *guard.Guard) { run(c) }, func(kind byte, data string) {})
}

func run(c *ev.Check) {
	p := &gorun.Prog{Driver: "p11"}
	w := dmodel.New()
	mo := &model{World: w}
	text := map[string]string{}
	rpc := p.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc")
	ctx := p.Import("context")
	for i, files := range sunits.Of(c.Thorough()) {
		dir := fmt.Sprintf("u%d", i)
		r := hb.Run(files, "*.hbuf", "go", "gen/"+dir+"/")
		if r.Err != nil || r.Panic != "" {
			c.Violate(dir, "the schema is rejected: "+r.Brief()+"\n"+hb.Text(files))
			continue
		}
		m, err := sem.Load(files)
		if err != nil {
			c.Fatal("%v", err)
		}
		// the recording implementations
		rec := map[string]string{}
		imp := func(pkg string) string {
			pkg = "gen/" + dir + "/" + pkg
			if _, ok := rec[pkg]; !ok {
				rec[pkg] = fmt.Sprintf("b%d", len(rec))
			}
			return rec[pkg]
		}
		var code strings.Builder
		ns := 0
		typ := func(x *sem.Ref) string { return imp(m.Package(x.File, "go")) + "." + sem.Hump(x.Name) }
		err = w.Add(dir, m, func(key string, x *sem.Ref) {
			pk := m.Package(x.File, "go")
			switch x.Kind {
			case hb.Data:
				p.Reg(key, "func() any { return new("+p.Import("gen/"+dir+"/"+pk)+"."+sem.Hump(x.Name)+") }")
			case hb.Enum:
				p.Reg(key, p.Import("gen/"+dir+"/"+pk)+"."+sem.Hump(x.Name)+"(0)")
			case hb.Server:
				f := hb.File{Name: x.File, Decls: []hb.Decl{*x.Decl}}
				s := server{Key: key, Unit: dir, Group: strings.TrimSpace(f.Render())}
				text[s.Group] = hb.Text(files)
				s.Name, _ = sem.Under(x.Name)
				rn := fmt.Sprintf("R%d", ns)
				ns++
				fmt.Fprintf(&code, "type %s struct{ Call drv.Call }\n\nfunc (r *%s) Init(ctx context.Context) {}\n\n", rn, rn)
				for _, me := range m.Methods(x) {
					o := method{Name: me.Name, Hump: sem.Hump(me.Name)}
					q := m.Resolve(me.File, me.Param.Name)
					o.Param = dmodel.Key(dir, q)
					if me.Result.Name == "void" {
						fmt.Fprintf(&code, "func (r *%s) %s(ctx context.Context, req *%s) error {\n\t_, err := r.Call(%q, ctx, req)\n\treturn err\n}\n\n", rn, o.Hump, typ(q), me.Name)
					} else {
						a := m.Resolve(me.File, me.Result.Name)
						o.Result = dmodel.Key(dir, a)
						fmt.Fprintf(&code, "func (r *%s) %s(ctx context.Context, req *%s) (*%s, error) {\n\td, err := r.Call(%q, ctx, req)\n\tif d == nil {\n\t\treturn nil, err\n\t}\n\treturn d.(*%s), err\n}\n\n", rn, o.Hump, typ(q), typ(a), me.Name, typ(a))
					}
					if t := sem.Tag(me.Tags, "tag"); t != nil {
						o.Tags = map[string][]string{}
						for _, kv := range t.KV {
							o.Tags[kv.K], _ = sem.Get(t, kv.K)
						}
					}
					if t := sem.Tag(me.Tags, "bind"); t != nil {
						v, _ := sem.Get(t, "value")
						at := strings.Split(v[0], ".")
						bs := m.Resolve(me.File, at[0])
						b := &bind{Server: dmodel.Key(dir, bs), Method: at[1]}
						for _, bm := range m.Methods(bs) {
							if bm.Name == at[1] {
								b.PartT = dmodel.Key(dir, m.Resolve(bm.File, bm.Param.Name))
								if bm.Result.Name != "void" {
									b.ResT = dmodel.Key(dir, m.Resolve(bm.File, bm.Result.Name))
								}
							}
						}
						if sem.Tag(q.Tags, "verify") != nil {
							for _, qf := range m.Fields(q) {
								if sem.Tag(qf.Tags, "verify") != nil {
									b.Need = qf.Name
								}
							}
						}
						o.Bind = b
					}
					s.Methods = append(s.Methods, o)
				}
				mo.Servers = append(mo.Servers, s)
				a, b := p.Import("gen/"+dir+"/"+pk), p.Import("gen/"+dir+"/rec")
				h := sem.Hump(x.Name)
				p.Reg("S:"+key, fmt.Sprintf("drv.Server{New: func(c drv.Call) any { return &%s.%s{Call: c} }, Client: func(c %s.Client) any { return %s.New%sClient(c) }, Router: func(s any) %s.ServerRouter { return %s.New%sRouter(s.(%s.%s)) }, Get: func(c %s.Context) any { return %s.Get%s(c) }, Default: &%s.Default%s{}}",
					b, rn, rpc, a, h, rpc, a, h, a, h, ctx, a, h, a, h))
			}
		})
		if err != nil {
			c.Fatal("%v", err)
		}
		head := "package rec\n\nimport (\n\t\"context\"\n\n\tdrv \"github.com/wskfjtheqian/hbuf_golang/drv/p11\"\n"
		for k, v := range rec {
			head += fmt.Sprintf("\t%s %q\n", v, k)
		}
		r.Out["rec/rec.go"] = head + ")\n\n" + code.String()
		p.Units = append(p.Units, gorun.Unit{Dir: dir, Files: r.Out})
	}
	p.Model = mo
	c.Extra["servers"] = len(mo.Servers)
	p.Run(c, 8, func(k string) string { return text[k] })
}
