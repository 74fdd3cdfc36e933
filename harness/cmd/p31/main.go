// P31: references in tags name something. Every form of a reference in a tag, at every place and in every target where it has
// an effect, is refused when what it names does not exist or is of another kind, and taken when it exists.
package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
)

func main() {
	guard.Main("P31", func(c *ev.Check, g *guard.Guard) { run(c, g) }, func(kind byte, data string) {})
}

// form is a tag with a reference; @ stands for the reference.
type form struct {
	name  string
	tag   string   // with @, on its own line
	place []string // schemas with # for the tag, by place
	good  []string // references that exist
	other []string // references to a thing of another kind or of another place
}

const rules = "enum Rules {\n [format: min=\"1\"]\n one_rule = 1\n two = 2\n}\n"
const things = "data Thing {\n int64 one_rule = 1\n}\nserver Calls {\n Thing call_it(Thing req) = 1\n}\nserver Below : Calls = 1 {\n Thing below(Thing req) = 2\n}\n"

var forms = []form{
	{"verify", "[verify: format=\"@\"]", []string{
		"data D {\n #\n int32 a = 1\n}\n",
		"data D {\n int32 a = 1\n #\n string? b = 2\n}\n",
		"data Up {\n #\n int64[]? a = 1\n}\ndata D : Up = 1 {\n}\n",
	}, []string{"Rules.one_rule", "Rules.two"}, []string{"Thing.one_rule", "Calls.call_it", "D.a"}},
	{"second verify", "[verify: format=\"Rules.two\",\"@\"]", []string{
		"data D {\n #\n int32 a = 1\n}\n",
	}, []string{"Rules.one_rule"}, []string{"Thing.one_rule", "Calls.call_it"}},
	{"bind", "[bind: value=\"@\"]", []string{
		"server S {\n #\n Thing s(Thing req) = 1\n}\n",
		"server S {\n Thing r(Thing req) = 1\n #\n Thing s(Thing req) = 2\n}\n",
	}, []string{"Calls.call_it", "Below.below"}, []string{"Rules.one_rule", "Thing.one_rule"}},
	{"table", "[db: table=\"@\"; list=\"parent\"]", []string{
		"[db: name=\"t\"]\ndata Row {\n [db: key=\"true\"]\n int64 id = 1\n}\n#\ndata D {\n [db: ]\n int64? id = 1\n}\n",
	}, []string{"Row"}, []string{"Rules", "Calls"}},
}

// broken makes references that name nothing out of one that names something.
func broken(good string) []string {
	m := map[string]bool{"": true, "No.such": true, "nosuch": true, good + "x": true, "X" + good: true, strings.ToLower(good[:1]) + good[1:] + "_": true}
	if a, b, ok := strings.Cut(good, "."); ok {
		for _, x := range []string{a, a + ".", "." + b, b + "." + a, a + "." + b + "x", a + "x." + b, a + "." + strings.ToUpper(b), strings.ToLower(a) + "." + b, a + "." + b[:len(b)-1], a + "/" + b, a + "..", a + "." + a} {
			m[x] = true
		}
	} else {
		for _, x := range []string{strings.ToUpper(good[:1]) + good[1:] + "s", good[:len(good)-1], good[1:]} {
			m[x] = true
		}
	}
	delete(m, good)
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return l
}

type job struct {
	f          form
	place      int
	far        int
	target     string
	good, name string
}

// schema puts the things into the same file or another one.
func (j job) schema(tag string) map[string]string {
	text := strings.Replace(j.f.place[j.place], "#", tag, 1)
	head := func(p string) string { return "package go = \"" + p + "\"\npackage java = \"com." + p + "\"\n" }
	switch j.far {
	case 0:
		return map[string]string{"a.hbuf": head("p") + rules + things + text}
	case 1:
		return map[string]string{"a.hbuf": head("p") + "import \"b.hbuf\"\n" + text, "b.hbuf": head("p") + rules + things}
	}
	return map[string]string{"a.hbuf": head("p") + "import \"b.hbuf\"\n" + text, "b.hbuf": head("q") + rules + things}
}

func run(c *ev.Check, g *guard.Guard) {
	var js []job
	for _, f := range forms {
		for p := range f.place {
			for far := 0; far < 3; far++ {
				for _, t := range hb.Targets {
					for _, good := range f.good {
						names := append(broken(good), f.other...)
						for _, n := range names {
							skip := n == "" && f.name == "table" // no table
							for _, x := range f.good {
								skip = skip || x == n
							}
							if !skip {
								js = append(js, job{f, p, far, t, good, n})
							}
						}
					}
				}
			}
		}
	}
	g.Par(c)("references", len(js), func(w, k int) {
		j := js[k]
		key := fmt.Sprintf("%s %d %d %s %s %q", j.f.name, j.place, j.far, j.target, j.good, j.name)
		gen := func(tag string) (*hb.Result, map[string]string) {
			in := j.schema(tag)
			c.Step(1)
			return hb.Run(in, "*.hbuf", j.target, ""), in
		}
		c.State(key)
		c.Trace(1)
		good, in := gen(strings.Replace(j.f.tag, "@", j.good, 1))
		if good.Err != nil || good.Panic != "" {
			c.Violate(key, key+": a reference to what exists is refused: "+good.Brief()+"\n"+hb.Text(in))
			return
		}
		none, _ := gen("")
		if none.Err != nil || none.Panic != "" {
			c.Violate(key, key+": the schema is refused without the tag: "+none.Brief()+"\n"+hb.Text(in))
			return
		}
		bad, in := gen(strings.Replace(j.f.tag, "@", j.name, 1))
		switch {
		case bad.Panic != "":
			c.Violate(key, key+": the compiler crashes: "+bad.Panic+"\n"+hb.Text(in))
		case hb.Text(good.Out) == hb.Text(none.Out):
			c.Outcome(j.f.name + " has no effect in " + j.target)
		case bad.Err == nil:
			c.Violate(key, key+": a reference to something that is not there is accepted\n"+hb.Text(in))
		default:
			c.Outcome(j.f.name + " refused in " + j.target)
			if k%97 == 0 {
				c.Sample(key + ": " + bad.Err.Error())
			}
		}
	})
}
