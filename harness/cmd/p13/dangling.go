package main

import (
	"fmt"
	"strings"

	"verif/harness/ev"
	"verif/harness/hb"
)

// dangling: a tag that names a field the type does not have is refused wherever it has an effect. It has one where what is
// generated with the name of a field differs from what is generated with a number in its place.
func dangling(c *ev.Check) {
	tags := []struct{ name, typ, text string }{
		{"where", "int64?", "where=\"AND x = @\""}, {"where of a value", "int64", "where=\"AND x > 0 AND x < @\""}, {"wheres", "int64[]?", "where=\"AND x > ?\",\"AND x < @\""}, {"wheres, first", "int64[]?", "where=\"AND x < @\",\"AND x > ?\""},
		{"group", "string?", "group=\"@\""}, {"group after a column", "string?", "group=\"x, @\""}, {"order", "string?", "order=\"x @\""}, {"order of a value", "string", "order=\"@\""}, {"set", "int64?", "set=\"@ + 1\""}, {"set of a value", "int64", "set=\"? + @\""},
	}
	gen := func(text string) (string, bool, string) {
		in := map[string]string{"a.hbuf": "package go = \"p\"\n" + text}
		r := hb.Run(in, "*.hbuf", "go", "gen/")
		c.Step(1)
		if r.Panic != "" {
			return "", false, "the compiler crashes: " + r.Panic
		}
		return hb.Text(r.Out), r.Err == nil, ""
	}
	refused := 0
	for _, op := range []string{"list", "map", "count", "get", "del", "remove", "update", "set", "insert", "inserts"} {
		for _, own := range []bool{true, false} {
			for _, tag := range tags {
				schema := func(p string) string {
					v := "parent"
					if own {
						v = "self"
					}
					o := fmt.Sprintf("%s=\"%s\"", op, v)
					switch op {
					case "map":
						o = "map=\"id:" + v + "\""
					case "count", "del", "remove":
						o = op + "=\"true\""
					}
					user := " [db: key=\"true\"]\n int64 id = 1\n [db: ]\n string? name = 2\n"
					f := fmt.Sprintf(" [db: %s]\n %s x = 5\n", strings.Replace(tag.text, "@", p, 1), tag.typ)
					if own {
						return "[db: name=\"user\"; " + o + "]\ndata User {\n" + user + f + "}\n"
					}
					return "[db: name=\"user\"]\ndata User {\n" + user + "}\n[db: table=\"User\"; " + o + "]\ndata Query {\n [db: ]\n int64? id = 1\n [db: ]\n string? name = 2\n" + f + "}\n"
				}
				one, ok1, bad1 := gen(schema("7"))
				for _, p := range []string{"?{@}", "${@}"} {
					good, ok2, bad2 := gen(schema(strings.Replace(p, "@", "id", 1)))
					_, ok3, bad3 := gen(schema(strings.Replace(p, "@", "no_such", 1)))
					key := fmt.Sprintf("dangling %s %v %s %s", op, own, tag.name, p)
					c.State(key)
					c.Trace(1)
					switch {
					case bad1+bad2+bad3 != "":
						c.Violate(key, key+": "+bad1+bad2+bad3+"\n"+schema(p))
					case !ok1 || !ok2:
						c.Violate(key, key+": the schema is rejected although the field exists\n"+schema(strings.Replace(p, "@", "id", 1)))
					case one != good && ok3:
						c.Violate(key, key+": a field that does not exist is accepted where its name has an effect\n"+schema(strings.Replace(p, "@", "no_such", 1)))
					case !ok3:
						refused++
					}
				}
			}
		}
	}
	c.Extra["tags refused because they name no field"] = refused
}
