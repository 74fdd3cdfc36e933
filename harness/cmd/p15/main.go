// P15: the generated TypeScript type-checks. Every schema of the enumerated families is compiled by the real compiler
// and its TypeScript output goes through the TypeScript compiler in strict mode, against the runtime library's types.
package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/schemas"
	"verif/harness/tsrun"
)

func main() {
	guard.Main("P15", func(c *ev.Check, g *guard.Guard) {
		ss := schemas.Of(c.Thorough())
		units := make([]tsrun.Unit, len(ss))
		var mu sync.Mutex
		g.Par(c)("schemas", len(ss), func(w, i int) {
			s := ss[i]
			g.Slots[w].Begin(0, s.Key)
			defer g.Slots[w].End()
			r := hb.Run(s.Files, "*.hbuf", "ts", "gen/")
			c.Step(1)
			if r.Err != nil || r.Panic != "" {
				c.Violate(s.Key, fmt.Sprintf("%s: %s\n%s", s.Key, r.Brief(), hb.Text(s.Files)))
				return
			}
			units[i] = tsrun.Unit{Key: strconv.Itoa(i), Files: r.Out}
		})
		var us []tsrun.Unit
		for _, u := range units {
			if u.Key != "" {
				us = append(us, u)
			}
		}
		tsrun.Types(c, us, 8, func(at string, errs []string) {
			mu.Lock()
			defer mu.Unlock()
			i, _ := strconv.Atoi(at)
			key := ss[i].Key
			c.Step(1)
			c.Trace(1)
			c.State(key)
			c.Outcome(ss[i].Family)
			if i%4999 == 0 {
				c.Sample(key)
			}
			if len(errs) > 0 {
				c.Violate(key, fmt.Sprintf("%s: the generated TypeScript does not type-check:\n%s\n%s%s", key, strings.Join(errs, "\n"), hb.Text(ss[i].Files), hb.Text(units[i].Files)))
			}
		})
	}, func(kind byte, data string) {})
}
