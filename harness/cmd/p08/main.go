// P08: the generated Go code compiles. Every schema of the enumerated families is compiled by the real compiler and its
// Go output is type-checked against the runtime library.
package main

import (
	"fmt"
	"go/build"
	"io"
	"path"
	"sort"
	"strings"

	"verif/harness/ev"
	"verif/harness/gotype"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/schemas"
)

func main() {
	guard.Main("P08", func(c *ev.Check, g *guard.Guard) {
		tc := gotype.New(c.Root)
		ss := schemas.Of(c.Thorough())
		for i := range ss { // a few in front, to load the library once
			if i < 50 {
				tc.Check(hb.Run(ss[i].Files, "*.hbuf", "go", "gen/").Out, "gen/")
			}
		}
		g.Par(c)("schemas", len(ss), func(w, i int) {
			s := ss[i]
			g.Slots[w].Begin(0, s.Key)
			defer g.Slots[w].End()
			r := hb.Run(s.Files, "*.hbuf", "go", "gen/")
			c.Step(1)
			c.Trace(1)
			c.State(s.Key)
			c.Outcome(s.Family)
			if r.Err != nil || r.Panic != "" {
				c.Violate(s.Key, fmt.Sprintf("%s: %s\n%s", s.Key, r.Brief(), hb.Text(s.Files)))
				return
			}
			if i%9973 == 0 {
				c.Sample(s.Key)
			}
			if out := leftOut(r.Out); len(out) > 0 {
				c.Violate(s.Key, fmt.Sprintf("%s: the go command leaves generated files out: %s\n%s", s.Key, strings.Join(out, ", "), hb.Text(s.Files)))
				return
			}
			if t := tc.Check(r.Out, "gen/"); len(t.Errs) > 0 {
				c.Violate(s.Key, fmt.Sprintf("%s: the generated Go code does not compile:\n%s\n%s%s", s.Key, strings.Join(t.Errs, "\n"), hb.Text(s.Files), hb.Text(r.Out)))
			}
		})
	}, func(kind byte, data string) {})
}

var systems = [][2]string{{"linux", "amd64"}, {"windows", "arm64"}}

// leftOut lists the Go files that are not part of a build for every system.
func leftOut(out map[string]string) []string {
	var l []string
	for f, text := range out {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		for _, sys := range systems {
			b := build.Default
			b.GOOS, b.GOARCH = sys[0], sys[1]
			b.OpenFile = func(string) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader(text)), nil }
			if ok, _ := b.MatchFile(path.Dir(f), path.Base(f)); !ok || strings.HasSuffix(f, "_test.go") {
				l = append(l, f+" for "+sys[0]+"/"+sys[1])
			}
		}
	}
	sort.Strings(l)
	return l
}
