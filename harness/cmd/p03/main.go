// P03: for every well-formed text of the sweep, and every model schema in every layout, the compiler's tree is the
// declared one.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strings"

	"hbuf/pkg/parser"
	"hbuf/pkg/token"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/ref"
	"verif/harness/sweep"
)

const fname = "dir/f.hbuf"

// tree is the abstraction of the compiler's tree of text, or the reason why there is none.
func tree(text string) (canon string, bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("the parser crashes: %v", e)
		}
	}()
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, fname, text, parser.AllErrors|parser.ParseComments)
	if err != nil {
		return "", "well-formed text is rejected: " + err.Error()
	}
	m, err := hb.Abstract(f)
	if err != nil {
		return "", err.Error()
	}
	return hb.Canon(m), ""
}

// judge compares with the reference grammar; canon is empty for texts that are no sentences.
func judge(text string) (bad, canon string) {
	m, v := ref.Parse(text, fname)
	if v != ref.Yes {
		return "", ""
	}
	want := hb.Canon(m)
	got, bad := tree(text)
	if bad == "" && got != want {
		bad = fmt.Sprintf("the tree differs\nwant:\n%s\ngot:\n%s", want, got)
	}
	return bad, want
}

type mcase struct{ Text, Want string }

func main() {
	guard.Main("P03", body, func(kind byte, data string) {
		if kind == 'M' {
			var m mcase
			if json.Unmarshal([]byte(data), &m) != nil {
				os.Exit(3)
			}
			data = m.Text
		}
		_, _ = tree(data)
	})
}

var gaps = []string{"", " ", "\t", "\n", "\r\n", " //c\n", "/*c*/", " /*c\nd*/ ", "\n\n//x\n", "\n//a\n//b\n", ";", "\n /*d*/\n", "\n//e\n\n"}

func body(c *ev.Check, g *guard.Guard) {
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	par := g.Par(c)
	ns := len(g.Slots)
	seen := make([]map[uint64]struct{}, ns)
	texts := make([]int, ns)
	yes := make([]int, ns)
	for i := range seen {
		seen[i] = map[uint64]struct{}{}
	}
	note := func(w int, canon string) {
		h := fnv.New64a()
		_, _ = h.Write([]byte(canon))
		seen[w][h.Sum64()] = struct{}{}
	}
	one := func(w int, text string) {
		s := g.Slots[w]
		s.Begin('T', text)
		bad, canon := judge(text)
		s.End()
		texts[w]++
		if canon != "" {
			yes[w]++
			note(w, canon)
		}
		if bad != "" {
			c.Violate(fmt.Sprintf("text:%q", text), fmt.Sprintf("%s\ntext: %q\n%s", bad, text, text))
		}
	}
	// model schemas in layouts: the model itself is the oracle
	ms := models(c.Thorough())
	par("models", len(ms), func(w, i int) {
		for _, l := range layouts {
			m := ms[i]
			if l.OneLine {
				m = undoc(m)
			}
			text := m.RenderAs(l)
			want := hb.Canon(raw(m, l))
			b, _ := json.Marshal(mcase{Text: text, Want: want})
			g.Slots[w].Begin('M', string(b))
			got, bad := tree(text)
			g.Slots[w].End()
			if bad == "" && got != want {
				bad = fmt.Sprintf("the tree differs\nwant:\n%s\ngot:\n%s", want, got)
			}
			if bad != "" {
				c.Violate(fmt.Sprintf("text:%q", text), bad+"\n"+text)
			}
			texts[w]++
			yes[w]++
			note(w, want)
		}
	})
	c.Logf("models done: %d", len(ms))
	// layouts: every gap of every base replaced by every trivia; and all pairs of neighbouring gaps
	for _, b := range sweep.Bases {
		b := b
		n := len(b) + 1
		build := func(i, gi, j, gj int) string {
			var s strings.Builder
			for k := 0; k <= len(b); k++ {
				switch {
				case k == i:
					s.WriteString(gaps[gi])
				case k == j:
					s.WriteString(gaps[gj])
				case k > 0 && k < len(b):
					s.WriteString(" ")
				}
				if k < len(b) {
					s.WriteString(b[k])
				}
			}
			return s.String()
		}
		far := c.Pick(2, 200)
		if len(b) <= 12 {
			far = 200
		}
		par("gaps", n, func(w, i int) {
			for gi := range gaps {
				for j := i + 1; j <= n && j <= i+far; j++ {
					for gj := range gaps {
						one(w, build(i, gi, j, gj))
					}
				}
			}
		})
	}
	c.Logf("gaps done")
	// every comment text: all strings of comment characters, free and inside a block comment, in front of and behind
	// every kind of declaration
	spots := [][2]string{{"package go = \"p\"\n", "data A {\n}\n"}, {"data A {\nint32 a = 1\n", "int32 b = 2\n}\n"}, {"enum A {\na = 1", "\nb = 2\n}\n"}, {"server A {\n", "\nvoid m(A q) = 1\n}\n"}}
	words := func(alpha string, n int, f func(w int, s string)) {
		k := len(alpha)
		total := 1
		for i := 0; i < n; i++ {
			total *= k
		}
		const chunk = 512
		par("comments", (total+chunk-1)/chunk, func(w, i int) {
			buf := make([]byte, n)
			for x := i * chunk; x < (i+1)*chunk && x < total; x++ {
				for j, y := 0, x; j < n; j++ {
					buf[j] = alpha[y%k]
					y /= k
				}
				f(w, string(buf))
			}
		})
	}
	for n := 0; n <= c.Pick(7, 8); n++ {
		words("/*\nx ", n, func(w int, s string) {
			for _, p := range spots {
				one(w, p[0]+s+p[1])
			}
		})
		words("/*\nx\r", n, func(w int, s string) {
			for _, p := range spots {
				one(w, p[0]+"/*"+s+"*/"+p[1])
				one(w, p[0]+"/*"+s+"*/\n"+p[1])
			}
		})
	}
	c.Logf("comments done")
	sweep.All(c.Pick(3, 4), c.Pick(2, 3), c.Pick(20, 48), par, one)
	all := map[uint64]struct{}{}
	nt, ny := 0, 0
	for i := range seen {
		for h := range seen[i] {
			all[h] = struct{}{}
		}
		nt += texts[i]
		ny += yes[i]
	}
	c.States = int64(len(all))
	c.Transitions = int64(nt)
	c.Traces = int64(ny)
	c.Extra["texts"] = nt
	c.Extra["well_formed_texts_compared"] = ny
	c.Extra["models"] = len(ms)
	c.Extra["layouts"] = len(layouts)
	c.Sample(ms[len(ms)/2].Render())
	c.Sample(ms[len(ms)-1].RenderAs(layouts[len(layouts)-1]))
}
