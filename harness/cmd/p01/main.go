// P01: every text of the sweep ends, without a crash, in a tree or a located error; non-sentences are rejected.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strings"

	"hbuf/pkg/parser"
	"hbuf/pkg/token"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/ref"
	"verif/harness/sweep"
)

const fname = "dir/f.hbuf"

// judge parses one text and returns what is wrong, and an outcome class.
func judge(text string) (bad, class string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("the parser crashes: %v", e)
		}
	}()
	v := parseVerdict(text)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, fname, text, parser.AllErrors|parser.ParseComments)
	if err == nil {
		if f == nil {
			return "no tree and no error", ""
		}
		if v == ref.No {
			return "text that is no sentence of the grammar is accepted", ""
		}
		return "", "accepted"
	}
	msg := err.Error()
	if strings.Contains(text, "line ") {
		return "", "rejected"
	}
	file, line, col, ok := hb.ErrPos(err)
	if !ok || file != fname {
		return fmt.Sprintf("error does not name the file and position: %q", msg), ""
	}
	lines := strings.Split(text, "\n")
	if line < 1 || line > len(lines) || col < 1 || col > len(lines[line-1])+2 {
		return fmt.Sprintf("error position %d:%d lies outside the file: %q", line, col, msg), ""
	}
	cls := msg
	if i := strings.Index(msg, ": "); i >= 0 {
		cls = msg[i+2:]
	}
	return "", "rejected " + cls
}

func parseVerdict(text string) ref.Verdict {
	_, v := ref.Parse(text, fname)
	return v
}

type gcase struct {
	Files   map[string]string
	Targets []string
}

func runGen(g gcase) string {
	for _, t := range g.Targets {
		r := hb.Run(g.Files, "*.hbuf", t, "gen/")
		if r.Panic != "" {
			return fmt.Sprintf("compiling to %s crashes: %s", t, r.Panic)
		}
		if r.Err == nil && t != "none" {
			continue
		}
	}
	return ""
}

func main() {
	guard.Main("P01", body, func(kind byte, data string) {
		switch kind {
		case 'T':
			_, _ = judge(data)
		case 'G':
			var g gcase
			if json.Unmarshal([]byte(data), &g) != nil {
				os.Exit(3)
			}
			if s := runGen(g); s != "" {
				panic(s)
			}
		}
	})
}

func body(c *ev.Check, g *guard.Guard) {
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	ns := len(g.Slots)
	classes := make([]map[uint64]struct{}, ns)
	counts := make([]map[string]int, ns)
	for i := range classes {
		classes[i] = map[uint64]struct{}{}
		counts[i] = map[string]int{}
	}
	tok := make(chan int, ns)
	for i := 0; i < ns; i++ {
		tok <- i
	}
	var texts int64
	par := func(name string, n int, fn func(w, i int)) {
		if c.Stop() {
			return
		}
		hb.Parallel(n, c.Stop, func(i int) {
			w := <-tok
			fn(w, i)
			tok <- w
		})
	}
	cases := genCases(c.Thorough())
	par("generation", len(cases), func(w, i int) {
		b, _ := json.Marshal(cases[i])
		s := g.Slots[w]
		s.Begin('G', string(b))
		bad := runGen(cases[i])
		s.End()
		if bad != "" {
			c.Violate("gen:"+short(bad)+":"+keyOf(cases[i]), bad+"\n"+hb.Text(cases[i].Files))
		}
		c.Step(len(cases[i].Targets))
		c.Trace(len(cases[i].Targets))
		classes[w][uint64(i)<<20|1] = struct{}{}
	})
	per := make([]int, ns)
	depth, bdepth := c.Pick(3, 4), c.Pick(3, 4)
	sweep.All(depth, bdepth, c.Pick(20, 48), par, func(w int, text string) {
		s := g.Slots[w]
		s.Begin('T', text)
		bad, class := judge(text)
		s.End()
		per[w]++
		if bad != "" {
			c.Violate(fmt.Sprintf("text:%q", text), fmt.Sprintf("%s\ntext: %q\n%s", bad, text, text))
			return
		}
		h := fnv.New64a()
		_, _ = h.Write([]byte(class))
		classes[w][h.Sum64()] = struct{}{}
		if i := strings.IndexByte(class, ' '); i > 0 {
			class = class[:i]
		}
		counts[w][class]++
	})
	for i := range per {
		texts += int64(per[i])
	}
	c.Logf("parsing done: %d texts", texts)
	c.Step(int(texts))
	c.Trace(int(texts))
	all := map[uint64]struct{}{}
	sum := map[string]int{}
	for i := range classes {
		for h := range classes[i] {
			all[h] = struct{}{}
		}
		for k, v := range counts[i] {
			sum[k] += v
		}
	}
	c.States = int64(len(all))
	c.Extra["texts_parsed"] = texts
	c.Extra["outcomes"] = sum
	c.Extra["schemas_generated"] = len(cases)
	c.Extra["token_depth"] = depth
	c.Extra["contexts"] = len(sweep.Contexts)
	c.Sample("data A { int32 = 1 }")
	if len(cases) > 0 {
		c.Sample(hb.Text(cases[len(cases)/2].Files))
	}
	c.Assumptions = []string{"texts longer than the token bound are covered as one or two edits of the base schemas"}
}

func short(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func keyOf(g gcase) string { return g.Files["a.hbuf"] }
