// Package gorun compiles generated Go packages together with a driver from /verif/runtime/go/drv and runs it.
package gorun

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/ev"
	"verif/harness/hb"
)

// Unit is the output of one schema: files below gen/<Dir>.
type Unit struct {
	Dir   string
	Files map[string]string
}

// Prog collects units and what the driver gets to know about them.
type Prog struct {
	Driver string // package below drv
	Units  []Unit
	imps   map[string]string
	lines  []string
	Model  interface{}
	Args   []string
	Fact   func(f []string)
}

// Import returns the name of a generated package in the main file.
func (p *Prog) Import(pkg string) string {
	if p.imps == nil {
		p.imps = map[string]string{}
	}
	if a, ok := p.imps[pkg]; ok {
		return a
	}
	a := fmt.Sprintf("a%d", len(p.imps))
	p.imps[pkg] = a
	return a
}

// Reg adds an entry to the driver's registry: a Go expression by name.
func (p *Prog) Reg(name, expr string) {
	p.lines = append(p.lines, fmt.Sprintf("\t\t%q: %s,\n", name, expr))
}

// Build compiles the program; a compile error comes back as text.
func (p *Prog) Build(c *ev.Check) (bin string, dir string, compileErr string) {
	d := hb.Scratch()
	rt := filepath.Join(c.Root, "runtime/go")
	for _, u := range p.Units {
		hb.WriteTree(filepath.Join(d, u.Dir), u.Files)
	}
	sum, _ := os.ReadFile(filepath.Join(rt, "go.sum"))
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\tdrv \"github.com/wskfjtheqian/hbuf_golang/drv/" + p.Driver + "\"\n")
	var ks []string
	for k := range p.imps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\t%s %q\n", p.imps[k], k)
	}
	b.WriteString(")\n\nfunc main() {\n\tdrv.Main(map[string]any{\n")
	for _, l := range p.lines {
		b.WriteString(l)
	}
	b.WriteString("\t})\n}\n")
	js, err := json.Marshal(p.Model)
	if err != nil {
		c.Fatal("%v", err)
	}
	hb.WriteTree(d, map[string]string{
		"go.mod": "module gen\n\ngo 1.21\n\nrequire github.com/wskfjtheqian/hbuf_golang v0.0.0\n\nrequire github.com/shopspring/decimal v1.4.0\n\nreplace github.com/wskfjtheqian/hbuf_golang => " + rt + "\n",
		"go.sum": string(sum), "main.go": b.String(), "model.json": string(js)})
	bin = filepath.Join(d, "prog")
	cmd := exec.Command("go", "build", "-gcflags=gen/...=-N -l", "-ldflags=-s -w", "-o", bin, ".")
	cmd.Dir = d
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", d, string(out)
	}
	return bin, d, ""
}

// Line is what a driver writes: one JSON object per line.
type Line struct {
	V   string         `json:"v,omitempty"`   // key of a violation
	T   string         `json:"t,omitempty"`   // its text
	S   string         `json:"s,omitempty"`   // a state
	N   int            `json:"n,omitempty"`   // transitions
	Tr  int            `json:"tr,omitempty"`  // traces
	O   string         `json:"o,omitempty"`   // outcome
	Smp string         `json:"smp,omitempty"` // sample
	X   map[string]int `json:"x,omitempty"`
	F   []string       `json:"f,omitempty"` // a fact the check compares
	End bool           `json:"end,omitempty"`
}

// Run runs the program and feeds its report into the check; shards run side by side.
func (p *Prog) Run(c *ev.Check, shards int, describe func(key string) string) {
	bin, dir, cerr := p.Build(c)
	defer os.RemoveAll(dir)
	if cerr != "" {
		if strings.Contains(cerr, "gen/") || strings.Contains(cerr, ".go:") {
			c.Violate("generated code does not compile", "the generated Go code does not compile:\n"+clip(cerr))
			return
		}
		c.Fatal("go build: %s", clip(cerr))
	}
	hb.Parallel(shards, c.Stop, func(i int) {
		cmd := exec.Command(bin, append([]string{filepath.Join(dir, "model.json"), c.Tier, fmt.Sprint(i), fmt.Sprint(shards)}, p.Args...)...)
		cmd.Dir = dir
		FollowFacts(c, cmd, describe, p.Fact)
	})
}

// Follow runs a driver and feeds its report into the check.
func Follow(c *ev.Check, cmd *exec.Cmd, describe func(key string) string) {
	FollowFacts(c, cmd, describe, nil)
}

// FollowFacts also hands the facts of the driver on.
func FollowFacts(c *ev.Check, cmd *exec.Cmd, describe func(key string) string, fact func(f []string)) {
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		c.Fatal("%v", err)
	}
	if err := cmd.Start(); err != nil {
		c.Fatal("%v", err)
	}
	r := bufio.NewReaderSize(out, 1<<20)
	ended := false
	last := ""
	for {
		b, err := r.ReadBytes('\n')
		if len(b) > 0 {
			var l Line
			if e := json.Unmarshal(b, &l); e == nil {
				if l.S != "" {
					c.State(l.S)
					last = l.S
				}
				if l.F != nil && fact != nil {
					fact(l.F)
				}
				if l.N > 0 {
					c.Step(l.N)
				}
				if l.Tr > 0 {
					c.Trace(l.Tr)
				}
				if l.O != "" {
					c.Outcome(l.O)
				}
				if l.Smp != "" {
					c.Sample(l.Smp)
				}
				if l.V != "" {
					t := l.T
					if describe != nil {
						t += "\n" + describe(l.V)
					}
					c.Violate(l.V, t)
				}
				ended = ended || l.End
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil || c.Stop() {
			_ = cmd.Process.Kill()
			break
		}
	}
	err = cmd.Wait()
	if !ended && !c.Stop() {
		t := fmt.Sprintf("the generated code crashed (%v) at %s\n%s", err, last, clip(stderr.String()))
		if describe != nil {
			t += "\n" + describe(last)
		}
		c.Violate("crash "+last, t)
	}
}

func clip(s string) string {
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
