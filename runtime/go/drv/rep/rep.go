// Package rep is how the drivers of generated code report to the check that runs them.
package rep

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// R is a report. Every driver is started with model.json, tier, shard, shards.
type R struct {
	w             *bufio.Writer
	e             *json.Encoder
	Tier          string
	Shard, Shards int
	steps, traces int
	viol          int
	Args          []string
}

type line struct {
	V   string   `json:"v,omitempty"`
	T   string   `json:"t,omitempty"`
	S   string   `json:"s,omitempty"`
	N   int      `json:"n,omitempty"`
	Tr  int      `json:"tr,omitempty"`
	O   string   `json:"o,omitempty"`
	Smp string   `json:"smp,omitempty"`
	End bool     `json:"end,omitempty"`
	F   []string `json:"f,omitempty"`
}

// Start reads the model and opens the report.
func Start(model any) *R {
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, model)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := &R{w: bufio.NewWriterSize(os.Stdout, 1<<16), Tier: os.Args[2], Args: os.Args[5:]}
	r.Shard, _ = strconv.Atoi(os.Args[3])
	r.Shards, _ = strconv.Atoi(os.Args[4])
	r.e = json.NewEncoder(r.w)
	return r
}

// Mine says whether case i belongs to this shard.
func (r *R) Mine(i int) bool { return i%r.Shards == r.Shard }

// State notes a state; the report is flushed so that a crash can be located.
func (r *R) State(s string) {
	r.flush()
	_ = r.e.Encode(line{S: s})
	_ = r.w.Flush()
}

func (r *R) flush() {
	if r.steps+r.traces > 0 {
		_ = r.e.Encode(line{N: r.steps, Tr: r.traces})
		r.steps, r.traces = 0, 0
	}
}

func (r *R) Step(n int)       { r.steps += n }
func (r *R) Trace(n int)      { r.traces += n }
func (r *R) Fact(f ...string) { _ = r.e.Encode(line{F: f}) }
func (r *R) Outcome(o string) { _ = r.e.Encode(line{O: o}) }
func (r *R) Sample(o string)  { _ = r.e.Encode(line{Smp: o}) }

// Violate reports a broken property; one report per key is enough.
func (r *R) Violate(key, f string, a ...any) {
	r.viol++
	_ = r.e.Encode(line{V: key, T: fmt.Sprintf(f, a...)})
	_ = r.w.Flush()
}

// Full says whether enough was reported.
func (r *R) Full() bool { return r.viol > 2000 }

// End closes the report.
func (r *R) End() {
	r.flush()
	_ = r.e.Encode(line{End: true})
	_ = r.w.Flush()
}
