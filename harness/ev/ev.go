// Package ev holds what every check shares: evidence, violations, known findings, deadlines.
package ev

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one run of one check.
type Check struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	Root     string
	Start    time.Time
	Deadline time.Time

	States      int64 // distinct states
	Transitions int64
	Traces      int64 // executions of the real code compared with the model
	Exhaustive  bool
	Extra       map[string]interface{}
	Assumptions []string

	mu         sync.Mutex
	samples    []string
	violations []violation
	known      []finding
	knownHit   map[string]int
	stop       atomic.Bool
	out        *os.File
	outcomes   map[string]int
	states     map[string]struct{}
}

var maxViolations = func() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAXV")); err == nil {
		return n
	}
	return 20
}()

type violation struct{ key, text string }

type finding struct{ prop, key, what string }

// Dir is /verif.
func Dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Repo is the tree under test.
func Repo() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// New starts a check. Stdout is kept for the check itself: what the code under test prints goes to /dev/null.
func New(id string) *Check {
	c := &Check{ID: id, Tier: "quick", Level: "model_checking", Root: Dir(), Start: time.Now(), Exhaustive: true,
		Extra: map[string]interface{}{}, knownHit: map[string]int{}, out: os.Stdout, outcomes: map[string]int{}, states: map[string]struct{}{}}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		c.Tier = t
	}
	for _, a := range os.Args[1:] {
		if a == "thorough" || a == "quick" {
			c.Tier = a
		}
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := 420 * time.Second
	if c.Thorough() {
		limit = 700 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	c.Deadline = c.Start.Add(limit)
	c.loadKnown()
	if old, err := filepath.Glob(filepath.Join(c.Root, "evidence", "replay", id+"-*.txt")); err == nil {
		for _, f := range old {
			_ = os.Remove(f)
		}
	}
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	return c
}

// Thorough reports the tier.
func (c *Check) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q or t by tier.
func (c *Check) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Check) loadKnown() {
	f, err := os.Open(filepath.Join(c.Root, "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<20)
	for s.Scan() {
		line := strings.TrimSpace(s.Text())
		// finding: property=P01 key=<key> :: <what fails>
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		line = line[len("finding: "):]
		i := strings.Index(line, " :: ")
		if i < 0 {
			continue
		}
		what := line[i+4:]
		head := line[:i]
		j := strings.Index(head, " key=")
		if j < 0 {
			continue
		}
		c.known = append(c.known, finding{prop: strings.TrimPrefix(head[:j], "property="), key: head[j+5:], what: what})
	}
}

// Known says whether key is a listed finding of this property (exact match) and notes that it was seen.
func (c *Check) Known(key string) bool {
	for _, k := range c.known {
		if k.prop == c.ID && k.key == key {
			c.mu.Lock()
			c.knownHit[key]++
			c.mu.Unlock()
			return true
		}
	}
	return false
}

// Violate records a violation; key identifies the failing input (for known findings), text explains it.
func (c *Check) Violate(key, text string) {
	if c.Known(key) {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if f := os.Getenv("VERIF_SURVEY"); f != "" { // development: collect everything
		if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			_, _ = fmt.Fprintf(w, "%q\t%q\n", key, clip(text, 3000))
			_ = w.Close()
		}
		return
	}
	if len(c.violations) < maxViolations {
		c.violations = append(c.violations, violation{key, text})
	}
	if len(c.violations) >= maxViolations {
		c.stop.Store(true)
	}
}

// Failed reports whether a violation was recorded.
func (c *Check) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.violations) > 0 }

// Stop reports whether exploration should end (deadline or enough violations).
func (c *Check) Stop() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.mu.Lock()
		c.Exhaustive = false
		c.mu.Unlock()
		c.stop.Store(true)
		return true
	}
	return false
}

// NotExhaustive notes a cap that was hit.
func (c *Check) NotExhaustive(why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Exhaustive = false
	l, _ := c.Extra["caps_hit"].([]string)
	c.Extra["caps_hit"] = append(l, why)
}

// State counts a distinct state; it reports whether it is new.
func (c *Check) State(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.states[key]; ok {
		return false
	}
	c.states[key] = struct{}{}
	return true
}

// Step counts transitions.
func (c *Check) Step(n int) { atomic.AddInt64(&c.Transitions, int64(n)) }

// Trace counts executions of the implementation compared with the model.
func (c *Check) Trace(n int) { atomic.AddInt64(&c.Traces, int64(n)) }

// Outcome counts a class of observed outcome.
func (c *Check) Outcome(k string) {
	c.mu.Lock()
	c.outcomes[k]++
	c.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (c *Check) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Logf prints progress to stderr.
func (c *Check) Logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "[%s %6.1fs] %s\n", c.ID, time.Since(c.Start).Seconds(), fmt.Sprintf(f, a...))
}

// Fatal ends with an error of the check itself.
func (c *Check) Fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "%s: check error: %s\n", c.ID, fmt.Sprintf(f, a...))
	os.Exit(3)
}

// Finish writes evidence and exits.
func (c *Check) Finish() {
	if len(c.states) > 0 {
		c.States += int64(len(c.states))
	}
	cov := map[string]interface{}{
		"states":                        c.States,
		"transitions":                   c.Transitions,
		"traces_validated_against_impl": c.Traces,
		"exhaustive":                    c.Exhaustive,
		"samples":                       c.samples,
	}
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	var known []string
	for k := range c.knownHit {
		known = append(known, k)
	}
	sort.Strings(known)
	if len(known) > 0 {
		cov["known_findings_seen"] = known
	}
	e := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": len(c.violations),
	}
	if len(c.Assumptions) > 0 {
		e["assumptions"] = c.Assumptions
	}
	dir := filepath.Join(c.Root, "evidence")
	_ = os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		c.Fatal("evidence: %v", err)
	}
	for _, k := range known {
		for _, f := range c.known {
			if f.prop == c.ID && f.key == k {
				fmt.Fprintf(c.out, "KNOWN-FINDING: property=%s %s\n", c.ID, f.what)
			}
		}
	}
	fmt.Fprintf(c.out, "%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n",
		c.ID, c.Tier, c.States, c.Transitions, c.Traces, c.Exhaustive, len(c.violations), time.Since(c.Start).Seconds())
	if len(c.violations) > 0 {
		rd := filepath.Join(dir, "replay")
		_ = os.MkdirAll(rd, 0755)
		for i, v := range c.violations {
			rp := filepath.Join(rd, fmt.Sprintf("%s-%d.txt", c.ID, i+1))
			_ = os.WriteFile(rp, []byte("key="+strconv.Quote(v.key)+"\n"+v.text+"\n"), 0644)
			if i < 5 || os.Getenv("VERIF_MAXV") != "" {
				fmt.Fprintf(os.Stderr, "---- %q\n%s\n", v.key, clip(v.text, 3000))
				fmt.Fprintf(c.out, "VIOLATION property=%s replay=%s\n", c.ID, rp)
			}
		}
		os.Exit(1)
	}
	os.Exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(see replay file)"
	}
	return s
}
