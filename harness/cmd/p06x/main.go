//go:build p06x

// p06x explores iteration orders inside the instrumented compiler; see cmd/p06.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"hbuf/pkg/vordverif"

	"verif/harness/corpus"
	"verif/harness/hb"
)

type result struct {
	Runs, Points, Deviations, Histories int
	States                              []string
	Bad                                 [][2]string
	Capped                              bool
	Base                                map[string]string
	Samples                             []string
}

type unit struct {
	set    corpus.Set
	target string
}

func units() []unit {
	var us []unit
	for _, s := range append(append([]corpus.Set{}, corpus.Sets...), corpus.Faulty...) {
		for _, t := range hb.Targets {
			us = append(us, unit{s, t})
		}
	}
	return us
}

func (u unit) name() string { return u.set.Name + "/" + u.target }

// once compiles and returns everything observable, scratch paths removed.
func (u unit) once() string {
	d := hb.Scratch()
	defer os.RemoveAll(d)
	m := map[string]string{}
	for k, v := range u.set.Files {
		m["in/"+k] = v
	}
	hb.WriteTree(d, m)
	r := hb.RunIn(d, "*.hbuf", u.target, "gen/")
	s := r.Brief()
	return strings.ReplaceAll(s+"\n"+hb.Text(r.Out), d, "DIR")
}

type point struct{ site, n int }

func perms(n int) [][]int {
	var out [][]int
	if n <= 4 {
		var rec func(p []int, used int)
		rec = func(p []int, used int) {
			if len(p) == n {
				out = append(out, append([]int{}, p...))
				return
			}
			for i := 0; i < n; i++ {
				if used&(1<<uint(i)) == 0 {
					rec(append(p, i), used|1<<uint(i))
				}
			}
		}
		rec(nil, 0)
		return out[1:]
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	out = append(out, rev)
	for r := 1; r < n; r++ {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + r) % n
		}
		out = append(out, p)
	}
	for s := 0; s+1 < n; s++ {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		p[s], p[s+1] = p[s+1], p[s]
		out = append(out, p)
	}
	return out
}

func main() {
	stdout := os.Stdout
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	res := result{Base: map[string]string{}}
	defer func() {
		b, _ := json.Marshal(res)
		_, _ = stdout.Write(b)
	}()
	us := units()
	if os.Args[1] == "plain" {
		n, _ := strconv.Atoi(os.Args[2])
		vordverif.Clock = func() time.Time { return time.Unix(int64(n)*98765432, 0) }
		vordverif.Hook = func(site, k int) []int {
			p := make([]int, k)
			for i := range p {
				p[i] = (i + n) % k
			}
			return p
		}
		for i := range us {
			u := us[(i+n)%len(us)]
			res.Base[u.name()] = u.once()
		}
		return
	}
	shard, _ := strconv.Atoi(os.Args[2])
	shards, _ := strconv.Atoi(os.Args[3])
	thorough := os.Args[4] == "thorough"
	limit, _ := strconv.Atoi(os.Args[5])
	deadline := time.Now().Add(time.Duration(limit) * time.Second)
	vordverif.Clock = func() time.Time { return time.Unix(1, 0) }
	case_ := 0
	mine := func() bool { case_++; return case_%shards == shard }
	for _, u := range us {
		if len(res.Bad) > 10 || time.Now().After(deadline) {
			res.Capped = true
			break
		}
		var pts []point
		vordverif.Hook = func(site, n int) []int { pts = append(pts, point{site, n}); return nil }
		base := u.once()
		res.Base[u.name()] = base
		if shard == 0 {
			res.Points += len(pts)
		}
		run := func(what string, hook func(k, site, n int) []int) {
			if !mine() {
				return
			}
			k := 0
			vordverif.Hook = func(site, n int) []int { k++; return hook(k-1, site, n) }
			got := u.once()
			res.Runs++
			res.Deviations++
			if len(res.States) < 200000 {
				res.States = append(res.States, u.name()+" "+what)
			}
			if len(res.Samples) < 1 && res.Runs == 50 {
				res.Samples = append(res.Samples, u.name()+" "+what)
			}
			if got != base {
				res.Bad = append(res.Bad, [2]string{"order:" + u.name(), fmt.Sprintf("%s: the output depends on map order (%s):\n%s\nschema:\n%s", u.name(), what, diff(base, got), hb.Text(u.set.Files))})
			}
		}
		rev := func(n int) []int {
			p := make([]int, n)
			for i := range p {
				p[i] = n - 1 - i
			}
			return p
		}
		run("all reversed", func(k, s, n int) []int { return rev(n) })
		for r := 1; r <= 6; r++ {
			r := r
			run(fmt.Sprintf("all rotated by %d", r), func(k, s, n int) []int {
				p := make([]int, n)
				for i := range p {
					p[i] = (i + r) % n
				}
				return p
			})
		}
		sites := map[int]bool{}
		for _, p := range pts {
			sites[p.site] = true
		}
		var sl []int
		for s := range sites {
			sl = append(sl, s)
		}
		for s := 0; s < 10000; s++ {
			if sites[s] {
				s := s
				run(fmt.Sprintf("site %d reversed", s), func(k, x, n int) []int {
					if x == s {
						return rev(n)
					}
					return nil
				})
			}
		}
		for i, p := range pts {
			for pi, pm := range perms(p.n) {
				i, pm := i, pm
				run(fmt.Sprintf("iteration %d order %d", i, pi), func(k, s, n int) []int {
					if k == i && n == len(pm) {
						return pm
					}
					return nil
				})
			}
			if time.Now().After(deadline) {
				res.Capped = true
				break
			}
		}
		if thorough {
			for i := range pts {
				for j := i + 1; j < len(pts); j++ {
					for v := 0; v < 4; v++ {
						i, j, v := i, j, v
						run(fmt.Sprintf("iterations %d,%d order %d", i, j, v), func(k, s, n int) []int {
							if k != i && k != j {
								return nil
							}
							if v>>map[bool]uint{true: 0, false: 1}[k == i]&1 == 0 {
								return rev(n)
							}
							p := make([]int, n)
							for x := range p {
								p[x] = (x + 1) % n
							}
							return p
						})
					}
				}
				if time.Now().After(deadline) {
					res.Capped = true
					break
				}
			}
		}
	}
	// histories: every sequence of builds of bounded length in one process
	vordverif.Hook = nil
	depth := 3
	var hs []unit
	for _, u := range us {
		if thorough || u.set.Name == "one" || u.set.Name == "base" || u.set.Name == "bad verify" || u.set.Name == "syntax" && u.target == "go" {
			hs = append(hs, u)
		}
	}
	if thorough {
		depth = 2
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(hs)
	}
	for x := shard; x < total; x += shards {
		if len(res.Bad) > 10 {
			break
		}
		if time.Now().After(deadline) {
			res.Capped = true
			break
		}
		y := x
		var names []string
		for i := 0; i < depth; i++ {
			u := hs[y%len(hs)]
			y /= len(hs)
			names = append(names, u.name())
			got := u.once()
			res.Runs++
			if got != res.Base[u.name()] && res.Base[u.name()] != "" {
				res.Bad = append(res.Bad, [2]string{"history:" + u.name(), fmt.Sprintf("after the builds %v the output differs:\n%s", names, diff(res.Base[u.name()], got))})
				break
			}
		}
		res.Histories++
		if x < 400000 {
			res.States = append(res.States, strings.Join(names, ";"))
		}
	}
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			var l string
			if i < len(y) {
				l = y[i]
			}
			return fmt.Sprintf("line %d\n- %s\n+ %s", i+1, x[i], l)
		}
	}
	return "longer"
}
