// P06: the output does not depend on map iteration order, the clock, the run or earlier builds. The current tree is
// rebuilt with every iteration over a map replaced by an explorer-ordered one (a Go overlay, /repo stays untouched),
// and cmd/p06x explores the orders.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verif/harness/ev"
)

const vord = `//go:build go1.23

package vordverif

import (
	"fmt"
	"iter"
	"sort"
	"time"
)

// Hook returns the order of the n keys of an iteration at a site (nil: sorted).
var Hook func(site, n int) []int

// Clock is the time the compiler sees.
var Clock = time.Now

func Now() time.Time { return Clock() }

func order[M ~map[K]V, K comparable, V any](site int, m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	ss := make(map[K]string, len(ks))
	for _, k := range ks {
		ss[k] = fmt.Sprint(k)
	}
	sort.SliceStable(ks, func(i, j int) bool { return ss[ks[i]] < ss[ks[j]] })
	if Hook != nil && len(ks) > 1 {
		if p := Hook(site, len(ks)); p != nil {
			o := make([]K, len(ks))
			for i, x := range p {
				o[i] = ks[x]
			}
			ks = o
		}
	}
	return ks
}

func Iter[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq2[K, V] {
	ks := order(site, m)
	return func(yield func(K, V) bool) {
		for _, k := range ks {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Iter(site, m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](site int, m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Iter(site, m) {
			if !yield(v) {
				return
			}
		}
	}
}
`

type imp struct {
	fset *token.FileSet
	std  types.Importer
	done map[string]*types.Package
	repo string
	info map[string]*checked
}

type checked struct {
	files map[string]*ast.File
	info  *types.Info
}

func (m *imp) Import(path string) (*types.Package, error) {
	if p, ok := m.done[path]; ok {
		return p, nil
	}
	if !strings.HasPrefix(path, "hbuf/") {
		return m.std.Import(path)
	}
	dir := filepath.Join(m.repo, strings.TrimPrefix(path, "hbuf/"))
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	c := &checked{files: map[string]*ast.File{}, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}}
	var fs []*ast.File
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(m.fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		c.files[filepath.Join(dir, n)] = f
		fs = append(fs, f)
	}
	conf := types.Config{Importer: m, Error: func(error) {}, FakeImportC: true}
	p, _ := conf.Check(path, m.fset, fs, c.info)
	m.done[path] = p
	m.info[path] = c
	return p, nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return isMap(u.Term(0).Type())
			}
			return isMap(i.EmbeddedType(0))
		}
	}
	return false
}

type edit struct {
	off  int
	text string
}

func main() {
	c := ev.New("P06")
	work := os.Getenv("VERIF_WORK")
	if work == "" {
		work, _ = os.MkdirTemp("", "p06")
	}
	repo := ev.Repo()
	m := &imp{fset: token.NewFileSet(), done: map[string]*types.Package{}, repo: repo, info: map[string]*checked{}}
	m.std = importer.ForCompiler(m.fset, "source", nil)
	for _, p := range []string{"build", "golang", "typescript", "dart", "java"} {
		if _, err := m.Import("hbuf/pkg/" + p); err != nil {
			c.Fatal("%v", err)
		}
	}
	overlay := map[string]string{}
	site := 0
	var sites []string
	var paths []string
	for p := range m.info {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		ck := m.info[p]
		var names []string
		for n := range ck.files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f := ck.files[n]
			src, err := os.ReadFile(n)
			if err != nil {
				c.Fatal("%v", err)
			}
			off := func(p token.Pos) int { return m.fset.PositionFor(p, false).Offset }
			var eds []edit
			ast.Inspect(f, func(x ast.Node) bool {
				switch s := x.(type) {
				case *ast.RangeStmt:
					if isMap(ck.info.Types[s.X].Type) {
						eds = append(eds, edit{off(s.X.Pos()), fmt.Sprintf("vordverif.Iter(%d, ", site)}, edit{off(s.X.End()), ")"})
						sites = append(sites, fmt.Sprintf("%s:%d", strings.TrimPrefix(n, repo+"/"), m.fset.Position(s.Pos()).Line))
						site++
					}
				case *ast.CallExpr:
					sel, ok := s.Fun.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					id, ok := sel.X.(*ast.Ident)
					if !ok {
						return true
					}
					pn, ok := ck.info.Uses[id].(*types.PkgName)
					if !ok {
						return true
					}
					q := pn.Imported().Path() + "." + sel.Sel.Name
					switch q {
					case "maps.Keys", "maps.Values", "maps.All":
						fn := sel.Sel.Name
						if fn == "All" {
							fn = "Iter"
						}
						eds = append(eds, edit{off(s.Fun.Pos()), fmt.Sprintf("vordverif.%s(%d, ", fn, site) + "/*"}, edit{off(s.Args[0].Pos()), "*/"})
						sites = append(sites, fmt.Sprintf("%s:%d", strings.TrimPrefix(n, repo+"/"), m.fset.Position(s.Pos()).Line))
						site++
					case "time.Now":
						eds = append(eds, edit{off(s.Fun.Pos()), "vordverif.Now/*"}, edit{off(s.Fun.End()), "*/"})
					}
				}
				return true
			})
			if len(eds) == 0 {
				continue
			}
			used := ""
			for _, im := range f.Imports {
				switch im.Path.Value {
				case `"maps"`, `"time"`: // may have become unused
					nm := strings.Trim(im.Path.Value, `"`)
					if im.Name != nil {
						nm = im.Name.Name
					}
					if nm != "_" && nm != "." {
						used += "\nvar _ = " + nm + map[string]string{"maps": ".Keys[map[int]int]", "time": ".Now"}[strings.Trim(im.Path.Value, `"`)] + "\n"
					}
				}
			}
			eds = append(eds, edit{off(f.Name.End()), "; import vordverif \"hbuf/pkg/vordverif\""})
			sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
			var b bytes.Buffer
			b.WriteString("//go:build go1.23\n\n")
			last := 0
			for _, e := range eds {
				b.Write(src[last:e.off])
				b.WriteString(e.text)
				last = e.off
			}
			b.Write(src[last:])
			b.WriteString(used)
			o := filepath.Join(work, fmt.Sprintf("ov%d.go", len(overlay)))
			if err := os.WriteFile(o, b.Bytes(), 0644); err != nil {
				c.Fatal("%v", err)
			}
			overlay[n] = o
		}
	}
	vf := filepath.Join(work, "vord.go")
	_ = os.WriteFile(vf, []byte(vord), 0644)
	overlay[filepath.Join(repo, "pkg/vordverif/vord.go")] = vf
	ob, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	of := filepath.Join(work, "overlay.json")
	_ = os.WriteFile(of, ob, 0644)
	bin := filepath.Join(work, "p06x")
	cmd := exec.Command("go", "build", "-tags", "p06x", "-overlay", of, "-o", bin, "./cmd/p06x")
	cmd.Dir = filepath.Join(c.Root, "harness")
	if b, err := cmd.CombinedOutput(); err != nil {
		c.Fatal("the instrumented tree does not build: %v\n%s", err, b)
	}
	c.Logf("%d iterations over maps instrumented", site)

	// workers
	const shards = 8
	type result struct {
		Runs, Points, Deviations, Histories int
		States                              []string
		Bad                                 [][2]string
		Capped                              bool
		Base                                map[string]string
		Samples                             []string
	}
	var mu sync.Mutex
	res := make([]result, 0)
	var wg sync.WaitGroup
	launch := func(args []string, env []string, dir string) result {
		w := exec.Command(bin, args...)
		tmp, err := os.MkdirTemp(work, "w")
		if err != nil {
			c.Fatal("%v", err)
		}
		defer os.RemoveAll(tmp)
		w.Env = append(append(os.Environ(), "TMPDIR="+tmp, "VERIF_WORK="+tmp), env...)
		w.Dir = dir
		w.Stderr = os.Stderr
		b, err := w.Output()
		var r result
		if err != nil {
			c.Fatal("worker %v: %v %s", args, err, b)
		}
		if err := json.Unmarshal(b, &r); err != nil {
			c.Fatal("worker %v: %v %s", args, err, b)
		}
		return r
	}
	limit := fmt.Sprintf("%d", int(c.Deadline.Sub(c.Start).Seconds())-60)
	for i := 0; i < shards; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := launch([]string{"orders", fmt.Sprint(i), fmt.Sprint(shards), c.Tier, limit}, nil, "/")
			mu.Lock()
			res = append(res, r)
			mu.Unlock()
		}()
	}
	wg.Wait()
	var points, dev, hist int
	for _, r := range res {
		c.Transitions += int64(r.Runs)
		c.Traces += int64(r.Runs)
		points += r.Points
		dev += r.Deviations
		hist += r.Histories
		for _, s := range r.States {
			c.State(s)
		}
		for _, b := range r.Bad {
			c.Violate(b[0], b[1])
		}
		for _, s := range r.Samples {
			c.Sample(s)
		}
		if r.Capped {
			c.NotExhaustive("time limit of the exploration of orders")
		}
	}
	// separate runs: other process, environment, directory, clock; the maps in their native, random order
	base := launch([]string{"plain", "0"}, nil, "/").Base
	for i := 1; i <= c.Pick(8, 40); i++ {
		d := filepath.Join(work, fmt.Sprintf("cwd%d", i))
		_ = os.MkdirAll(d, 0755)
		r := launch([]string{"plain", fmt.Sprint(i)}, []string{"TZ=Asia/Tokyo", "LANG=tr_TR", "HOME=" + d, "USER=u" + fmt.Sprint(i), "GOMAXPROCS=" + fmt.Sprint(i%8+1)}, d).Base
		c.Transitions += int64(len(r))
		c.Traces += int64(len(r))
		for k, v := range base {
			if r[k] != v {
				c.Violate("run:"+k, fmt.Sprintf("%s: two runs of the compiler differ:\n%s", k, diff(v, r[k])))
			}
		}
	}
	c.Extra["map_iterations_in_source"] = sites
	c.Extra["choice_points"] = points
	c.Extra["deviations_explored"] = dev
	c.Extra["build_histories"] = hist
	c.Assumptions = []string{"iteration order deviates from the sorted order at no more than the stated number of iterations at a time, plus all-reversed and per-site reversed runs"}
	c.Finish()
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			var l string
			if i < len(y) {
				l = y[i]
			}
			return fmt.Sprintf("line %d\n- %s\n+ %s", i+1, x[i], l)
		}
	}
	return "longer"
}
