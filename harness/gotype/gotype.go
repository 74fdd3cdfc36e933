// Package gotype type-checks generated Go packages in process, against the runtime in /verif/runtime/go.
package gotype

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Checker shares the packages that generated code imports.
type Checker struct {
	root string
	mod  string
	mu   sync.Mutex
	fset *token.FileSet
	std  types.Importer
	done map[string]*types.Package
}

// New makes a checker; root is /verif.
func New(root string) *Checker {
	c := &Checker{root: root, fset: token.NewFileSet(), done: map[string]*types.Package{}}
	c.std = importer.ForCompiler(c.fset, "source", nil)
	b, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err == nil {
		c.mod = strings.TrimSpace(string(b))
	}
	return c
}

// Import resolves a package outside the generated ones.
func (c *Checker) Import(p string) (*types.Package, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.load(p)
}

type locked struct{ c *Checker }

func (l locked) Import(p string) (*types.Package, error) { return l.c.load(p) }

func (c *Checker) load(p string) (*types.Package, error) {
	if q, ok := c.done[p]; ok {
		return q, nil
	}
	var dir string
	const rt = "github.com/wskfjtheqian/hbuf_golang/"
	switch {
	case strings.HasPrefix(p, rt):
		dir = filepath.Join(c.root, "runtime/go", strings.TrimPrefix(p, rt))
	case p == "github.com/shopspring/decimal":
		m, _ := filepath.Glob(filepath.Join(c.mod, "github.com/shopspring/decimal@*"))
		sort.Strings(m)
		if len(m) == 0 {
			return nil, fmt.Errorf("no package %s", p)
		}
		dir = m[len(m)-1]
	case strings.Contains(p, "."):
		return nil, fmt.Errorf("package %s is not in the runtime", p)
	default:
		q, err := c.std.Import(p)
		if err == nil {
			c.done[p] = q
		}
		return q, err
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, fmt.Errorf("package %s is not in the runtime", p)
	}
	var fs []*ast.File
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(c.fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	conf := types.Config{Importer: locked{c}}
	q, err := conf.Check(p, c.fset, fs, nil)
	if err != nil {
		return nil, err
	}
	c.done[p] = q
	return q, nil
}

// Result is the checked packages of one build.
type Result struct {
	Errs []string
	Pkgs map[string]*types.Package
}

type session struct {
	c     *Checker
	pre   string
	out   map[string]string
	dirs  map[string][]string
	fset  *token.FileSet
	state map[string]int
	res   *Result
}

// Check type-checks the files of a build; prefix is the import path of the output directory, with a final slash.
func (c *Checker) Check(out map[string]string, prefix string) *Result {
	s := &session{c: c, pre: prefix, out: out, dirs: map[string][]string{}, fset: token.NewFileSet(), state: map[string]int{}, res: &Result{Pkgs: map[string]*types.Package{}}}
	for n := range out {
		if strings.HasSuffix(n, ".go") {
			s.dirs[path.Dir(n)] = append(s.dirs[path.Dir(n)], n)
		}
	}
	var ds []string
	for d := range s.dirs {
		sort.Strings(s.dirs[d])
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		_, _ = s.dir(d)
	}
	return s.res
}

func (s *session) err(f string, a ...interface{}) {
	s.res.Errs = append(s.res.Errs, fmt.Sprintf(f, a...))
}

func (s *session) dir(d string) (*types.Package, error) {
	if p, ok := s.res.Pkgs[d]; ok {
		return p, nil
	}
	if s.state[d] == 1 {
		return nil, fmt.Errorf("import cycle through %s", d)
	}
	s.state[d] = 1
	var fs []*ast.File
	name := ""
	for _, n := range s.dirs[d] {
		f, err := parser.ParseFile(s.fset, n, s.out[n], parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			s.err("%v", err)
			continue
		}
		if name == "" {
			name = f.Name.Name
		} else if name != f.Name.Name {
			s.err("%s: packages %s and %s in one directory", n, name, f.Name.Name)
		}
		for _, g := range f.Comments { // go/types reads no directives, which the compiler refuses where they do not belong
			for _, x := range g.List {
				if strings.HasPrefix(x.Text, "//go:") || strings.HasPrefix(x.Text, "//line ") || strings.HasPrefix(x.Text, "/*line ") {
					s.err("%s: a comment is the directive %q", s.fset.Position(x.Pos()), x.Text)
				}
			}
		}
		fs = append(fs, f)
	}
	conf := types.Config{Importer: s, Error: func(err error) { s.err("%v", err) }}
	p, _ := conf.Check(s.pre+d, s.fset, fs, nil)
	s.state[d] = 2
	s.res.Pkgs[d] = p
	return p, nil
}

func (s *session) Import(p string) (*types.Package, error) {
	if strings.HasPrefix(p, s.pre) {
		d := strings.TrimPrefix(p, s.pre)
		if _, ok := s.dirs[d]; !ok {
			return nil, fmt.Errorf("no package %s was generated", p)
		}
		return s.dir(d)
	}
	return s.c.Import(p)
}
