// P05: every small file tree, import graph and input pattern selects exactly the right files, once each.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"hbuf/pkg/ast"
	"hbuf/pkg/build"
	"hbuf/pkg/token"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
)

// node is a file of a tree: what it imports, as spelled, and the types it uses.
type node struct {
	Path    string // relative to the root
	Imports []string
	Uses    []string // types of other files
	Raw     string   // literal content instead
}

type job struct {
	Space string
	Nodes []node
	In    string // relative to the root, as spelled after the root
	Cwd   string // when set: run there with In relative to it
	Pack  map[string]string
}

func stem(p string) string { return strings.TrimSuffix(filepath.Base(p), ".hbuf") }
func typ(p string) string  { return "T" + stem(p) }

func (n node) text(root, pack string) string {
	if n.Raw != "" {
		return n.Raw
	}
	if pack == "" {
		pack = "p"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package go = \"%s\"\npackage java = \"p\"\n", pack)
	for _, i := range n.Imports {
		fmt.Fprintf(&b, "import \"%s\"\n", strings.ReplaceAll(i, "ROOT", root))
	}
	fmt.Fprintf(&b, "data %s {\n    int32 id = 1\n", typ(n.Path))
	for k, u := range n.Uses {
		fmt.Fprintf(&b, "    %s u%d = %d\n", u, k, k+2)
	}
	b.WriteString("}\n")
	return b.String()
}

// want is the reference selection.
type want struct {
	Files map[string]bool // relative paths
	Bad   map[string]bool // "file:line" of the imports that do not exist; empty file when the input is wrong
	Use   map[string]bool // files that use an unknown type
}

func match(pat, name string) bool {
	parts := strings.Split(pat, "*")
	if len(parts) == 1 {
		return pat == name
	}
	if !strings.HasPrefix(name, parts[0]) {
		return false
	}
	name = name[len(parts[0]):]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(name, p)
		if i < 0 {
			return false
		}
		name = name[i+len(p):]
	}
	return strings.HasSuffix(name, parts[len(parts)-1])
}

func (j *job) want(root string) want {
	w := want{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	by := map[string]*node{}
	for i := range j.Nodes {
		by[j.Nodes[i].Path] = &j.Nodes[i]
	}
	in := filepath.Clean(filepath.Join("/", j.Cwd, j.In))[1:]
	dir, pat := filepath.Dir(in), filepath.Base(in)
	var todo []string
	for i := range j.Nodes {
		p := j.Nodes[i].Path
		if dir != "." && !strings.HasPrefix(p, dir+"/") || !strings.HasSuffix(p, ".hbuf") || !match(pat, filepath.Base(p)) {
			continue
		}
		todo = append(todo, p)
	}
	if len(todo) == 0 {
		w.Bad[""] = true
		return w
	}
	direct := map[string]map[string]bool{}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if w.Files[p] {
			continue
		}
		w.Files[p] = true
		direct[p] = map[string]bool{p: true}
		for k, im := range by[p].Imports {
			var t string
			if strings.HasPrefix(im, "ROOT/") {
				t = filepath.Clean(im[5:])
			} else {
				t, _ = filepath.Rel("/s/r", filepath.Join("/s/r", filepath.Dir(p), im))
			}
			if by[t] == nil || !strings.HasSuffix(t, ".hbuf") {
				w.Bad[fmt.Sprintf("%s:%d", p, 3+k)] = true
				continue
			}
			direct[p][t] = true
			todo = append(todo, t)
		}
	}
	for p := range w.Files {
		for _, u := range by[p].Uses {
			ok := false
			for t := range direct[p] {
				if typ(t) == u {
					ok = true
				}
			}
			if !ok {
				w.Use[p] = true
			}
		}
	}
	return w
}

var probeMu sync.Mutex
var probed = map[string][]string{}

func init() {
	build.AddBuildType("probe", func(file *ast.File, fset *token.FileSet, param *build.Param) error {
		probeMu.Lock()
		defer probeMu.Unlock()
		d := filepath.Dir(param.GetOut())
		probed[d] = append(probed[d], file.Path+" -> "+filepath.Base(param.GetOut()))
		return nil
	})
}

func run(j *job, target string) (bad string) {
	d := hb.Scratch()
	defer os.RemoveAll(d)
	root := filepath.Join(d, "r")
	_ = os.MkdirAll(filepath.Join(root, "in"), 0755)
	files := map[string]string{}
	for _, n := range j.Nodes {
		files[n.Path] = n.text(root, j.Pack[n.Path])
	}
	hb.WriteTree(root, files)
	in := root + "/" + j.In
	if j.Cwd != "" {
		if err := os.Chdir(filepath.Join(root, j.Cwd)); err != nil {
			panic(err)
		}
		in = j.In
		defer os.Chdir("/")
	}
	w := j.want(root)
	out := filepath.Join(d, "out")
	err, pan := hb.Call(out, in, target, "")
	got := hb.ReadTree(out)
	probeMu.Lock()
	seen := probed[out]
	delete(probed, out)
	probeMu.Unlock()
	if pan != "" {
		return "the compiler crashes: " + pan
	}
	if err != nil && (len(got) > 0 || len(seen) > 0) && j.Space != "collision" {
		return fmt.Sprintf("fails (%v) and still generates", err)
	}
	// unchanged input
	for n, s := range files {
		b, _ := os.ReadFile(filepath.Join(root, n))
		if string(b) != s {
			return "the input file " + n + " is changed"
		}
	}
	if j.Space == "collision" {
		if err != nil {
			return ""
		}
		n := 0
		for p, s := range got {
			if strings.Contains(p, "data") || strings.Contains(p, "Data") {
				n += strings.Count(s, "int32ID")
				for _, x := range j.Nodes {
					if strings.Contains(s, "M"+strings.ReplaceAll(strings.ReplaceAll(x.Path, "/", "X"), ".", "Y")) {
						n++
					}
				}
			}
		}
		if n < len(j.Nodes) {
			return fmt.Sprintf("succeeds with %d files although %d files need output: %v", n, len(j.Nodes), keys(got))
		}
		return ""
	}
	if len(w.Bad) > 0 || len(w.Use) > 0 {
		if err == nil {
			return fmt.Sprintf("succeeds although it should report %v %v", keysB(w.Bad), keysB(w.Use))
		}
		if w.Bad[""] {
			return ""
		}
		file, line, _, ok := hb.ErrPos(err)
		if len(w.Bad) == 0 {
			for p := range w.Use {
				if ok && strings.HasSuffix(file, "/"+p) {
					return ""
				}
			}
			return fmt.Sprintf("error %q, expected one in %v", err, keysB(w.Use))
		}
		for b := range w.Bad {
			i := strings.LastIndexByte(b, ':')
			if ok && filepath.Clean(file) == filepath.Join(root, b[:i]) && fmt.Sprint(line) == b[i+1:] {
				return ""
			}
			if ok && !filepath.IsAbs(file) && filepath.Join(root, j.Cwd, file) == filepath.Join(root, b[:i]) && fmt.Sprint(line) == b[i+1:] {
				return ""
			}
		}
		return fmt.Sprintf("error %q, expected one at %v", err, keysB(w.Bad))
	}
	if err != nil {
		return "fails: " + err.Error()
	}
	if target == "probe" {
		cnt := map[string]int{}
		for _, s := range seen {
			i := strings.Index(s, " -> ")
			p := s[:i]
			if !filepath.IsAbs(p) {
				p = filepath.Join(root, j.Cwd, p)
			}
			r, _ := filepath.Rel(root, p)
			cnt[r]++
			if filepath.Base(p) != s[i+4:] {
				return "output of " + p + " goes to " + s[i+4:]
			}
		}
		for p := range w.Files {
			if cnt[p] != 1 {
				return fmt.Sprintf("%s is generated %d times (all: %v)", p, cnt[p], seen)
			}
		}
		if len(cnt) != len(w.Files) {
			return fmt.Sprintf("generates %v instead of %v", seen, keysB(w.Files))
		}
		return ""
	}
	exp := map[string]string{}
	for p := range w.Files {
		s := stem(p)
		switch target {
		case "go":
			exp["p/"+s+".data.go"] = "type " + typ(p) + " struct"
		case "ts":
			exp[s+".data.ts"] = "class " + typ(p) + " "
		case "dart":
			exp[s+".data.dart"] = "class " + typ(p) + " "
		case "java":
			h := strings.ToUpper(s[:1]) + s[1:]
			exp[h+"Data.java"] = " " + typ(p)
			exp[h+"Enum.java"] = ""
			exp[h+"Server.java"] = ""
		}
	}
	for f, mark := range exp {
		s, ok := got[f]
		if !ok || !strings.Contains(s, mark) {
			return fmt.Sprintf("output %s is missing or lacks %q; outputs %v", f, mark, keys(got))
		}
	}
	for f := range got {
		if _, ok := exp[f]; !ok {
			return fmt.Sprintf("unexpected output %s", f)
		}
	}
	return ""
}

func keys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
func keysB(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func main() {
	guard.Main("P05", body, func(kind byte, data string) {
		var j job
		if json.Unmarshal([]byte(data), &j) != nil {
			os.Exit(3)
		}
		for _, t := range []string{"probe", "go", "ts", "dart", "java"} {
			if s := run(&j, t); strings.Contains(s, "crashes") {
				panic(s)
			}
		}
	})
}

func body(c *ev.Check, g *guard.Guard) {
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	js := jobs(c.Thorough())
	par := g.Par(c)
	spaces := map[string]int{}
	var mu sync.Mutex
	do := func(w, i int) {
		j := &js[i]
		b, _ := json.Marshal(j)
		g.Slots[w].Begin('J', string(b))
		bad := ""
		ts := []string{"probe", hb.Targets[i%4]}
		if j.Space == "collision" {
			ts = hb.Targets
		}
		for _, t := range ts {
			if bad = run(j, t); bad != "" {
				bad = "target " + t + ": " + bad
				break
			}
		}
		g.Slots[w].End()
		if bad != "" {
			c.Violate(string(b), bad+"\n"+string(b))
		}
		mu.Lock()
		spaces[j.Space]++
		mu.Unlock()
		c.Step(len(ts))
		c.Trace(len(ts))
		c.State(string(b))
	}
	var seq []int
	var conc []int
	for i := range js {
		if js[i].Cwd != "" {
			seq = append(seq, i)
		} else {
			conc = append(conc, i)
		}
	}
	par("trees", len(conc), func(w, i int) { do(w, conc[i]) })
	for _, i := range seq {
		if c.Stop() {
			break
		}
		do(0, i)
	}
	c.Extra["spaces"] = spaces
	for _, i := range []int{len(js) / 5, len(js) / 2, len(js) - 1} {
		b, _ := json.Marshal(js[i])
		c.Sample(string(b))
	}
}
