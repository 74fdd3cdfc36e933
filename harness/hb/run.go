package hb

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"hbuf/pkg/ast"
	"hbuf/pkg/build"
	"hbuf/pkg/dart"
	"hbuf/pkg/golang"
	"hbuf/pkg/java"
	"hbuf/pkg/token"
	ts "hbuf/pkg/typescript"
)

// Targets are the output languages.
var Targets = []string{"go", "ts", "dart", "java"}

func init() {
	build.AddBuildType("dart", dart.Build)
	build.AddBuildType("go", golang.Build)
	build.AddBuildType("java", java.Build)
	build.AddBuildType("ts", ts.Build)
	build.AddBuildType("none", func(file *ast.File, fset *token.FileSet, param *build.Param) error { return nil })
}

// Result of one build.
type Result struct {
	Out   map[string]string // relative path -> content
	Err   error
	Panic string // non-empty when the compiler crashed
}

// Brief describes the outcome.
func (r *Result) Brief() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	return fmt.Sprintf("ok (%d files)", len(r.Out))
}

var dirSeq int64
var baseOnce sync.Once
var baseDir string

// Scratch makes a new empty directory below the check's work directory.
func Scratch() string {
	baseOnce.Do(func() {
		w := os.Getenv("VERIF_WORK")
		if w == "" {
			w, _ = os.MkdirTemp("", "verif-")
		}
		baseDir = w
	})
	d := filepath.Join(baseDir, "s"+strconv.FormatInt(atomic.AddInt64(&dirSeq, 1), 10))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// WriteTree writes files below dir.
func WriteTree(dir string, files map[string]string) {
	for n, s := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			panic(err)
		}
	}
}

// ReadTree reads all regular files below dir.
func ReadTree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, e := os.ReadFile(p)
		if e == nil {
			r, _ := filepath.Rel(dir, p)
			out[r] = string(b)
		}
		return nil
	})
	return out
}

// Call runs the compiler in process and turns a crash into a result.
func Call(out, in, typ, pack string) (err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e) + "\n" + firstFrames(string(debug.Stack()))
		}
	}()
	err = build.Build(out, in, typ, pack)
	return
}

func firstFrames(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.Contains(x, "hbuf/pkg") && !strings.HasPrefix(x, "\t") {
			l = append(l, strings.TrimSpace(x))
		}
	}
	if len(l) > 4 {
		l = l[:4]
	}
	return strings.Join(l, "\n")
}

// Run compiles files (relative name -> text) with the pattern for one target.
func Run(files map[string]string, pattern, typ, pack string) *Result {
	d := Scratch()
	defer os.RemoveAll(d)
	WriteTree(filepath.Join(d, "in"), files)
	return RunIn(d, pattern, typ, pack)
}

// RunIn compiles d/in into d/out.<typ>.
func RunIn(d, pattern, typ, pack string) *Result {
	out := filepath.Join(d, "out."+typ)
	_ = os.MkdirAll(out, 0755)
	r := &Result{}
	r.Err, r.Panic = Call(out, filepath.Join(d, "in", pattern), typ, pack)
	r.Out = ReadTree(out)
	return r
}

// RunModel compiles model files with pattern *.hbuf.
func RunModel(files []File, typ string) *Result {
	m := map[string]string{}
	for i := range files {
		m[files[i].Name] = files[i].Render()
	}
	return Run(m, "*.hbuf", typ, "gen/")
}

// Text joins the files of a schema for reports.
func Text(files map[string]string) string {
	var ns []string
	for n := range files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var b strings.Builder
	for _, n := range ns {
		fmt.Fprintf(&b, "--- %s\n%s\n", n, files[n])
	}
	return b.String()
}

// ModelText renders model files for reports.
func ModelText(files []File) string {
	m := map[string]string{}
	for i := range files {
		m[files[i].Name] = files[i].Render()
	}
	return Text(m)
}

var posRe = regexp.MustCompile(`(?s)^(.*?):(\d+)(?::(\d+))?: `)

// ErrPos splits a positioned error text.
func ErrPos(err error) (file string, line, col int, ok bool) {
	m := posRe.FindStringSubmatch(err.Error())
	if m == nil {
		return
	}
	line, _ = strconv.Atoi(m[2])
	if m[3] != "" {
		col, _ = strconv.Atoi(m[3])
	}
	return m[1], line, col, true
}

// Parallel runs f(i) for i in [0,n) on all CPUs until stop returns true.
func Parallel(n int, stop func() bool, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || stop() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// FirstDiff shows the first line in which two texts differ.
func FirstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			var l string
			if i < len(y) {
				l = y[i]
			}
			return fmt.Sprintf("line %d\n- %s\n+ %s", i+1, x[i], l)
		}
	}
	return "longer"
}
