// P23: the command line. The tool is built from the repository and run for every combination of the values of its
// arguments, in several places, spelled in several ways; what it did to the file system is compared with what the
// arguments ask for.
package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
)

func main() {
	guard.Main("P23", func(c *ev.Check, g *guard.Guard) { run(c, g) }, func(kind byte, data string) {})
}

const head = "package go = \"%s\"\npackage java = \"com.%s\"\n"

func schema(pkg, body string) string { return fmt.Sprintf(head, pkg, pkg) + body }

// the tree every run starts from, below a root of its own; the working directory is one of its directories.
var tree = map[string]string{
	"w/p/a.hbuf":          schema("pa", "import \"c.hbuf\"\nenum E {\n x = 0\n}\ndata A {\n int32 a = 1\n C? c = 2\n E e = 3\n}\nserver S {\n A get(A req) = 1\n}\n"),
	"w/p/c.hbuf":          schema("pc", "data C {\n string s = 1\n}\n"),
	"w/p/q/b.hbuf":        schema("pb", "import \"../c.hbuf\"\ndata B : C = 1 {\n int64 b = 1\n}\n"),
	"w/bad/syntax.hbuf":   schema("ps", "data A {\n int32 a 1\n}\n"),
	"w/bad/type.hbuf":     schema("pt", "data A {\n Missing a = 1\n}\n"),
	"w/bad/imp.hbuf":      schema("pi", "import \"gone.hbuf\"\ndata A {\n int32 a = 1\n}\n"),
	"w/bad/half/a.hbuf":   schema("ph", "data A {\n int32 a = 1\n}\n"),
	"w/bad/half/z.hbuf":   schema("ph", "data A {\n int32 a = 1\n"),
	"w/bad/two/a.hbuf":    schema("pw", "data A {\n int32 a = 1\n}\n"),
	"w/bad/two/z.hbuf":    schema("pw", "data Z {\n Missing a = 1\n}\n"),
	"w/bad/dep/a.hbuf":    schema("pd", "import \"d/z.hbuf\"\ndata A {\n int32 a = 1\n}\n"),
	"w/bad/dep/d/z.hbuf":  schema("pd", "data Z {\n Missing a = 1\n}\n"),
	"w/odd/up.hbuf":       "package go = \"../../esc\"\npackage java = \"....esc\"\ndata A {\n int32 a = 1\n}\n",
	"w/odd/abs.hbuf":      "package go = \"/abs.p\"\npackage java = \"/abs\"\ndata A {\n int32 a = 1\n}\n",
	"w/odd/sp ace.hbuf":   schema("sp", "data A {\n int32 a = 1\n}\n"),
	"w/odd/x.hbuf.hbuf":   schema("xx", "data A {\n int32 a = 1\n}\n"),
	"w/odd/note.txt":      "no schema\n",
	"w/keep/old.txt":      "old\n",
	"w/keep/pa/a.data.go": "stale, and longer than what will be written: " + strings.Repeat("x", 20000),
	"w/keep/a.data.ts":    "stale",
	"w/file":              "a file\n",
	"other.txt":           "other\n",
}

type arg struct {
	name string // spelled in the key
	give bool
	val  string // "$R" is the root of the run
}

// what -i selects, as files below the root; nil is nothing
type input struct {
	arg
	pattern string // below the root; "" is not a usable input
	bad     string // what the message has to mention
}

type output struct {
	arg
	dir string // below the root
	bad bool   // it cannot be written to
}

func run(c *ev.Check, g *guard.Guard) {
	par := g.Par(c)
	bin := filepath.Join(os.Getenv("VERIF_WORK"), "hbuf")
	b := exec.Command("go", "build", "-o", bin, "./cmd")
	b.Dir = ev.Repo()
	b.Env = append(os.Environ(), "GOFLAGS=")
	if o, err := b.CombinedOutput(); err != nil {
		c.Fatal("the command does not build: %v\n%s", err, o)
	}
	cwds := []string{"w", "w/p", "w/p/q"}
	type cse struct {
		cwd        string
		in         input
		out        output
		typ, pack  arg
		form       string
		pre, post  []string
		note, want string
	}
	rel := func(cwd, p string) string {
		r, err := filepath.Rel("/"+cwd, "/"+p)
		if err != nil {
			panic(err)
		}
		return r
	}
	outs := func(cwd string) []output {
		o := []output{
			{arg{"absent", false, ""}, "", true},
			{arg{"empty", true, ""}, "", true},
			{arg{"relative", true, rel(cwd, "w/gen")}, "w/gen", false},
			{arg{"absolute", true, "$R/w/gen"}, "w/gen", false},
			{arg{"nested", true, rel(cwd, "w/new/very/deep")}, "w/new/very/deep", false},
			{arg{"slash", true, "$R/w/gen/"}, "w/gen", false},
			{arg{"here", true, "."}, cwd, false},
			{arg{"used", true, rel(cwd, "w/keep")}, "w/keep", false},
			{arg{"file", true, "$R/w/file"}, "w/file", true},
			{arg{"below file", true, "$R/w/file/x"}, "w/file/x", true},
		}
		if c.Thorough() {
			o = append(o, output{arg{"dots", true, "./x/../" + rel(cwd, "w/gen")}, "w/gen", false},
				output{arg{"parent", true, ".."}, filepath.Dir(cwd), false},
				output{arg{"in input", true, "$R/w/p"}, "w/p", false},
				output{arg{"spaces", true, "$R/w/my out"}, "w/my out", false},
				output{arg{"dash", true, "-gen"}, cwd + "/-gen", false},
				output{arg{"schema", true, "$R/w/p/a.hbuf"}, "w/p/a.hbuf", true})
		}
		return o
	}
	ins := func(cwd string) []input {
		i := []input{
			{arg{"absent", false, ""}, "", "input"},
			{arg{"empty", true, ""}, "", "input"},
			{arg{"relative", true, rel(cwd, "w/p/a.hbuf")}, "w/p/a.hbuf", ""},
			{arg{"absolute", true, "$R/w/p/c.hbuf"}, "w/p/c.hbuf", ""},
			{arg{"pattern", true, "$R/w/p/*.hbuf"}, "w/p/*.hbuf", ""},
			{arg{"everything", true, rel(cwd, "w/p/x")[:len(rel(cwd, "w/p/x"))-1] + "*"}, "w/p/*", ""},
			{arg{"missing", true, "$R/w/p/gone.hbuf"}, "", "gone.hbuf"},
			{arg{"missing directory", true, "$R/w/gone/a.hbuf"}, "", "gone"},
			{arg{"directory", true, "$R/w/p"}, "", "p"},
			{arg{"no match", true, rel(cwd, "w/odd/z*.hbuf")}, "", "z*.hbuf"},
			{arg{"no schema", true, "$R/w/odd/note.txt"}, "", "note.txt"},
			{arg{"syntax", true, "$R/w/bad/syntax.hbuf"}, "", "syntax.hbuf:4"},
			{arg{"unknown type", true, "$R/w/bad/type.hbuf"}, "", "type.hbuf:4"},
			{arg{"unknown import", true, "$R/w/bad/imp.hbuf"}, "", "imp.hbuf:3"},
			{arg{"one of two broken", true, rel(cwd, "w/bad/half") + "/*.hbuf"}, "", "z.hbuf:"},
			{arg{"one of two wrong", true, "$R/w/bad/two/*.hbuf"}, "", "z.hbuf:"},
			{arg{"wrong import", true, rel(cwd, "w/bad/dep/a.hbuf")}, "", "z.hbuf:"},
			{arg{"odd package", true, "$R/w/odd/up.hbuf"}, "w/odd/up.hbuf", ""},
			{arg{"odd names", true, "$R/w/odd/*.hbuf"}, "w/odd/*.hbuf", ""},
		}
		if c.Thorough() {
			i = append(i, input{arg{"dots", true, "./" + rel(cwd, "w/p/q") + "/../a.hbuf"}, "w/p/a.hbuf", ""},
				input{arg{"spaces", true, "$R/w/odd/sp ace.hbuf"}, "w/odd/sp ace.hbuf", ""},
				input{arg{"double suffix", true, "$R/w/odd/x.hbuf.hbuf"}, "w/odd/x.hbuf.hbuf", ""},
				input{arg{"absolute package", true, rel(cwd, "w/odd/abs.hbuf")}, "w/odd/abs.hbuf", ""},
				input{arg{"below a file", true, "$R/w/file/a.hbuf"}, "", "file"},
				input{arg{"bracket", true, "$R/w/p/[a.hbuf"}, "", "[a.hbuf"},
				input{arg{"any directory", true, "$R/w/*/a.hbuf"}, "", "a.hbuf"})
		}
		return i
	}
	typs := []arg{{"absent", false, ""}, {"empty", true, ""}, {"go", true, "go"}, {"ts", true, "ts"}, {"dart", true, "dart"}, {"java", true, "java"},
		{"upper", true, "GO"}, {"unknown", true, "php"}, {"space", true, "go "}, {"list", true, "go,ts"}}
	packs := []arg{{"absent", false, ""}, {"empty", true, ""}, {"plain", true, "m"}, {"slash", true, "x/y/"}}
	forms := []string{"-k v", "-k=v", "--k v", "--k=v"}

	var cs []cse
	for _, cwd := range cwds {
		for _, in := range ins(cwd) {
			for _, out := range outs(cwd) {
				for _, t := range typs {
					for pi, p := range packs {
						if pi > 1 && t.val != "go" && !c.Thorough() {
							continue
						}
						if cwd != "w" && t.val != "go" && t.val != "ts" && t.val != "php" && !c.Thorough() {
							continue
						}
						for fi, f := range forms {
							if fi > 0 && (pi != 2 || !c.Thorough()) && !(in.name == "relative" && out.name == "relative" && t.val != "") {
								continue
							}
							cs = append(cs, cse{cwd: cwd, in: in, out: out, typ: t, pack: p, form: f})
						}
					}
				}
			}
		}
	}
	// other arguments before and after, with everything else in order or not
	type extra struct {
		pre, post  []string
		note, want string
	}
	xs := []extra{
		{[]string{"go"}, nil, "word first", "go"},
		{nil, []string{"more.hbuf"}, "word last", "more.hbuf"},
		{nil, []string{""}, "empty word last", "argument"},
		{nil, []string{"--", "-o"}, "after the end of flags", "-o"},
		{nil, []string{"--"}, "end of flags", ""},
		{[]string{"-q"}, nil, "unknown flag first", "-q"},
		{nil, []string{"-q"}, "unknown flag last", "-q"},
		{nil, []string{"--out=x"}, "unknown long flag", "out"},
		{nil, []string{"-o"}, "flag without value", "-o"},
		{nil, []string{"-i"}, "input without value", "-i"},
		{nil, []string{"-"}, "dash", "-"},
		{nil, []string{"-=x"}, "bad flag", "-=x"},
		{nil, []string{"-v=maybe"}, "bad truth value", "maybe"},
		{nil, []string{"-v=false"}, "no version", ""},
		{[]string{"-v"}, nil, "version first", "version"},
		{nil, []string{"-v"}, "version last", "version"},
		{nil, []string{"-h"}, "help", "help"},
		{[]string{"-o", "$R/w/first"}, nil, "output twice", ""},
		{[]string{"-t", "php"}, nil, "type twice", ""},
		{[]string{"-i", "$R/gone"}, nil, "input twice", ""},
	}
	for _, cwd := range cwds {
		for ii, in := range ins(cwd) {
			for oi, out := range outs(cwd) {
				for _, t := range typs {
					if !(ii == 0 || in.name == "relative" || in.name == "syntax") || !(oi == 0 || out.name == "nested" || out.name == "file") {
						continue
					}
					for _, x := range xs {
						cs = append(cs, cse{cwd: cwd, in: in, out: out, typ: t, pack: packs[3], form: forms[0], pre: x.pre, post: x.post, note: x.note, want: x.want})
					}
				}
			}
		}
	}

	// what a target generates from an input, from the same sources in process, into an empty directory
	want := map[string]map[string]string{}
	for _, cwd := range cwds[:1] {
		for _, in := range ins(cwd) {
			for _, t := range hb.Targets {
				for _, p := range packs {
					if in.pattern == "" {
						continue
					}
					root := hb.Scratch()
					hb.WriteTree(root, tree)
					o := filepath.Join(root, "o", "u", "t")
					err, pan := hb.Call(o, filepath.Join(root, in.pattern), t, p.val)
					if err != nil || pan != "" {
						c.Violate("input "+in.name+" "+t, fmt.Sprintf("input %q (%s) does not build: %v %s\n%s", in.pattern, t, err, pan, hb.Text(tree)))
					}
					w := hb.ReadTree(o)
					if len(w) == 0 {
						c.Violate("input "+in.name+" "+t, fmt.Sprintf("input %q generates nothing for %s", in.pattern, t))
					}
					want[in.pattern+"\x00"+t+"\x00"+p.val] = w
					_ = os.RemoveAll(root)
				}
			}
		}
	}
	// The tool runs as a user who can write to nothing but the tree of its run, as it may write where it should not.
	open(os.Getenv("VERIF_WORK"))
	me := exec.Command(bin, "-v")
	me.SysProcAttr = nobody
	if err := me.Run(); err != nil {
		nobody = nil
		c.Extra["user"] = "the tool runs as the user of the check, without packages that name absolute paths: " + err.Error()
	}
	par("runs", len(cs), func(w, i int) {
		x := cs[i]
		if nobody == nil && strings.HasPrefix(x.in.name, "odd") {
			return
		}
		root := hb.Scratch()
		defer os.RemoveAll(root)
		hb.WriteTree(root, tree)
		open(root)
		var args []string
		add := func(flag string, a arg) {
			if !a.give {
				return
			}
			v := strings.ReplaceAll(a.val, "$R", root)
			dash := strings.Repeat("-", strings.Count(x.form, "-"))
			if strings.Contains(x.form, "=") {
				args = append(args, dash+flag+"="+v)
			} else {
				args = append(args, dash+flag, v)
			}
		}
		for _, a := range x.pre {
			args = append(args, strings.ReplaceAll(a, "$R", root))
		}
		switch i % 3 { // the order of flags means nothing
		case 0:
			add("i", x.in.arg)
			add("o", x.out.arg)
			add("t", x.typ)
			add("p", x.pack)
		case 1:
			add("p", x.pack)
			add("t", x.typ)
			add("o", x.out.arg)
			add("i", x.in.arg)
		case 2:
			add("t", x.typ)
			add("i", x.in.arg)
			add("p", x.pack)
			add("o", x.out.arg)
		}
		for _, a := range x.post {
			args = append(args, strings.ReplaceAll(a, "$R", root))
		}
		key := fmt.Sprintf("in %s: -i %s -o %s -t %s -p %s %q %s", x.cwd, x.in.name, x.out.name, x.typ.name, x.pack.name, x.form, x.note)
		g.Slots[w].Begin(0, key)
		defer g.Slots[w].End()
		code, msg := execute(bin, filepath.Join(root, x.cwd), args)
		c.Step(1)
		if c.State(key) {
			c.Trace(1)
		}
		if i%1999 == 0 {
			c.Sample(fmt.Sprintf("%s: status %d, %s", key, code, strings.TrimSpace(strings.ReplaceAll(msg, root, "$R"))))
		}
		bad := func(f string, a ...any) {
			t := fmt.Sprintf(f, a...)
			c.Violate(key, strings.ReplaceAll(fmt.Sprintf("hbuf %q in %s: %s\nstatus %d, output:\n%s\ntree:\n%s", args, x.cwd, t, code, msg, hb.Text(tree)), root, "$R"))
		}
		if strings.Contains(msg, "panic:") || strings.Contains(msg, "goroutine ") || code < 0 || strings.Contains(msg, "fatal error:") {
			bad("it crashes")
			return
		}
		// what is asked for
		var wrong []string // any of these has to be mentioned; empty: a build
		switch {
		case x.want == "version":
			// only the version, or, with a problem in what is read before it, that problem
			if d := diff(tree, hb.ReadTree(root)); d != "" || code != 0 || !strings.Contains(msg, "0.0.1") {
				bad("the version is asked for: %s", d)
			}
			return
		case x.want == "help":
			if d := diff(tree, hb.ReadTree(root)); d != "" || !strings.Contains(msg, "-i") || !strings.Contains(msg, "-o") || !strings.Contains(msg, "-t") {
				bad("help is asked for: %s", d)
			}
			return
		}
		if x.want != "" {
			wrong = append(wrong, x.want)
		}
		outDir, inPat, typ := x.out.dir, x.in.pattern, x.typ.val
		good := map[string]bool{"go": true, "ts": true, "dart": true, "java": true}[typ] && x.typ.give
		switch x.note {
		case "output twice":
			if !x.out.give {
				outDir, x.out.bad = "w/first", false
			}
		case "type twice":
			if !x.typ.give {
				typ = "php"
				x.typ.give = true
			}
		case "input twice":
			if !x.in.give {
				x.in.bad = "gone"
				x.in.give = true
			}
		}
		if !x.out.give && outDir == "" || x.out.give && x.out.val == "" {
			wrong = append(wrong, "output", "-o")
		} else if x.out.bad {
			wrong = append(wrong, "file", "a.hbuf", "directory")
		}
		if inPat == "" {
			wrong = append(wrong, x.in.bad)
			if !x.in.give || x.in.val == "" {
				wrong = append(wrong, "-i")
			}
		}
		if !good {
			wrong = append(wrong, "type", "-t")
			if typ != "" {
				wrong = append(wrong, typ)
			}
		}
		if len(wrong) > 0 {
			if code == 0 {
				bad("it reports success although something is wrong (%q)", wrong)
			}
			m := strings.ToLower(strings.ReplaceAll(msg, root, "$R"))
			ok := false
			for _, n := range wrong {
				ok = ok || strings.Contains(m, strings.ToLower(n))
			}
			if !ok {
				bad("the message does not say what is wrong: none of %q", wrong)
			}
			if d := diff(tree, hb.ReadTree(root)); d != "" {
				bad("it fails but changes files: %s", d)
			}
			return
		}
		if code != 0 {
			bad("everything is in order but it fails")
			return
		}
		exp := map[string]string{}
		for n, t := range tree {
			exp[n] = t
		}
		for n, t := range want[inPat+"\x00"+typ+"\x00"+x.pack.val] {
			exp[filepath.Join(outDir, n)] = t
		}
		if d := diff(exp, hb.ReadTree(root)); d != "" {
			bad("%s", d)
		}
	})
}

var nobody = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}

// open lets everybody write below a directory.
func open(dir string) {
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			_ = os.Chmod(p, 0777)
		} else if err == nil {
			m := os.FileMode(0666)
			if filepath.Base(p) == "hbuf" {
				m = 0777
			}
			_ = os.Chmod(p, m)
		}
		return nil
	})
}

func execute(bin, dir string, args []string) (int, string) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = nobody
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := cmd.Start(); err != nil {
		return -1, "cannot be started: " + err.Error()
	}
	t := time.AfterFunc(20*time.Second, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	t.Stop()
	return cmd.ProcessState.ExitCode(), o.String()
}

func diff(want, got map[string]string) string {
	var ns []string
	for n := range want {
		ns = append(ns, n)
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		w, a := want[n]
		g, b := got[n]
		switch {
		case !b:
			return n + " is missing"
		case !a:
			return n + " is written"
		case w != g:
			return n + " differs: " + hb.FirstDiff(w, g)
		}
	}
	return ""
}
