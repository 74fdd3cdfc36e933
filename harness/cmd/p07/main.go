// P07: histories of builds into one output directory, and faults at every point of writing.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"verif/harness/corpus"
	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
)

type unit struct {
	set    corpus.Set
	target string
}

func (u unit) name() string { return u.set.Name + "/" + u.target }

// variants of one schema: the same file names, other contents, so that files shrink, grow, vanish and reappear.
func variants() []corpus.Set {
	cut := func(s string, keep ...string) string {
		var out []string
		out = append(out, "package go = \"base\"\npackage java = \"com.base\"\n")
		for _, b := range strings.Split(s, "\n\n")[1:] {
			for _, k := range keep {
				if strings.Contains(b, k) {
					out = append(out, b)
					break
				}
			}
		}
		return strings.Join(out, "\n\n") + "\n"
	}
	b := ""
	for _, s := range corpus.Sets {
		if s.Name == "base" {
			for _, t := range s.Files {
				b = t
			}
		}
	}
	return []corpus.Set{
		{Name: "full", Files: map[string]string{"a.hbuf": b}},
		{Name: "enum", Files: map[string]string{"a.hbuf": cut(b, "enum Color")}},
		{Name: "data", Files: map[string]string{"a.hbuf": "package go = \"base\"\npackage java = \"com.base\"\ndata Base {\n int32 a = 1\n}\n"}},
		{Name: "serv", Files: map[string]string{"a.hbuf": "package go = \"base\"\npackage java = \"com.base\"\ndata Q {\n}\nserver S {\n void m(Q req) = 1\n Q n(Q req) = 2\n}\n"}},
		{Name: "empty", Files: map[string]string{"a.hbuf": "package go = \"base\"\npackage java = \"com.base\"\n"}},
		{Name: "two", Files: map[string]string{"a.hbuf": "package go = \"base\"\npackage java = \"com.base\"\nimport \"b.hbuf\"\ndata Base : Up = 1 {\n string s = 2\n}\n",
			"b.hbuf": "package go = \"up\"\npackage java = \"com.up\"\n[lang: en=\"E\"]\nenum E {\n [lang: en=\"x\"]\n x = 0\n}\ndata Up {\n E? e = 1\n}\n"}},
	}
}

// into compiles a unit into an output directory with its own fresh input directory.
func into(u unit, out string) (error, string) {
	d := hb.Scratch()
	defer os.RemoveAll(d)
	hb.WriteTree(d, u.set.Files)
	return hb.Call(out, filepath.Join(d, "*.hbuf"), u.target, "gen/")
}

func fresh(c *ev.Check, u unit) map[string]string {
	d := hb.Scratch()
	defer os.RemoveAll(d)
	err, p := into(u, d)
	if err != nil || p != "" {
		c.Violate("fresh:"+u.name(), fmt.Sprintf("%s does not build: %v %s\n%s", u.name(), err, p, hb.Text(u.set.Files)))
		return nil
	}
	return hb.ReadTree(d)
}

func same(want map[string]string, out string) string {
	for n, t := range want {
		b, err := os.ReadFile(filepath.Join(out, n))
		if err != nil {
			return fmt.Sprintf("%s is missing: %v", n, err)
		}
		if string(b) != t {
			return fmt.Sprintf("%s differs from a fresh build (%d bytes instead of %d):\n%s", n, len(b), len(t), hb.FirstDiff(t, string(b)))
		}
	}
	return ""
}

func main() {
	guard.Main("P07", func(c *ev.Check, g *guard.Guard) {
		par := g.Par(c)
		var us []unit
		for _, s := range variants() {
			for _, t := range hb.Targets {
				us = append(us, unit{s, t})
			}
		}
		want := make([]map[string]string, len(us))
		for i, u := range us {
			want[i] = fresh(c, u)
			if want[i] == nil {
				return
			}
		}
		// histories of builds, over an output directory in several initial states
		depth := c.Pick(3, 4)
		n := len(us)
		starts := []string{"empty", "missing", "dirty long", "dirty prefix", "links"}
		var hs [][]int
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) > 0 {
				hs = append(hs, append([]int{}, h...))
			}
			if len(h) == depth {
				return
			}
			for i := 0; i < n; i++ {
				if len(h) >= 2 && us[i].target != us[h[len(h)-1]].target { // longer histories stay within a target
					continue
				}
				rec(append(h, i))
			}
		}
		rec(nil)
		par("histories", len(hs), func(w, hi int) {
			h := hs[hi]
			for si, st := range starts {
				if len(h) > 2 && si > 0 {
					break
				}
				key := fmt.Sprint(st, h)
				g.Slots[w].Begin(0, key)
				root := hb.Scratch()
				out := filepath.Join(root, "x", "out")
				prepare(st, root, out, want[h[0]])
				var names []string
				for _, i := range h {
					names = append(names, us[i].name())
					err, p := into(us[i], out)
					c.Step(1)
					if err != nil || p != "" {
						c.Violate("history:"+key, fmt.Sprintf("start %q, builds %v: %v %s", st, names, err, p))
						break
					}
					if d := same(want[i], out); d != "" {
						c.Violate("history:"+key, fmt.Sprintf("start %q, builds %v: %s", st, names, d))
						break
					}
				}
				if c.State(key) && hi%97 == 0 {
					c.Sample(fmt.Sprintf("%s: %v", st, names))
				}
				c.Trace(1)
				g.Slots[w].End()
				_ = os.RemoveAll(root)
			}
		})
		// obstacles: every output file and every output directory, every kind of obstacle
		var all []unit
		for _, s := range append(append([]corpus.Set{}, corpus.Sets...), variants()...) {
			for _, t := range hb.Targets {
				all = append(all, unit{s, t})
			}
		}
		kinds := []string{"directory", "full device", "dangling link", "link loop", "file as directory", "fifo-less socket"}
		type ob struct {
			u    unit
			path string
			dir  bool
			kind string
		}
		var obs []ob
		for _, u := range all {
			w := fresh(c, u)
			dirs := map[string]bool{".": true}
			for _, n := range keys(w) {
				for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
					dirs[d] = true
				}
				for _, k := range kinds {
					if k == "file as directory" {
						continue
					}
					obs = append(obs, ob{u, n, false, k})
				}
			}
			if len(w) == 0 {
				continue
			}
			for d := range dirs {
				for _, k := range []string{"file as directory", "full device", "dangling link", "link loop"} {
					obs = append(obs, ob{u, d, true, k})
				}
			}
		}
		sort.Slice(obs, func(i, j int) bool {
			return fmt.Sprint(obs[i].u.name(), obs[i].path, obs[i].kind) < fmt.Sprint(obs[j].u.name(), obs[j].path, obs[j].kind)
		})
		par("obstacles", len(obs), func(w, i int) {
			o := obs[i]
			key := fmt.Sprintf("obstacle:%s:%s:%s", o.u.name(), o.path, o.kind)
			g.Slots[w].Begin(0, key)
			defer g.Slots[w].End()
			root := hb.Scratch()
			defer os.RemoveAll(root)
			out := filepath.Join(root, "x", "out")
			p := filepath.Join(out, o.path)
			_ = os.MkdirAll(filepath.Dir(p), 0755)
			var err error
			switch o.kind {
			case "directory":
				err = os.MkdirAll(filepath.Join(p, "sub"), 0755)
			case "full device":
				err = os.Symlink("/dev/full", p)
			case "dangling link":
				err = os.Symlink(filepath.Join(root, "nowhere", "file"), p)
			case "link loop":
				err = os.Symlink(filepath.Base(p), p)
			case "file as directory":
				err = os.WriteFile(p, []byte("x"), 0644)
			case "fifo-less socket":
				err = syscall.Mknod(p, syscall.S_IFSOCK|0644, 0)
				if err != nil {
					return
				}
			}
			if err != nil {
				c.Fatal("%s: %v", key, err)
			}
			berr, pan := into(o.u, out)
			c.Step(1)
			c.Trace(1)
			c.State(key)
			if pan != "" {
				c.Violate(key, fmt.Sprintf("%s, %s at %s: crash %s", o.u.name(), o.kind, o.path, pan))
			} else if berr == nil {
				c.Violate(key, fmt.Sprintf("%s: a %s stands where %s has to be written, but the build reports success", o.u.name(), o.kind, o.path))
			}
			if i%211 == 0 {
				c.Sample(key)
			}
		})
		// torn writes: the file system takes only the first n bytes of any file, for every n; one build at a time, since the
		// limit is the process's
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		_ = syscall.Getrlimit(rlimitFsize, &old)
		torn := 0
		for _, u := range all {
			if !c.Thorough() && u.set.Name == "rich" {
				continue
			}
			w := fresh(c, u)
			max := 0
			var pts []int
			sizes := map[int]bool{}
			for _, t := range w {
				if len(t) > max {
					max = len(t)
				}
				sizes[len(t)] = true
			}
			for n := 0; n <= max; n++ {
				if c.Thorough() || max < 3000 || n < 64 || n%7 == 0 || sizes[n] || sizes[n+1] {
					pts = append(pts, n)
				}
			}
			for _, pre := range []bool{false, true} {
				for _, n := range pts {
					if c.Stop() {
						break
					}
					key := fmt.Sprintf("torn:%s:%d:%v", u.name(), n, pre)
					d := hb.Scratch()
					in, out := filepath.Join(d, "in"), filepath.Join(d, "out")
					hb.WriteTree(in, u.set.Files)
					if pre { // an earlier, complete build
						hb.WriteTree(out, w)
					}
					g.Slots[0].Begin(0, key)
					_ = syscall.Setrlimit(rlimitFsize, &syscall.Rlimit{Cur: uint64(n), Max: old.Max})
					err, pan := hb.Call(out, filepath.Join(in, "*.hbuf"), u.target, "gen/")
					_ = syscall.Setrlimit(rlimitFsize, &old)
					g.Slots[0].End()
					c.Step(1)
					c.Trace(1)
					c.State(key)
					torn++
					switch {
					case pan != "":
						c.Violate(key, "crash: "+pan)
					case err == nil && n < max:
						c.Violate(key, fmt.Sprintf("%s: no more than %d bytes of a file could be written, but the build reports success: %s", u.name(), n, same(w, out)))
					case err != nil && n >= max:
						c.Violate(key, fmt.Sprintf("%s: %v", u.name(), err))
					case err == nil:
						if df := same(w, out); df != "" {
							c.Violate(key, u.name()+": "+df)
						}
					}
					_ = os.RemoveAll(d)
				}
			}
		}
		c.Extra["histories"] = len(hs)
		c.Extra["obstacles"] = len(obs)
		c.Extra["torn_write_points"] = torn
	}, func(kind byte, data string) {})
}

const rlimitFsize = 1

func prepare(st, root, out string, want map[string]string) {
	switch st {
	case "empty":
		_ = os.MkdirAll(out, 0755)
	case "dirty long":
		m := map[string]string{}
		for n, t := range want {
			m[n] = strings.Repeat("// old text\n", 1+len(t)/8)
		}
		hb.WriteTree(out, m)
	case "dirty prefix":
		m := map[string]string{}
		for n, t := range want {
			m[n] = t[:len(t)/2]
		}
		m["other.txt"] = "x"
		hb.WriteTree(out, m)
	case "links":
		for _, n := range keys(want) {
			p := filepath.Join(out, n)
			_ = os.MkdirAll(filepath.Dir(p), 0755)
			_ = os.MkdirAll(filepath.Join(root, "l"), 0755)
			t := filepath.Join(root, "l", strings.ReplaceAll(n, "/", "_"))
			_ = os.WriteFile(t, []byte(strings.Repeat("long", len(want[n]))), 0600)
			_ = os.Symlink(t, p)
		}
	}
}

func keys(m map[string]string) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}
