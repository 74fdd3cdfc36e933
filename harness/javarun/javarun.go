// Package javarun compiles generated Java with the installed compiler and reports what the classes declare and do.
package javarun

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/ev"
	"verif/harness/hb"
)

// Unit is the Java generated from one schema.
type Unit struct {
	Key   string
	Files map[string]string
}

// Facts are what the driver says of a unit.
type Facts struct {
	Key    string
	Errors []string
	Of     map[string][]string // kind -> lines
}

var unescape = strings.NewReplacer("\\\\", "\\", "\\n", "\n", "\\r", "\r")

// Run compiles and describes all units, in some processes side by side; report gets every unit once.
func Run(c *ev.Check, units []Unit, procs int, report func(f *Facts)) {
	dir := hb.Scratch()
	defer os.RemoveAll(dir)
	src := filepath.Join(c.Root, "runtime/java")
	cls := filepath.Join(dir, "classes")
	if err := os.MkdirAll(cls, 0755); err != nil {
		c.Fatal("%v", err)
	}
	cmd := exec.Command("javac", "-encoding", "UTF-8", "-d", cls, filepath.Join(src, "Facts.java"), filepath.Join(src, "com/hbuf/java/Data.java"), filepath.Join(src, "com/hbuf/java/Server.java"))
	if out, err := cmd.CombinedOutput(); err != nil {
		c.Fatal("javac: %v\n%s", err, out)
	}
	hb.Parallel(procs, c.Stop, func(i int) {
		var mine []Unit
		for j := i; j < len(units); j += procs {
			mine = append(mine, units[j])
		}
		if len(mine) == 0 {
			return
		}
		name := filepath.Join(dir, fmt.Sprint("units", i))
		write(c, name, mine)
		cmd := exec.Command("java", "-Xmx1500m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-cp", cls, "Facts", name, cls)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.StdoutPipe()
		if err != nil {
			c.Fatal("%v", err)
		}
		if err := cmd.Start(); err != nil {
			c.Fatal("java: %v", err)
		}
		n, end := 0, false
		var f *Facts
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := r.ReadString('\n')
			l = strings.TrimSuffix(l, "\n")
			k, rest, _ := strings.Cut(l, " ")
			rest = unescape.Replace(rest)
			switch {
			case l == "END":
				end = true
			case k == "U":
				f = &Facts{Key: rest, Of: map[string][]string{}}
			case k == "E" && f != nil:
				f.Errors = append(f.Errors, rest)
			case l == "." && f != nil:
				for _, ls := range f.Of {
					sort.Strings(ls)
				}
				report(f)
				f = nil
				n++
			case f != nil && l != "":
				f.Of[k] = append(f.Of[k], rest)
			}
			if err == io.EOF {
				break
			}
			if err != nil || c.Stop() {
				_ = cmd.Process.Kill()
				break
			}
		}
		_ = cmd.Wait()
		if !end || n != len(mine) {
			if !c.Stop() {
				c.Fatal("Facts.java: %d of %d units: %s", n, len(mine), stderr.String())
			}
		}
	})
}

func write(c *ev.Check, name string, us []Unit) {
	f, err := os.Create(name)
	if err != nil {
		c.Fatal("%v", err)
	}
	w := bufio.NewWriter(f)
	for _, u := range us {
		fmt.Fprintf(w, "U %s\n", u.Key)
		var ns []string
		for n := range u.Files {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Fprintf(w, "F %s %s\n", n, base64.StdEncoding.EncodeToString([]byte(u.Files[n])))
		}
		fmt.Fprintf(w, "R\n")
	}
	if w.Flush() != nil || f.Close() != nil {
		c.Fatal("units cannot be written")
	}
}
