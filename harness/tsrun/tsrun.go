// Package tsrun type-checks and runs generated TypeScript with the compiler and the node that are installed, against
// the stand-in of the runtime library in /verif/runtime/ts.
package tsrun

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"

	"verif/harness/ev"
	"verif/harness/hb"
)

// Unit is the TypeScript generated from one schema.
type Unit struct {
	Key   string            `json:"k"`
	Files map[string]string `json:"f"`
}

type result struct {
	Key   string          `json:"k"`
	Errs  []string        `json:"e"`
	Data  json.RawMessage `json:"d"`
	Fatal string          `json:"fatal"`
	End   bool            `json:"end"`
}

// Types type-checks all units, in some processes side by side; report gets every unit once.
func Types(c *ev.Check, units []Unit, procs int, report func(key string, errs []string)) {
	each(c, "types.js", units, procs, func(r *result) { report(r.Key, r.Errs) })
}

// Forms tells what the generated language tables, forms and enums of all units are, see forms.js.
func Forms(c *ev.Check, units []Unit, procs int, report func(key string, errs []string, data json.RawMessage)) {
	each(c, "forms.js", units, procs, func(r *result) { report(r.Key, r.Errs, r.Data) })
}

func each(c *ev.Check, script string, units []Unit, procs int, report func(r *result)) {
	dir := hb.Scratch()
	defer os.RemoveAll(dir)
	hb.Parallel(procs, c.Stop, func(i int) {
		var mine []Unit
		for j := i; j < len(units); j += procs {
			mine = append(mine, units[j])
		}
		if len(mine) == 0 {
			return
		}
		name := filepath.Join(dir, string(rune('a'+i)))
		f, err := os.Create(name)
		if err != nil {
			c.Fatal("%v", err)
		}
		w := bufio.NewWriter(f)
		e := json.NewEncoder(w)
		for _, u := range mine {
			if err := e.Encode(u); err != nil {
				c.Fatal("%v", err)
			}
		}
		if w.Flush() != nil || f.Close() != nil {
			c.Fatal("units cannot be written")
		}
		cmd := exec.Command("node", "--max-old-space-size=3000", filepath.Join(c.Root, "runtime/ts", script), name)
		cmd.Stderr = os.Stderr
		out, err := cmd.StdoutPipe()
		if err != nil {
			c.Fatal("%v", err)
		}
		if err := cmd.Start(); err != nil {
			c.Fatal("node: %v", err)
		}
		d := json.NewDecoder(out)
		end, n := false, 0
		for {
			var r result
			if err := d.Decode(&r); err != nil {
				if err != io.EOF {
					c.Fatal("%s: %v", script, err)
				}
				break
			}
			if r.Fatal != "" {
				c.Fatal("%s: %s", script, r.Fatal)
			}
			if r.End {
				end = true
				continue
			}
			n++
			report(&r)
			if c.Stop() {
				_ = cmd.Process.Kill()
				_ = cmd.Wait()
				return
			}
		}
		if err := cmd.Wait(); err != nil || !end || n != len(mine) {
			c.Fatal("%s stopped after %d of %d units: %v", script, n, len(mine), err)
		}
	})
}
