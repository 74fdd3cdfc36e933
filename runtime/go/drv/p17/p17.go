// Package p17 writes values as JSON for other languages and reads what they write.
//
// prog model.json tier shard shards write FILE: every value of every type, as the generated code writes it.
// prog model.json tier shard shards read FILE: what others wrote for the same values.
package p17

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type model struct {
	Order []string
	Data  map[string]*val.D
	Enums map[string][]int64
}

type line struct {
	K string   `json:"k"`
	V any      `json:"v,omitempty"`
	J string   `json:"j,omitempty"` // what Go wrote
	E string   `json:"e,omitempty"` // why it did not
	R []string `json:"r,omitempty"` // what others wrote
	W []string `json:"w,omitempty"` // how
}

// Main is the driver.
func Main(reg map[string]any) {
	var m model
	r := rep.Start(&m)
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	var todo func(d *val.D, o val.Obj) bool
	var done func()
	switch r.Args[0] {
	case "write":
		f, err := os.Create(r.Args[1])
		check(err)
		b := bufio.NewWriterSize(f, 1<<20)
		e := json.NewEncoder(b)
		e.SetEscapeHTML(false)
		todo = func(d *val.D, o val.Obj) bool {
			l := line{K: d.Key, V: w.Tagged(val.T{Ref: "data", Name: d.Key}, o)}
			l.J, l.E = write(w, d, o)
			check(e.Encode(l))
			r.Step(1)
			return true
		}
		done = func() {
			check(b.Flush())
			check(f.Close())
		}
	case "read":
		f, err := os.Open(r.Args[1])
		check(err)
		dec := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
		bad := map[string]bool{}
		todo = func(d *val.D, o val.Obj) bool {
			var l line
			check(dec.Decode(&l))
			if l.K != d.Key {
				check(fmt.Errorf("%s where %s is expected", l.K, d.Key))
			}
			for i, j := range l.R {
				r.Step(1)
				r.Trace(1)
				if what := read(w, d, o, j); what != "" && !bad[d.Key] {
					bad[d.Key] = true
					r.Violate(d.Group, "%s with %s is written by %s as %s, which Go reads as: %s", d.Key, val.Text(o), l.W[i], j, what)
				}
			}
			return true
		}
		done = func() { check(f.Close()) }
	}
	pairs := 3
	if r.Tier == "thorough" {
		pairs = 10
	}
	for i, k := range m.Order {
		if !r.Mine(i) {
			continue
		}
		d := m.Data[k]
		if r.Args[0] == "write" {
			r.State(k)
		}
		w.Assign(d, pairs, func(o val.Obj) bool {
			if !proper(w, d, o) {
				return true
			}
			return todo(d, o)
		})
	}
	done()
	r.End()
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// proper: every field has a value of its type; only enums without an item 0 have none when unset.
func proper(w *val.World, d *val.D, o val.Obj) bool {
	for _, f := range d.Fields {
		if v, ok := o[f.Name]; ok {
			if !properValue(w, f.Type, v) {
				return false
			}
		} else if !f.Type.Optional() && !properValue(w, f.Type, w.Zero(f.Type)) {
			return false
		}
	}
	return true
}

func properValue(w *val.World, t val.T, v any) bool {
	if v == nil {
		return true
	}
	switch t.Kind {
	case 1:
		for _, x := range v.([]any) {
			if !properValue(w, t.Elem(), x) {
				return false
			}
		}
		return true
	case 2:
		for _, x := range v.(map[string]any) {
			if !properValue(w, t.Elem(), x) {
				return false
			}
		}
		return true
	}
	switch t.Ref {
	case "data":
		return proper(w, w.Data[t.Name], v.(val.Obj))
	case "enum":
		for _, n := range w.Enums[t.Name] {
			if n == v.(int64) {
				return true
			}
		}
		return false
	}
	return true
}

func write(w *val.World, d *val.D, o val.Obj) (text, bad string) {
	defer func() {
		if e := recover(); e != nil {
			text, bad = "", fmt.Sprintf("crash: %v", e)
		}
	}()
	x := w.New(d.Key)
	if err := w.Fill(d, x, o); err != nil {
		return "", err.Error()
	}
	b, err := x.(hbuf.Data).ToData()
	if err != nil {
		return "", err.Error()
	}
	return string(b), ""
}

func read(w *val.World, d *val.D, o val.Obj, text string) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("crash: %v", e)
		}
	}()
	y := w.New(d.Key)
	if err := y.(hbuf.Data).FormData([]byte(text)); err != nil {
		return err.Error()
	}
	if err := w.Same(d, y, o); err != nil {
		return err.Error()
	}
	return ""
}
