// Package p09 drives generated data types.
package p09

import (
	"fmt"

	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type model struct {
	Order []string
	Data  map[string]*val.D
	Enums map[string][]int64
}

func Main(reg map[string]any) {
	var m model
	r := rep.Start(&m)
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	for i, k := range m.Order {
		if !r.Mine(i) || r.Full() {
			continue
		}
		d := m.Data[k]
		r.State(k)
		one(r, w, d)
	}
	r.End()
}

func one(r *rep.R, w *val.World, d *val.D) {
	pairs := 3
	if r.Tier == "thorough" {
		pairs = 10
	}
	w.Assign(d, pairs, func(o val.Obj) bool {
		r.Step(1)
		what := func() (s string) {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprintf("crash: %v", e)
				}
			}()
			return check(r, w, d, o)
		}()
		if what != "" {
			r.Violate(d.Group, "%s with %s: %s", d.Key, val.Text(o), what)
			return false
		}
		return true
	})
	// every value over every other value of each field
	for _, f := range d.Fields {
		vs := w.Values(f.Type, 2)
		for _, a := range vs {
			for _, b := range vs {
				r.Step(1)
				what := func() (s string) {
					defer func() {
						if e := recover(); e != nil {
							s = fmt.Sprintf("crash: %v", e)
						}
					}()
					return over(w, d, Obj{f.Name: a}, Obj{f.Name: b})
				}()
				if what != "" {
					r.Violate(d.Group, "%s with %s and then %s: %s", d.Key, val.Text(a), val.Text(b), what)
					return
				}
			}
		}
	}
}

type Obj = val.Obj

func over(w *val.World, d *val.D, a, b Obj) string {
	x := w.New(d.Key)
	if err := w.Fill(d, x, a); err != nil {
		return err.Error()
	}
	if err := w.Fill(d, x, b); err != nil {
		return err.Error()
	}
	if err := w.Same(d, x, b); err != nil {
		return "after its setters: " + err.Error()
	}
	t, err := x.(hbuf.Data).ToData()
	if err != nil {
		return "it cannot be serialised: " + err.Error()
	}
	if err := w.Wire(d, t, b); err != nil {
		return fmt.Sprintf("its JSON %s has %v", t, err)
	}
	return ""
}

func check(r *rep.R, w *val.World, d *val.D, o val.Obj) string {
	x := w.New(d.Key)
	h, ok := x.(hbuf.Data)
	if !ok {
		return "it is no hbuf.Data"
	}
	if err := w.Fill(d, x, o); err != nil {
		return err.Error()
	}
	if err := w.Same(d, x, o); err != nil {
		return "after its setters: " + err.Error()
	}
	b, err := h.ToData()
	if err != nil {
		return "it cannot be serialised: " + err.Error()
	}
	if err := w.Wire(d, b, o); err != nil {
		return fmt.Sprintf("its JSON %s has %v", b, err)
	}
	y := w.New(d.Key)
	if err := y.(hbuf.Data).FormData(b); err != nil {
		return fmt.Sprintf("its JSON %s cannot be parsed: %v", b, err)
	}
	if err := w.Same(d, y, o); err != nil {
		return fmt.Sprintf("after a round trip through %s: %v", b, err)
	}
	r.Trace(2)
	for i := 0; i < 4; i++ {
		t := w.JSON(d, o, i&1 == 1, i&2 == 2)
		z := w.New(d.Key)
		if err := z.(hbuf.Data).FormData([]byte(t)); err != nil {
			return fmt.Sprintf("%s cannot be parsed: %v", t, err)
		}
		if err := w.Same(d, z, o); err != nil {
			return fmt.Sprintf("after parsing %s: %v", t, err)
		}
		r.Trace(1)
	}
	return ""
}
