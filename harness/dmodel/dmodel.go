// Package dmodel describes the data types of schemas to the drivers of generated code (the JSON form of drv/val's types).
package dmodel

import (
	"fmt"

	"verif/harness/hb"
	"verif/harness/sem"
)

// T, F and D mirror drv/val.
type T struct {
	Kind   int
	Name   string
	Ref    string
	Null   bool
	Out    bool
	Key    string
	KeyRef string
}

type F struct {
	Name, Hump, Wire string
	Type             T
}

type D struct {
	Key, Group string
	Fields     []F
}

// World is what a driver gets.
type World struct {
	Order []string
	Data  map[string]*D
	Enums map[string][]int64
}

// New makes an empty world.
func New() *World { return &World{Data: map[string]*D{}, Enums: map[string][]int64{}} }

// Key names a declaration of a unit.
func Key(unit string, r *sem.Ref) string { return unit + "/" + r.File + ":" + r.Name }

func (w *World) ref(unit string, m *sem.Model, file, name string) (string, string, error) {
	if sem.Base(name) {
		return "base", name, nil
	}
	r := m.Resolve(file, name)
	if r == nil {
		return "", "", fmt.Errorf("%s: no %s", file, name)
	}
	if r.Kind == hb.Enum {
		return "enum", Key(unit, r), nil
	}
	return "data", Key(unit, r), nil
}

// Type describes a type seen in a file.
func (w *World) Type(unit string, m *sem.Model, file string, t hb.Type) (o T, err error) {
	o = T{Null: t.Null}
	if o.Ref, o.Name, err = w.ref(unit, m, file, t.Name); err != nil {
		return
	}
	switch {
	case t.Kind == hb.Array:
		o.Kind, o.Out = 1, t.Out
	case t.Kind == hb.Map:
		o.Kind, o.Out = 2, t.Out
		o.KeyRef, o.Key, err = w.ref(unit, m, file, t.Key)
	}
	return
}

// Add describes every declaration of a schema and calls reg for each.
func (w *World) Add(unit string, m *sem.Model, reg func(key string, r *sem.Ref)) error {
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			k := Key(unit, r)
			switch r.Kind {
			case hb.Enum:
				ns := []int64{}
				for _, it := range r.Items {
					n, err := sem.Number(it.Id)
					if err != nil {
						return err
					}
					ns = append(ns, n)
				}
				w.Enums[k] = ns
			case hb.Data:
				d := &D{Key: k}
				for _, x := range m.Fields(r) {
					t, err := w.Type(unit, m, x.File, x.Type)
					if err != nil {
						return err
					}
					wire, ok := sem.Under(x.Name)
					if !ok {
						return fmt.Errorf("the wire name of %s is not determined", x.Name)
					}
					d.Fields = append(d.Fields, F{x.Name, sem.Hump(x.Name), wire, t})
				}
				w.Data[k] = d
				w.Order = append(w.Order, k)
			}
			reg(k, r)
		}
	}
	return nil
}
