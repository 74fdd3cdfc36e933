// Package dbm enumerates schemas with database tags and says what the tags declare (shared by P13 and P14).
package dbm

import (
	"fmt"
	"strings"

	"verif/harness/dmodel"
	"verif/harness/hb"
	"verif/harness/sem"
)

// F is a field with a database tag.
type F struct {
	Name, Col                             string
	Json, Key, Force                      bool
	Where                                 []string
	Order, Group, Limit, Offset, Get, Set string
}

// X is a type with database operations.
type X struct {
	Key   string // the type
	Row   string // the type of its table
	Table string
	Fake  bool
	Own   bool
	Cache bool
	Ops   map[string]string   // operation -> self, parent, true, or the key field and self or parent
	F     []F                 // its fields
	R     []F                 // the fields of the type of its table
	Dom   map[string][]string // values of its fields to try
	RDom  map[string][]string
}

func one(t *hb.Tag, k string) string {
	if v, ok := sem.Get(t, k); ok && len(v) > 0 {
		return v[0]
	}
	return ""
}

func fields(m *sem.Model, r *sem.Ref) (out []F, err error) {
	for _, f := range m.Fields(r) {
		t := sem.Tag(f.Tags, "db")
		if t == nil {
			continue
		}
		x := F{Name: f.Name, Col: one(t, "name"), Json: one(t, "converter") == "json", Key: one(t, "key") == "true", Force: one(t, "force") == "true",
			Order: one(t, "order"), Group: one(t, "group"), Limit: one(t, "limit"), Offset: one(t, "offset"), Get: one(t, "get"), Set: one(t, "set")}
		if x.Col == "" {
			var ok bool
			if x.Col, ok = sem.Under(f.Name); !ok {
				return nil, fmt.Errorf("the column of %s is not determined", f.Name)
			}
		}
		x.Where, _ = sem.Get(t, "where")
		out = append(out, x)
	}
	return
}

// OpNames are the operations of a tag.
var OpNames = []string{"get", "list", "map", "count", "insert", "inserts", "update", "set", "del", "rm"}

// Of says what the tags of a type declare; nil when there is nothing.
func Of(unit string, m *sem.Model, r *sem.Ref) (*X, error) {
	t := sem.Tag(r.Tags, "db")
	if t == nil {
		return nil, nil
	}
	x := &X{Key: dmodel.Key(unit, r), Ops: map[string]string{}, Own: true, Dom: dom(m, r)}
	x.Row = x.Key
	for _, o := range OpNames {
		if v := one(t, o); v != "" {
			x.Ops[o] = v
		}
	}
	if len(x.Ops) == 0 {
		return nil, nil
	}
	x.Cache = sem.Tag(r.Tags, "cache") != nil
	var err error
	if x.F, err = fields(m, r); err != nil {
		return nil, err
	}
	of := r
	if n := one(t, "table"); n != "" {
		if of = m.Resolve(r.File, n); of == nil || of.Kind != hb.Data {
			return nil, fmt.Errorf("no table %s", n)
		}
		x.Own = false
		x.Row = dmodel.Key(unit, of)
		if t = sem.Tag(of.Tags, "db"); t == nil {
			return nil, fmt.Errorf("%s is no table", n)
		}
	}
	if x.R, err = fields(m, of); err != nil {
		return nil, err
	}
	x.Table = one(t, "name")
	if x.Table == "" {
		x.Table, _ = sem.Under(of.Name)
	}
	if s := one(t, "schema"); s != "" {
		x.Table = s + "." + x.Table
	}
	x.Fake = strings.ToLower(one(t, "fake")) != "false"
	x.RDom = dom(m, of)
	return x, nil
}

func dom(m *sem.Model, r *sem.Ref) map[string][]string {
	d := map[string][]string{}
	for _, f := range m.Fields(r) {
		if v, ok := sem.Get(sem.Tag(f.Tags, "dom"), "v"); ok {
			d[f.Name] = v
		}
	}
	return d
}
