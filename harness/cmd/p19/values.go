package main

import (
	"fmt"
	"sort"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/dval"
	"verif/harness/ev"
)

func worldOf(w *dmodel.World) dval.World { return dval.World{World: w} }

type check struct {
	c     *ev.Check
	r     *dartval.Run
	key   string
	group string
	text  string
	d     *dmodel.D
	seen  map[string]bool
}

func (k *check) same(what string, want any, got any) error {
	if a, b := dval.Text(want), dval.Text(got); a != b {
		return fmt.Errorf("%s: %s, not %s", what, b, a)
	}
	return nil
}

// try runs a step and reports what goes wrong.
func (k *check) try(what string, f func() error) bool {
	err := f()
	if err != nil {
		k.c.Violate(k.group, fmt.Sprintf("%s: %s: %v\n%s", k.key, what, err, k.text))
		return false
	}
	return true
}

func (k *check) apart(what string, a, b any) error {
	x, y := map[any]bool{}, map[any]bool{}
	k.r.Parts(k.key, a, x)
	k.r.Parts(k.key, b, y)
	for p := range y {
		if x[p] {
			return fmt.Errorf("%s shares %s", what, k.r.M.String(p))
		}
	}
	return nil
}

// plain tells whether == of a type compares the values.
func (k *check) plain(t dmodel.T) bool {
	if t.Kind != 0 {
		return false
	}
	if t.Ref == "data" {
		for _, f := range k.r.World.Data[t.Name].Fields {
			if f.Type.Kind != 0 || f.Type.Ref == "data" && !k.plain(f.Type) {
				return false
			}
		}
	}
	return true
}

func values(c *ev.Check, u *dartval.Unit, key, group, text string) {
	k := &check{c: c, r: u.Start(), key: key, group: group, text: text, d: u.World.Data[key], seen: map[string]bool{}}
	if u.World.Endless(key) || u.World.Barren(key) {
		return
	}
	full := c.Thorough()
	least, first := u.World.LeastData(key), dval.D{}
	vals := map[string][]any{}
	fs := k.d.Fields
	for _, f := range fs {
		vs := u.World.Values(f.Type, 2)
		if dval.Optional(f.Type) {
			vs = append(vs, nil)
		}
		if len(vs) == 0 {
			vs = append(vs, least[f.Name])
		}
		vals[f.Name], first[f.Name] = vs, vs[0]
	}
	with := func(d dval.D, kv ...any) dval.D {
		o := dval.D{}
		for n, v := range d {
			o[n] = v
		}
		for i := 0; i < len(kv); i += 2 {
			o[kv[i].(string)] = kv[i+1]
		}
		return o
	}
	ok := k.value(first) && k.value(least)
	for i := 0; ok && i < len(fs); i++ {
		a := fs[i].Name
		for _, x := range vals[a] {
			ok = ok && k.value(with(first, a, x)) && k.value(with(least, a, x))
			ok = ok && k.copyWith(first, a, x) && k.copyWith(with(least, a, x), a, vals[a][0])
			ok = ok && k.equality(with(first, a, x), first, k.plain(fs[i].Type), a)
			for j := i + 1; ok && j < len(fs) && (full || len(fs) <= 2); j++ {
				for _, y := range vals[fs[j].Name] {
					ok = ok && k.value(with(first, a, x, fs[j].Name, y))
				}
			}
		}
	}
	for _, null := range []bool{true, false} {
		ok = ok && k.absent(first, fs, null)
		for _, f := range fs {
			ok = ok && k.absent(first, []dmodel.F{f}, null)
		}
	}
	ok = ok && k.try("two values made from nothing", func() error {
		a, err := k.fromMap("{}")
		if err != nil {
			return nil // judged by absent
		}
		b, err := k.fromMap("{}")
		if err != nil {
			return nil
		}
		return k.apart("a value made from nothing", a, b)
	})
	if ok {
		c.Outcome("kept")
	} else {
		c.Outcome("lost")
	}
}

func (k *check) fromMap(js string) (any, error) {
	m, err := k.r.M.Decode(js)
	if err != nil {
		return nil, err
	}
	at := k.r.At[k.key]
	return k.r.M.Static(at[0], at[1], "fromMap", m)
}

// value takes a value through its map form and copies it.
func (k *check) value(v dval.D) bool {
	id := dval.Text(v)
	if k.seen[id] {
		return true
	}
	k.seen[id] = true
	k.c.State(k.group + " " + id)
	k.c.Trace(1)
	return k.try(id, func() error {
		m, at := k.r.M, k.r.At[k.key]
		o, err := k.r.New(k.key, v)
		if err != nil {
			return err
		}
		k.c.Step(1)
		is := func(what string, x any) error {
			g, err := k.r.Data(k.key, x, what)
			if err != nil {
				return err
			}
			return k.same(what, v, g)
		}
		if err := is("what was made", o); err != nil {
			return err
		}
		f, err := m.Call(o, "toMap", nil, nil)
		if err != nil {
			return err
		}
		fm, ok := f.(*dart.Map)
		if !ok {
			return fmt.Errorf("toMap gives %s", m.String(f))
		}
		var got, want []string
		for _, n := range fm.Keys {
			got = append(got, m.String(n))
		}
		for _, f := range k.d.Fields {
			want = append(want, f.Wire)
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("toMap writes %v, not %v", got, want)
		}
		if err := is("the value after toMap", o); err != nil {
			return err
		}
		p, err := m.Static(at[0], at[1], "fromMap", f)
		if err != nil {
			return fmt.Errorf("fromMap(%s): %v", m.String(f), err)
		}
		if err := is("restored from its map "+m.String(f), p); err != nil {
			return err
		}
		if err := k.apart("what is restored from the map", o, p); err != nil {
			return err
		}
		js, err := m.Encode(f)
		if err != nil {
			return fmt.Errorf("the map %s as JSON: %v", m.String(f), err)
		}
		q, err := k.fromMap(js)
		if err != nil {
			return fmt.Errorf("fromMap(%s): %v", js, err)
		}
		if err := is("restored from the JSON "+js, q); err != nil {
			return err
		}
		cp, err := m.Call(o, "copy", nil, nil)
		if err != nil {
			return err
		}
		if err := is("the copy", cp); err != nil {
			return err
		}
		if err := is("the value after copy", o); err != nil {
			return err
		}
		if err := k.apart("the copy", o, cp); err != nil {
			return err
		}
		cw, err := m.Call(o, "copyWith", nil, nil)
		if err != nil {
			return err
		}
		if err := is("copyWith()", cw); err != nil {
			return err
		}
		if cw == o {
			return fmt.Errorf("copyWith() is the value itself")
		}
		plain := true
		for _, f := range k.d.Fields {
			plain = plain && k.plain(f.Type)
		}
		for _, x := range []any{o, cp} {
			eq, err := m.Equal(o, x)
			if err != nil {
				return err
			}
			if !eq && (plain || x == o) {
				return fmt.Errorf("the value does not equal its copy")
			}
		}
		if plain {
			a, err := m.Get(o, "hashCode")
			if err != nil {
				return err
			}
			b, err := m.Get(cp, "hashCode")
			if err != nil || a != b {
				return fmt.Errorf("equal values hash to %v and %v %v", a, b, err)
			}
		}
		if eq, err := m.Equal(o, "text"); err != nil || eq {
			return fmt.Errorf("the value equals a text: %v %v", eq, err)
		}
		if _, err := m.Call(o, "toString", nil, nil); err != nil {
			return err
		}
		// the setters change their own field only
		for _, f := range k.d.Fields {
			n := k.r.Name(k.key, f.Name)
			x, err := m.Get(o, n)
			if err != nil {
				return err
			}
			if err := m.Put(cp, n, x); err != nil {
				return err
			}
			if err := is("a copy with "+n+" set to its value", cp); err != nil {
				return err
			}
		}
		k.c.Step(10)
		return nil
	})
}

// copyWith replaces one field.
func (k *check) copyWith(v dval.D, name string, x any) bool {
	return k.try(fmt.Sprintf("copyWith(%s: %s) of %s", name, dval.Text(x), dval.Text(v)), func() error {
		o, err := k.r.New(k.key, v)
		if err != nil {
			return err
		}
		at := k.r.At[k.key]
		var t dmodel.T
		for _, f := range k.d.Fields {
			if f.Name == name {
				t = f.Type
			}
		}
		y, err := k.r.Make(at[0], t, x)
		if err != nil {
			return err
		}
		cw, err := k.r.M.Call(o, "copyWith", nil, map[string]any{k.r.Name(k.key, name): y})
		if err != nil {
			return err
		}
		k.c.Step(1)
		want := dval.D{}
		for n, z := range v {
			want[n] = z
		}
		if x != nil {
			want[name] = x
		}
		g, err := k.r.Data(k.key, cw, "the copy")
		if err != nil {
			return err
		}
		if err := k.same("the copy", want, g); err != nil {
			return err
		}
		if g, err = k.r.Data(k.key, o, "the value"); err != nil {
			return err
		}
		return k.same("the value", v, g)
	})
}

// equality compares two values that differ in at most one field.
func (k *check) equality(a, b dval.D, plain bool, name string) bool {
	return k.try(fmt.Sprintf("%s == %s", dval.Text(a), dval.Text(b)), func() error {
		x, err := k.r.New(k.key, a)
		if err != nil {
			return err
		}
		y, err := k.r.New(k.key, b)
		if err != nil {
			return err
		}
		eq, err := k.r.M.Equal(x, y)
		if err != nil {
			return err
		}
		k.c.Step(1)
		if dval.Text(a) != dval.Text(b) && eq && (plain || a[name] == nil || b[name] == nil) {
			return fmt.Errorf("values that differ in %s are equal", name)
		}
		return nil
	})
}

// absent leaves members out of a map or makes them null.
func (k *check) absent(v dval.D, fs []dmodel.F, null bool) bool {
	what := "absent"
	if null {
		what = "null"
	}
	names := ""
	for _, f := range fs {
		names += " " + f.Wire
	}
	return k.try(names+" "+what, func() error {
		o, err := k.r.New(k.key, v)
		if err != nil {
			return err
		}
		f, err := k.r.M.Call(o, "toMap", nil, nil)
		if err != nil {
			return err
		}
		js, err := k.r.M.Encode(f)
		if err != nil {
			return err
		}
		mv, err := k.r.M.Decode(js)
		if err != nil {
			return err
		}
		m := mv.(*dart.Map)
		gone := map[string]bool{}
		for _, f := range fs {
			gone[f.Wire] = true
		}
		var keys, vals []any
		for i, n := range m.Keys {
			if !gone[n.(string)] {
				keys, vals = append(keys, n), append(vals, m.Values[i])
			} else if null {
				keys, vals = append(keys, n), append(vals, nil)
			}
		}
		m.Keys, m.Values = keys, vals
		at := k.r.At[k.key]
		p, err := k.r.M.Static(at[0], at[1], "fromMap", m)
		if err != nil {
			return err
		}
		k.c.Step(2)
		for _, f := range k.d.Fields {
			n := k.r.Name(k.key, f.Name)
			x, err := k.r.M.Get(p, n)
			if err != nil {
				return err
			}
			g, err := k.r.Read(at[0], f.Type, x, n)
			if err != nil {
				return err
			}
			want := v[f.Name]
			if gone[f.Wire] {
				if want = k.r.World.Def(f.Type); !dval.Determined(want) {
					if g == nil {
						return fmt.Errorf("%s is null", n)
					}
					continue
				}
			}
			if err := k.same(n, want, g); err != nil {
				return err
			}
		}
		return nil
	})
}
