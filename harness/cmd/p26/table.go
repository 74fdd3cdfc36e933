package main

import (
	"fmt"
	"strings"

	"verif/harness/dart"
	"verif/harness/dval"
)

// tables looks at the table of lists of values.
func (k *view) tables(class string, least dval.D, vals map[string][]any) error {
	most := 0
	for _, vs := range vals {
		most = max(most, len(vs))
	}
	rows := []dval.D{}
	for i := 0; i < most; i++ {
		d := dval.D{}
		for n, vs := range vals {
			d[n] = vs[min(i, len(vs)-1)]
		}
		rows = append(rows, d)
	}
	if len(rows) == 0 { // no fields
		rows = append(rows, dval.D{}, dval.D{})
	}
	for _, n := range []int{0, 1, len(rows)} {
		for _, sel := range []bool{false, true} {
			if err := k.tabled(class, rows[:n], sel); err != nil {
				return fmt.Errorf("with %d rows: %w", n, err)
			}
		}
	}
	return k.selects(class, rows)
}

func (k *view) make(class string, rows []dval.D, select_ *dart.List, onSelect any) (infos []any, list *dart.List, t, made any, err error) {
	for _, d := range rows {
		x, err := k.New(k.key, d)
		if err != nil {
			return nil, nil, nil, nil, err
		}
		infos = append(infos, x)
	}
	list = k.M.NewList(k.file, k.hump, append([]any{}, infos...)...)
	named := map[string]any{}
	if select_ != nil {
		named["select"], named["onSelect"] = select_, onSelect
	}
	if made, err = k.M.Create(k.file, class, "", []any{list}, named); err != nil {
		return
	}
	calls, times := 0, 1
	if select_ != nil { // what is shown again is the same
		times = 2
	}
	for i := 0; i < times; i++ {
		if _, err = k.M.Call(made, "build", []any{k.ctx}, map[string]any{"builder": dart.Native(func(a []any, named map[string]any) any {
			if len(a) == 1 && a[0] == made {
				calls++
			}
			return nil
		})}); err != nil {
			return
		}
	}
	if calls != times {
		return nil, nil, nil, nil, fmt.Errorf("the builder is called %d times", calls)
	}
	t, err = k.M.Get(made, "tables")
	return
}

func (k *view) column(t any, name string) (any, error) {
	cs, err := k.M.Get(t, "columns")
	if err != nil {
		return nil, err
	}
	m := cs.(*dart.Map)
	for i, n := range m.Keys {
		if n == name {
			return m.Values[i], nil
		}
	}
	return nil, fmt.Errorf("there is no column %q", name)
}

func (k *view) cell(col any, how string, a ...any) (any, error) {
	f, err := k.M.Get(col, how)
	if err != nil {
		return nil, err
	}
	cell, err := k.M.Apply(f, a...)
	if err != nil {
		return nil, err
	}
	return k.M.Get(cell, "child")
}

func (k *view) tabled(class string, rows []dval.D, sel bool) error {
	var set *dart.List
	if sel {
		set = k.M.NewSet(k.file, k.hump)
	}
	infos, list, t, _, err := k.make(class, rows, set, dart.Native(func(a []any, named map[string]any) any { return nil }))
	if err != nil {
		return err
	}
	if n, err := k.M.Get(t, "rowCount"); err != nil || n != int64(len(rows)) {
		return fmt.Errorf("rowCount is %v %v", n, err)
	}
	rb, err := k.M.Get(t, "rowBuilder")
	if err != nil {
		return err
	}
	for y, x := range infos {
		r, err := k.M.Apply(rb, k.ctx, int64(y))
		if err != nil {
			return err
		}
		if got, err := k.M.Get(r, "data"); err != nil || got != x {
			return fmt.Errorf("row %d is that of %s: %v", y, k.M.String(got), err)
		}
	}
	n, place := 0, 0
	if sel {
		n++
	}
	for i := range k.fields {
		f := &k.fields[i]
		if f.Table == "" {
			continue
		}
		n++
		place++
		col, err := k.column(t, f.Dart)
		if err != nil {
			return err
		}
		want := place
		if f.Index != 0 {
			want = f.Index
		}
		if got, err := k.M.Get(col, "index"); err != nil || got != int64(want) {
			return fmt.Errorf("column %s has the index %v and not %d", f.Name, got, want)
		}
		l, err := k.label(f)
		if err != nil {
			return err
		}
		head, err := k.M.Get(col, "headerBuilder")
		if err != nil {
			return err
		}
		cell, err := k.M.Apply(head, k.ctx)
		if err != nil {
			return err
		}
		if err := k.words(cell, "child", l); err != nil {
			return fmt.Errorf("the head of %s: %v", f.Name, err)
		}
		for y, x := range infos {
			k.c.Step(1)
			k.c.State(k.group + k.key + f.Name + "|" + dval.Text(rows[y]))
			if err := k.shownIn(col, f, rows[y][f.Name], y, x); err != nil {
				return fmt.Errorf("%s = %s: %w", f.Name, dval.Text(rows[y][f.Name]), err)
			}
		}
	}
	cs, err := k.M.Get(t, "columns")
	if err != nil {
		return err
	}
	if got := len(cs.(*dart.Map).Keys); got != n {
		return fmt.Errorf("there are %d columns and not %d", got, n)
	}
	for y, x := range infos {
		if list.L[y] != x {
			return fmt.Errorf("showing changes the list")
		}
		if err := k.unchanged(x, rows[y], "showing"); err != nil {
			return err
		}
	}
	return nil
}

// shownIn checks a cell.
func (k *view) shownIn(col any, f *field, v any, y int, x any) error {
	c, err := k.cell(col, "cellBuilder", k.ctx, int64(0), int64(y), x)
	if err != nil {
		return err
	}
	if f.Table == "image" {
		url := ""
		switch v := v.(type) {
		case string:
			url = v
		case []any:
			if len(v) > 0 {
				url, _ = v[0].(string)
			}
		}
		if !strings.HasPrefix(url, "http") {
			if dart.ClassOf(c) != "SizedBox" {
				return fmt.Errorf("it is a %s", dart.ClassOf(c))
			}
			return nil
		}
		if dart.ClassOf(c) != "Image" {
			return fmt.Errorf("it is a %s", dart.ClassOf(c))
		}
		src, err := k.M.Get(c, "src")
		if err != nil {
			return err
		}
		return k.same("the image", src, url)
	}
	s, err := k.shown(f.Type, v, f)
	if err != nil {
		return err
	}
	if dart.ClassOf(c) != "Tooltip" {
		return fmt.Errorf("it is a %s", dart.ClassOf(c))
	}
	tip, err := k.M.Get(c, "message")
	if err != nil {
		return err
	}
	if err := k.same("the tip", tip, s); err != nil {
		return err
	}
	return k.words(c, "child", s)
}

// selects goes through what can be done with the boxes that select rows.
func (k *view) selects(class string, rows []dval.D) error {
	rows = rows[:min(4, len(rows))]
	texts := map[string]bool{}
	for _, d := range rows {
		texts[dval.Text(d)] = true
	}
	if len(texts) < len(rows) || len(rows) == 0 {
		return nil
	}
	n := max(1, len(rows)-1) // the last one, when there are several, is of another page
	depth := k.c.Pick(2, 3)
	if strings.HasPrefix(k.group, "type ") { // the boxes are the same for every type
		depth--
	}
	for start := 0; start < 1<<len(rows); start++ {
		var path func(ops []int) error
		path = func(ops []int) error {
			if err := k.follow(class, rows[:n], rows[n:], start, ops); err != nil {
				return fmt.Errorf("the selection %b, boxes %v: %w", start, ops, err)
			}
			if len(ops) < depth {
				for o := -1; o < n; o++ {
					if err := path(append(append([]int{}, ops...), o)); err != nil {
						return err
					}
				}
			}
			return nil
		}
		if err := path(nil); err != nil {
			return err
		}
	}
	return nil
}

func (k *view) follow(class string, rows, others []dval.D, start int, ops []int) error {
	set := k.M.NewSet(k.file, k.hump)
	calls, wrong := 0, false
	infos, _, t, _, err := k.make(class, rows, set, dart.Native(func(a []any, named map[string]any) any {
		calls++
		wrong = wrong || len(a) != 2 || a[0] != k.ctx || a[1] != any(set)
		return nil
	}))
	if err != nil {
		return err
	}
	sel := map[int]bool{}
	for i := range rows {
		if start>>i&1 == 1 {
			sel[i] = true
			set.L = append(set.L, infos[i])
		}
	}
	more := 0
	if start>>len(rows)&1 == 1 {
		x, err := k.New(k.key, others[0])
		if err != nil {
			return err
		}
		more = 1
		set.L = append(set.L, x)
	}
	col, err := k.column(t, "select_checkbox")
	if err != nil {
		return err
	}
	box := func(o int) (any, any, error) {
		var b any
		var err error
		if o < 0 {
			b, err = k.cell(col, "headerBuilder", k.ctx)
		} else {
			b, err = k.cell(col, "cellBuilder", k.ctx, int64(0), int64(o), infos[o])
		}
		if err != nil {
			return nil, nil, err
		}
		if dart.ClassOf(b) != "Checkbox" {
			return nil, nil, fmt.Errorf("%s is no Checkbox", k.M.String(b))
		}
		v, err := k.M.Get(b, "value")
		return b, v, err
	}
	for _, o := range ops {
		b, v, err := box(o)
		if err != nil {
			return err
		}
		on, err := k.M.Get(b, "onChanged")
		if err != nil {
			return err
		}
		three, err := k.M.Get(b, "tristate")
		if err != nil {
			return err
		}
		// what a Checkbox gives when it is tapped
		var next any = v != true
		if v == nil {
			next = false
		} else if v == true && three == true {
			next = nil
		}
		calls = 0
		if _, err := k.M.Apply(on, next); err != nil {
			return err
		}
		if calls != 1 || wrong {
			return fmt.Errorf("onSelect is called %d times, wrongly: %v", calls, wrong)
		}
		if o >= 0 {
			sel[o] = !sel[o]
		} else {
			all := true
			for i := range rows {
				all = all && sel[i]
			}
			for i := range rows {
				sel[i] = !all
			}
		}
	}
	count := 0
	for i := range rows {
		_, v, err := box(i)
		if err != nil {
			return err
		}
		if v != sel[i] {
			return fmt.Errorf("the box of row %d is %s", i, k.M.String(v))
		}
		if sel[i] {
			count++
		}
	}
	_, v, err := box(-1)
	if err != nil {
		return err
	}
	var want any
	if count == 0 {
		want = false
	} else if count == len(rows) {
		want = true
	}
	if v != want {
		return fmt.Errorf("the box of all is %s with %d of %d rows", k.M.String(v), count, len(rows))
	}
	if len(set.L) != count && len(set.L) != count+more {
		return fmt.Errorf("%d are selected", len(set.L))
	}
	k.c.Trace(1)
	return nil
}
