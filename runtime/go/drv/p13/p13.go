// Package p13 drives generated database operations on a small database and compares what they do with what the tags
// declare.
package p13

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/drv/dbref"
	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/drv/sqldb"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/cache"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

type model struct {
	Order []string
	Data  map[string]*val.D
	Enums map[string][]int64
	X     []*dbref.X
	Group map[string]string
}

func Main(reg map[string]any) {
	var m model
	r := rep.Start(&m)
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	for i, k := range m.X {
		if !r.Mine(i) || r.Full() {
			continue
		}
		r.State(k.Key)
		x := &run{r: r, Ref: &dbref.Ref{W: w, X: k}, group: m.Group[k.Key]}
		x.all()
	}
	r.End()
}

type run struct {
	*dbref.Ref
	r     *rep.R
	group string
	base  *sqldb.DB
	table string
	bad   int
}

const prefix = "t_"

// methods of the operations
var methods = map[string]string{"get": "DbGet", "list": "DbList", "map": "DbMap", "count": "DbCount", "insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet", "del": "DbDel", "rm": "DbRemove"}
var opNames = []string{"get", "list", "map", "count", "insert", "inserts", "update", "set", "del", "rm"}

func (x *run) report(op, f string, a ...any) {
	x.bad++
	if x.bad < 4 {
		x.r.Violate(x.group+" "+op, "%s of %s: %s", methods[op], x.Key, fmt.Sprintf(f, a...))
	}
}

func (x *run) all() {
	x.table = prefix + x.Table
	full := x.Ref.Make(70)
	x.base = &sqldb.DB{Tables: map[string]*sqldb.Table{x.table: full}}
	// tables that are none of its business
	for _, n := range []string{x.Table, prefix + strings.TrimPrefix(x.Table, "sch."), prefix + "q", prefix + "other"} {
		if x.base.Tables[n] == nil {
			x.base.Tables[n] = &sqldb.Table{Cols: full.Cols, Rows: full.Clone().Rows[:1]}
		}
	}
	empty := x.base.Clone()
	empty.Tables[x.table].Rows = nil
	if x.Own {
		x.scan()
	}
	for _, op := range opNames {
		x.bad = 0
		if !x.Has(op) {
			continue
		}
		if op == "inserts" {
			row, fs := x.RowOf(op)
			var objs []val.Obj
			dom := x.Dom
			if row == x.Row {
				dom = x.RDom
			}
			x.Objects(row, fs, dom, 40, func(o val.Obj) { objs = append(objs, o) })
			lists := [][]val.Obj{nil, {}}
			for i := range objs {
				lists = append(lists, objs[i:i+1], []val.Obj{objs[i], objs[(i*7+1)%len(objs)]})
			}
			lists = append(lists, objs)
			for _, l := range lists {
				x.step(op, x.base, val.Obj{}, l, "")
			}
			for _, st := range []string{"exec", "affected", "id"} {
				x.step(op, x.base, val.Obj{}, lists[2], st)
			}
			continue
		}
		n := 0
		max := 200
		if x.r.Tier == "thorough" {
			max = 700
		}
		x.Objects(x.Key, x.F, x.Dom, max, func(o val.Obj) {
			if x.emptyList(o) {
				return
			}
			n++
			x.step(op, x.base, o, nil, "")
			if n%5 == 1 {
				x.step(op, empty, o, nil, "")
			}
			if n < 4 {
				for _, st := range []string{"exec", "affected", "id", "query", "rows"} {
					x.step(op, x.base, o, nil, st)
				}
			}
		})
	}
}

// emptyList: a list that is always a condition has no elements; what that means is open.
func (x *run) emptyList(o val.Obj) bool {
	for _, f := range x.F {
		t := x.Field(x.Key, f.Name).Type
		if l, _ := o[f.Name].([]any); t.Kind == 1 && !t.Out && len(f.Where) == 1 && len(l) == 0 {
			return true
		}
	}
	return false
}

var boom = errors.New("the database is out of order")

func show(o val.Obj, l []val.Obj) string {
	s := val.Text(o)
	for _, x := range l {
		s += " " + val.Text(x)
	}
	return s
}

func (x *run) step(op string, base *sqldb.DB, o val.Obj, list []val.Obj, failAt string) {
	x.r.Step(1)
	want := x.Op(op, x.table, o, list)
	got := base.Clone()
	failed := false
	if failAt != "" {
		got.Fail = func(stage string) error {
			if stage == failAt {
				failed = true
				return boom
			}
			return nil
		}
	}
	sd := sqldb.Open(got)
	defer sd.Close()
	ctx := db.With(context.Background(), &db.Database{DB: sd, Prefix: prefix})
	ctx = cache.With(ctx, cache.NewStore())
	v := x.W.New(x.Key)
	if err := x.W.Fill(x.W.Data[x.Key], v, o); err != nil {
		x.report(op, "%v", err)
		return
	}
	args := []any{ctx}
	if op == "inserts" {
		row, _ := x.RowOf(op)
		l := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(x.W.New(row))), 0, 0)
		for _, e := range list {
			y := x.W.New(row)
			if err := x.W.Fill(x.W.Data[row], y, e); err != nil {
				x.report(op, "%v", err)
				return
			}
			l = reflect.Append(l, reflect.ValueOf(y))
		}
		args = append(args, l.Interface())
	}
	out, bad := dbref.Dyn(v, methods[op], args...)
	if bad != "" {
		x.report(op, "%s: %s", show(o, list), bad)
		return
	}
	x.r.Trace(1)
	text := "no statement"
	for i, s := range got.Log {
		if i == 0 {
			text = ""
		}
		text += fmt.Sprintf("%s %v; ", s.Text, s.Params)
	}
	fail := func(f string, a ...any) {
		x.report(op, "%s: %s\n  issued: %s\n  declared: %s %v", show(o, list), fmt.Sprintf(f, a...), text, want.Text, want.Ps)
	}
	if n := len(out); n < 2 {
		fail("%d results", n)
		return
	}
	err, _ := out[len(out)-1].(error)
	if failed {
		if !errors.Is(err, boom) {
			fail("the database failed (%s), but the error is %v", failAt, err)
		}
		if failAt != "affected" && failAt != "id" {
			if t := x.diff(base, got, "", false); t != "" {
				fail("the database failed, but %s", t)
			}
		}
		return
	}
	if want.Kind == "free" {
		if t := x.diff(base, got, "", false); t != "" {
			fail("nothing can be done, but %s", t)
		}
		return
	}
	if want.Kind == "none" && len(got.Log) == 0 {
		if err != nil {
			fail("error %v", err)
		}
		return
	}
	if len(got.Log) != 1 {
		fail("%d statements", len(got.Log))
		return
	}
	st := got.Log[0]
	if st.Err != nil {
		fail("a bad statement: %v", st.Err)
		return
	}
	if err != nil {
		fail("error %v", err)
		return
	}
	ref := base.Clone()
	if want.Kind == "exec" {
		if _, _, err := ref.Exec(want.Text, want.Ps); err != nil {
			panic(fmt.Sprintf("%v: %s %v", err, want.Text, want.Ps))
		}
		if t := x.diff(ref, got, op, x.Fake && (op == "del" || op == "update" || op == "set")); t != "" {
			fail("%s", t)
			return
		}
		if out[0] != any(st.Count) || out[1] != any(st.ID) {
			fail("the results are %v, %v, but the database said %d, %d", out[0], out[1], st.Count, st.ID)
		}
		return
	}
	_, rows, err := ref.Query(want.Text, want.Ps)
	if err != nil {
		panic(fmt.Sprintf("%v: %s %v", err, want.Text, want.Ps))
	}
	if t := x.diff(ref, got, "", false); t != "" {
		fail("%s", t)
		return
	}
	if t := x.result(op, want, rows, out[0]); t != "" {
		fail("%s", t)
	}
}

// result compares what a query returned with the rows.
func (x *run) result(op string, want dbref.Want, rows [][]any, got any) string {
	rt := reflect.TypeOf(nil)
	if want.Row != "" {
		rt = reflect.TypeOf(x.W.New(want.Row)).Elem()
	}
	g := reflect.ValueOf(got)
	switch op {
	case "count":
		n := int64(0)
		if len(rows) > 0 {
			n = rows[0][0].(int64)
		}
		if got != any(n) {
			return fmt.Sprintf("counts %v, not %d", got, n)
		}
	case "get":
		if g.Type() != reflect.PtrTo(rt) {
			return fmt.Sprintf("returns %v", g.Type())
		}
		if len(rows) == 0 {
			if !g.IsNil() {
				return "returns a row, but there is none"
			}
			return ""
		}
		if g.IsNil() {
			return "returns no row"
		}
		if err := x.SameRow(got, want.Row, want.To, rows[0]); err != nil {
			return err.Error()
		}
	case "list":
		if g.Type() != reflect.SliceOf(rt) {
			return fmt.Sprintf("returns %v", g.Type())
		}
		if g.Len() != len(rows) {
			return fmt.Sprintf("%d rows, not %d", g.Len(), len(rows))
		}
		for i := range rows {
			if err := x.SameRow(g.Index(i).Addr().Interface(), want.Row, want.To, rows[i]); err != nil {
				return fmt.Sprintf("row %d: %v", i, err)
			}
		}
	case "map":
		if g.Kind() != reflect.Map || g.Type().Elem() != rt {
			return fmt.Sprintf("returns %v", g.Type())
		}
		kf := x.Field(want.Row, want.Map)
		last := map[any][]any{} // the last row of a key
		for _, r := range rows {
			last[x.keyOf(want, r, kf)] = r
		}
		if kf.Type.Name == "decimal" && !strings.HasPrefix(x.group, "decimal key") {
			return "" // equal decimals are different keys in Go, see the group "decimal key"
		}
		if g.Len() != len(last) {
			return fmt.Sprintf("%d rows, not %d", g.Len(), len(last))
		}
		seen := map[any]bool{}
		for _, k := range g.MapKeys() {
			e := reflect.New(rt)
			e.Elem().Set(g.MapIndex(k))
			p, err := db.Plain(k.Interface())
			if err != nil {
				return err.Error()
			}
			key := text(sqldb.Param(p))
			if seen[key] {
				return fmt.Sprintf("the key %v twice", key)
			}
			seen[key] = true
			r, ok := last[key]
			if !ok {
				return fmt.Sprintf("the key %v is in no row", key)
			}
			if err := x.SameRow(e.Interface(), want.Row, want.To, r); err != nil {
				return fmt.Sprintf("row of %v: %v", key, err)
			}
		}
	}
	return ""
}

func text(v any) any { return fmt.Sprint(v) }

func (x *run) keyOf(w dbref.Want, r []any, kf val.F) any {
	for i, f := range w.To {
		if f.Name == kf.Name {
			v := r[i]
			if v == nil {
				t := kf.Type
				t.Null = false
				v = x.Param(t, false, nil, false)
			}
			return text(v)
		}
	}
	panic("the key is not read")
}

// diff compares databases; hidden rows may have been changed when soft.
func (x *run) diff(want, got *sqldb.DB, op string, soft bool) string {
	js := map[string]bool{}
	for _, f := range x.R {
		js[f.Col] = f.Json
	}
	for n, wt := range want.Tables {
		gt := got.Tables[n]
		if len(wt.Rows) != len(gt.Rows) {
			return fmt.Sprintf("table %s has %d rows, not %d", n, len(gt.Rows), len(wt.Rows))
		}
		for i, w := range wt.Rows {
			g := gt.Rows[i]
			d := len(w) - 1
			hidden := false
			if soft && n == x.table {
				old := x.base.Tables[n].Rows[i]
				hidden = old[d] != nil
			}
			for c := range w {
				if dbref.Eq(w[c], g[c], js[wt.Cols[c]]) {
					continue
				}
				if hidden && op != "del" || hidden && c == d && g[c] != nil {
					continue
				}
				return fmt.Sprintf("in table %s row %v became %v, not %v (%s)", n, old(x.base, n, i), g, w, wt.Cols[c])
			}
		}
	}
	return ""
}

func old(d *sqldb.DB, n string, i int) any {
	if t := d.Tables[n]; i < len(t.Rows) {
		return t.Rows[i]
	}
	return "new"
}

// scan checks the columns a type announces and the places their values go.
func (x *run) scan() {
	x.r.Step(1)
	v := x.W.New(x.Key)
	out, bad := dbref.Dyn(v, "DbScan")
	if bad != "" || len(out) != 2 {
		x.r.Violate(x.group+" scan", "DbScan of %s: %s %v", x.Key, bad, out)
		return
	}
	items, _ := out[0].(string)
	decl, fs := x.Cols(x.F)
	ref := x.base.Clone()
	ref.Tables[x.table].Rows = ref.Tables[x.table].Rows[:4]
	_, rows, err := ref.Query("SELECT "+strings.Join(decl, ", ")+" FROM "+x.table, nil)
	if err != nil {
		if strings.Contains(err.Error(), "group") {
			return
		}
		panic(err)
	}
	sd := sqldb.Open(ref)
	defer sd.Close()
	rs, err := sd.Query("SELECT " + items + " FROM " + x.table)
	if err != nil {
		x.r.Violate(x.group+" scan", "DbScan of %s: %q: %v", x.Key, items, err)
		return
	}
	defer rs.Close()
	for i := 0; rs.Next(); i++ {
		x.r.Trace(1)
		var to []any
		v = x.W.New(x.Key) // the places of a new value
		if out, _ = dbref.Dyn(v, "DbScan"); len(out) != 2 {
			return
		}
		to, _ = out[1].([]any)
		if err := rs.Scan(to...); err != nil {
			x.r.Violate(x.group+" scan", "DbScan of %s: %q: %v", x.Key, items, err)
			return
		}
		if err := x.SameRow(v, x.Key, fs, rows[i]); err != nil {
			x.r.Violate(x.group+" scan", "DbScan of %s: %q: %v", x.Key, items, err)
			return
		}
	}
}
