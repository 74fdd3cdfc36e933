// Package p14 explores histories of cached database operations: every operation from every state of the database and
// the cache, with a failure or another operation before every step.
package p14

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/drv/dbref"
	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/drv/sqldb"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/cache"
	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

type typ struct {
	dbref.X
	Unit     string
	Min, Max int64 // seconds
}

type model struct {
	Order []string
	Data  map[string]*val.D
	Enums map[string][]int64
	X     []*typ
	Group map[string]string
}

const prefix = "t_"

var methods = map[string]string{"get": "DbGet", "list": "DbList", "map": "DbMap", "count": "DbCount", "insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet", "del": "DbDel", "rm": "DbRemove"}
var opNames = []string{"get", "list", "map", "count", "insert", "inserts", "update", "set", "del", "rm"}

// Main explores the worlds of the model: types that share a unit.
func Main(reg map[string]any) {
	var m model
	r := rep.Start(&m)
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	var names []string
	worlds := map[string][]*typ{}
	for _, x := range m.X {
		n := x.Unit + " " + x.Table
		if strings.HasPrefix(m.Group[x.Key], "two ") {
			n = x.Unit
		}
		if worlds[n] == nil {
			names = append(names, n)
		}
		worlds[n] = append(worlds[n], x)
	}
	jobs := make(chan func())
	for i := 0; i < runtime.GOMAXPROCS(0); i++ {
		go func() {
			for f := range jobs {
				f()
			}
		}()
	}
	var all sync.WaitGroup
	some := make(chan bool, 6)
	for _, n := range names {
		g := &world{r: r, w: w, group: m.Group[worlds[n][0].Key], name: n, jobs: jobs, want: map[[16]byte]outcome{}, seen: map[[16]byte]bool{}}
		mu.Lock()
		r.State(g.group)
		mu.Unlock()
		all.Add(1)
		some <- true // so many worlds at a time
		xs := worlds[n]
		go func() {
			defer all.Done()
			starting.Lock()
			g.start(xs)
			starting.Unlock()
			g.explore()
			<-some
		}()
	}
	all.Wait()
	r.End()
}

// mu guards the report, starting the values of the types.
var mu, starting sync.Mutex

// act is one call of a generated operation.
type act struct {
	x    *typ
	ref  *dbref.Ref
	op   string
	args []any
	v    any
	name string
	read bool
}

type state struct {
	db    *sqldb.DB
	store *cache.Store
	path  []string
	key   string
	dbKey string
}

type outcome struct {
	res, err, db string
}

type world struct {
	r     *rep.R
	w     *val.World
	jobs  chan func()
	group string
	name  string
	acts  []*act
	init  []*state
	deep  bool
	seen  map[[16]byte]bool // states found
	mu    sync.Mutex
	want  map[[16]byte]outcome // what happens without a cache
	bad   int32
}

func (g *world) report(op string, s *state, f string, a ...any) {
	if atomic.AddInt32(&g.bad, 1) < 6 {
		mu.Lock()
		defer mu.Unlock()
		g.r.Violate(g.group+" "+op, "%s\n  history: %s\n  before: %s", fmt.Sprintf(f, a...), strings.Join(s.path, "; "), s.key)
	}
}

// each runs f for 0 to n-1 on the workers.
func (g *world) each(n int, f func(i int)) {
	var wg sync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		g.jobs <- func() {
			defer wg.Done()
			f(i)
		}
	}
	wg.Wait()
}

func (g *world) start(xs []*typ) {
	g.deep = strings.HasPrefix(g.group, "deep") || strings.HasPrefix(g.group, "two")
	per := 2
	rows := 5
	if g.deep {
		per, rows = 3, 4
		if len(xs) > 1 {
			per, rows = 2, 3
		}
	}
	base := &sqldb.DB{Tables: map[string]*sqldb.Table{}}
	for _, x := range xs {
		ref := &dbref.Ref{W: g.w, X: &x.X}
		if base.Tables[prefix+x.Table] == nil {
			t := ref.Make(70)
			if len(t.Rows) > rows {
				t.Rows = t.Rows[:rows]
			}
			base.Tables[prefix+x.Table] = t
		}
		for _, op := range opNames {
			if ref.Has(op) {
				g.add(x, ref, op, per)
			}
		}
	}
	empty := base.Clone()
	for _, t := range empty.Tables {
		t.Rows = nil
	}
	g.init = []*state{{db: base, store: cache.NewStore(), path: []string{"rows"}}, {db: empty, store: cache.NewStore(), path: []string{"no rows"}}}
}

func hash(s string) (h [16]byte) {
	f := fnv.New128a()
	_, _ = f.Write([]byte(s))
	f.Sum(h[:0])
	return
}

// found notes a state; false when it was known.
func (g *world) found(s *state) bool {
	h := hash(s.key)
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.seen[h] {
		return false
	}
	g.seen[h] = true
	return true
}

func (s *state) name() {
	s.dbKey = dbText(s.db)
	s.key = s.dbKey + " cache " + storeText(s.store)
}

// expand checks the new states one operation away, and lists them if they are to be expanded.
func (g *world) expand(s *state, nest, pairs, last bool) (out []*state) {
	steps := 0
	push := func(n *state) {
		steps++
		if n.name(); g.found(n) {
			g.check(n)
			if !last {
				n.key = ""
				out = append(out, n)
			}
		}
	}
	for _, a := range g.acts {
		if atomic.LoadInt32(&g.bad) > 20 {
			break
		}
		n, stages := g.step(s, a)
		push(n)
		for k := range stages {
			n, more := g.fault(s, a, []int{k})
			push(n)
			if pairs {
				for k2 := k + 1; k2 < len(more); k2++ {
					n, _ := g.fault(s, a, []int{k, k2})
					push(n)
				}
			}
			if nest {
				for _, b := range g.acts {
					if n := g.between(s, a, k, stages, b); n != nil {
						push(n)
					}
				}
			}
		}
	}
	mu.Lock()
	g.r.Step(steps)
	mu.Unlock()
	return
}

// explore goes breadth first: every new state has its reads checked, then every operation is run from it.
func (g *world) explore() {
	depth, nest, pairs := 2, 0, 0 // operations in a row; how deep others are put between the steps
	switch thorough := g.r.Tier == "thorough"; {
	case g.deep && thorough && strings.HasPrefix(g.group, "deep own"):
		depth, nest, pairs = 4, 1, 1
	case g.deep && thorough:
		depth, nest, pairs = 3, 1, 1
	case g.deep && !strings.HasPrefix(g.group, "deep own"):
		depth, nest, pairs = 2, 1, 1
	case g.deep:
		depth, nest, pairs = 3, 1, 1
	case thorough:
		depth, nest, pairs = 2, 1, 1
	}
	front := g.init
	for _, s := range front {
		s.name()
		g.found(s)
	}
	g.each(len(front), func(i int) { g.check(front[i]) })
	for d := 0; d < depth; d++ {
		found := make([][]*state, len(front))
		g.each(len(front), func(i int) {
			front[i].name()
			found[i] = g.expand(front[i], d < nest, d < pairs, d == depth-1)
			front[i] = nil
		})
		front = nil
		for _, l := range found {
			front = append(front, l...)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	g.r.Outcome(fmt.Sprintf("%s: %d operations, depth %d, %d states", g.group, len(g.acts), depth, len(g.seen)))
	for i := 0; i < len(g.seen); i++ {
		g.r.State(fmt.Sprintf("%s state %d", g.name, i))
	}
	g.seen, g.want, g.acts, g.init = nil, nil, nil, nil
}

// add makes calls of an operation that differ in what they ask for.
func (g *world) add(x *typ, ref *dbref.Ref, op string, per int) {
	type call struct {
		o    val.Obj
		list []val.Obj
	}
	var calls []call
	seen := map[string]bool{}
	note := func(o val.Obj, l []val.Obj) {
		w := ref.Op(op, prefix+x.Table, o, l)
		k := fmt.Sprint(w.Text, w.Ps)
		if !seen[k] {
			seen[k] = true
			calls = append(calls, call{o, l})
		}
	}
	if op == "inserts" {
		row, fs := ref.RowOf(op)
		dom := x.Dom
		if row == x.Row {
			dom = x.RDom
		}
		var objs []val.Obj
		ref.Objects(row, fs, dom, 40, func(o val.Obj) { objs = append(objs, o) })
		note(val.Obj{}, []val.Obj{objs[len(objs)/2]})
		note(val.Obj{}, []val.Obj{objs[0], objs[len(objs)-1]})
		note(val.Obj{}, nil)
	} else {
		ref.Objects(x.Key, x.F, x.Dom, 60, func(o val.Obj) {
			for _, f := range x.F {
				t := ref.Field(x.Key, f.Name).Type
				if l, _ := o[f.Name].([]any); t.Kind == 1 && !t.Out && len(f.Where) == 1 && len(l) == 0 {
					return // an empty list as a condition
				}
			}
			note(o, nil)
		})
	}
	n := len(calls)
	k := per
	if n < k {
		k = n
	}
	for i := 0; i < k; i++ {
		j := 0
		if k > 1 {
			j = i * (n - 1) / (k - 1)
		}
		c := calls[j]
		a := &act{x: x, ref: ref, op: op, read: op == "get" || op == "list" || op == "map" || op == "count"}
		a.name = x.Key[strings.LastIndexAny(x.Key, ":/")+1:] + "." + methods[op] + val.Text(c.o)
		for _, l := range c.list {
			a.name += "+" + val.Text(l)
		}
		a.v = g.fill(x.Key, c.o)
		if op == "inserts" {
			row, _ := ref.RowOf(op)
			l := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(g.w.New(row))), 0, 0)
			for _, e := range c.list {
				l = reflect.Append(l, reflect.ValueOf(g.fill(row, e)))
			}
			a.args = append(a.args, l.Interface())
		}
		g.acts = append(g.acts, a)
	}
}

func (g *world) fill(key string, o val.Obj) any {
	v := g.w.New(key)
	if err := g.w.Fill(g.w.Data[key], v, o); err != nil {
		panic(err)
	}
	return v
}

// call runs an operation; hook is asked before every step.
func (g *world) call(a *act, d *sqldb.DB, st *cache.Store, hook func(stage string) error) (res string, err error) {
	d.Fail, st.Fail = nil, nil
	if hook != nil {
		d.Fail = hook
		st.Fail = func(op, table string) error { return hook("cache " + op) }
	}
	sd := sqldb.Open(d)
	defer sd.Close()
	defer func() { d.Fail, st.Fail = nil, nil }()
	ctx := cache.With(db.With(context.Background(), &db.Database{DB: sd, Prefix: prefix}), st)
	out, bad := dbref.Dyn(a.v, methods[a.op], append([]any{ctx}, a.args...)...)
	if bad != "" {
		return "crash", errors.New(bad)
	}
	for _, t := range cache.Kept(ctx) {
		if t < time.Duration(a.x.Min)*time.Second || t > time.Duration(a.x.Max)*time.Second {
			return fmt.Sprintf("kept for %v, which is not within %d to %d seconds", t, a.x.Min, a.x.Max), nil
		}
	}
	err, _ = out[len(out)-1].(error)
	if err != nil {
		return "", err
	}
	if !a.read {
		return fmt.Sprint(out[0]), nil
	}
	return g.canon(a, out[0]), nil
}

// canon is a text of what a read returned.
func (g *world) canon(a *act, v any) string {
	if a.op == "count" {
		return fmt.Sprint(v)
	}
	row, fs := a.ref.RowOf(a.op)
	one := func(v reflect.Value) string {
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return "none"
		}
		var b strings.Builder
		b.WriteByte('{')
		js := map[string]dbref.F{}
		for _, f := range fs {
			js[f.Name] = f
		}
		for _, f := range g.w.Data[row].Fields {
			h, err := a.ref.Held(v.Interface(), row, dbref.F{Name: f.Name, Json: js[f.Name].Json || f.Type.Kind != 0 || f.Type.Ref == "data"})
			if err != nil {
				h = err
			}
			fmt.Fprintf(&b, "%s:%T %v ", f.Name, h, h)
		}
		b.WriteByte('}')
		return b.String()
	}
	g2 := reflect.ValueOf(v)
	switch a.op {
	case "get":
		return one(g2)
	case "list":
		var b strings.Builder
		for i := 0; i < g2.Len(); i++ {
			b.WriteString(one(g2.Index(i)))
		}
		return b.String()
	}
	var l []string
	for _, k := range g2.MapKeys() {
		p, _ := db.Plain(k.Interface())
		l = append(l, fmt.Sprint(p)+"="+one(g2.MapIndex(k)))
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// alone is what an operation does to a database without anything in the cache.
func (g *world) alone(a *act, d *sqldb.DB, key string) outcome {
	k := hash(a.name + " " + key)
	g.mu.Lock()
	o, ok := g.want[k]
	g.mu.Unlock()
	if ok {
		return o
	}
	c := d.Clone()
	res, err := g.call(a, c, cache.NewStore(), nil)
	o = outcome{res, errText(err), dbText(c)}
	g.mu.Lock()
	g.want[k] = o
	g.mu.Unlock()
	if a.read && o.db != key {
		g.report(a.op, &state{key: key}, "%s changes the database", a.name)
	}
	if strings.HasPrefix(res, "kept for") || res == "crash" {
		g.report(a.op, &state{key: key}, "%s: %s %s", a.name, res, o.err)
	}
	return o
}

// check compares every read in a state with the database.
func (g *world) check(s *state) {
	n := 0
	for _, a := range g.acts {
		if !a.read {
			continue
		}
		n++
		res, err := g.call(a, s.db.Clone(), s.store.Clone(), nil)
		want := g.alone(a, s.db, s.dbKey)
		if res != want.res || errText(err) != want.err {
			g.report(a.op, s, "%s returns %s %v, but the database has %s %s", a.name, res, err, want.res, want.err)
		}
	}
	mu.Lock()
	g.r.Trace(n)
	mu.Unlock()
}

func (s *state) next(what string) *state {
	return &state{db: s.db.Clone(), store: s.store.Clone(), path: append(append([]string{}, s.path...), what)}
}

func (g *world) locks(s, n *state, a *act) {
	if l := n.store.Held(); len(l) > 0 {
		g.report(a.op, s, "after %s the lock of %v is held", n.path[len(n.path)-1], l)
		n.store.Locks = map[string]map[*cache.Session]int{}
	}
}

// step runs an operation and lists its steps.
func (g *world) step(s *state, a *act) (*state, []string) {
	n := s.next(a.name)
	var stages []string
	res, err := g.call(a, n.db, n.store, func(st string) error { stages = append(stages, st); return nil })
	want := g.alone(a, s.db, s.dbKey)
	if res != want.res || errText(err) != want.err || dbText(n.db) != want.db {
		g.report(a.op, s, "%s returns %s %v and leaves %s; without a cache: %s %s and %s", a.name, res, err, dbText(n.db), want.res, want.err, want.db)
	}
	g.locks(s, n, a)
	return n, stages
}

var boom = errors.New("out of order")

// fault runs an operation whose steps at some places fail.
func (g *world) fault(s *state, a *act, at []int) (*state, []string) {
	n := s.next(a.name)
	var seen, failed []string
	i := 0
	res, err := g.call(a, n.db, n.store, func(st string) error {
		seen = append(seen, st)
		i++
		for _, k := range at {
			if k == i-1 {
				failed = append(failed, st)
				return boom
			}
		}
		return nil
	})
	what := a.name + " with " + strings.Join(failed, ", ") + " failing"
	n.path[len(n.path)-1] = what
	want := g.alone(a, s.db, s.dbKey)
	must, may := false, false // the error is returned, or may be
	clean := true             // the database is as it was
	for _, f := range failed {
		switch f {
		case "exec", "query", "rows", "cache del":
			must = true
		case "affected", "id":
			must, clean = true, false
		case "cache unlock":
			may = !a.read
		}
	}
	switch {
	case res == "crash" || strings.HasPrefix(res, "kept for"):
		g.report(a.op, s, "%s: %s %v", what, res, err)
	case must && !errors.Is(err, boom):
		g.report(a.op, s, "%s returns %s and the error %v", what, res, err)
	case must && clean && dbText(n.db) != s.dbKey:
		g.report(a.op, s, "%s changes the database to %s", what, dbText(n.db))
	case !must && may && errors.Is(err, boom):
	case !must && (res != want.res || errText(err) != want.err || dbText(n.db) != want.db):
		g.report(a.op, s, "%s returns %s %v and leaves %s, but the database has %s %s and %s", what, res, err, dbText(n.db), want.res, want.err, want.db)
	}
	g.locks(s, n, a)
	return n, seen
}

// between runs another operation before one step of an operation.
func (g *world) between(s *state, a *act, at int, stages []string, b *act) *state {
	if !b.read && a.read {
		// what a read stores after the rows were read is up to the library
		switch stages[at] {
		case "cache get", "query", "cache unlock":
		default:
			return nil
		}
	}
	if !b.read && !a.read && (stages[at] == "affected" || stages[at] == "id") && at == 0 {
		return nil
	}
	what := a.name + " with " + b.name + " before " + stages[at]
	n := s.next(what)
	i := 0
	var hook func(st string) error
	hook = func(st string) error {
		i++
		if i-1 != at {
			return nil
		}
		k := dbText(n.db)
		want := g.alone(b, n.db, k)
		before := n.db.Log
		res, err := g.call(b, n.db, n.store, nil)
		n.db.Log = before
		n.db.Fail = hook
		n.store.Fail = func(op, table string) error { return hook("cache " + op) }
		if res != want.res || errText(err) != want.err || dbText(n.db) != want.db {
			g.report(b.op, s, "%s returns %s %v and leaves %s, but the database has %s %s and %s", what, res, err, dbText(n.db), want.res, want.err, want.db)
		}
		return nil
	}
	res, err := g.call(a, n.db, n.store, hook)
	if b.read {
		want := g.alone(a, s.db, s.dbKey)
		if res != want.res || errText(err) != want.err || dbText(n.db) != want.db {
			g.report(a.op, s, "%s returns %s %v and leaves %s, but without a cache %s %s and %s", what, res, err, dbText(n.db), want.res, want.err, want.db)
		}
	} else if err != nil && g.alone(a, s.db, s.dbKey).err == "" {
		c := s.db.Clone() // it may fail when the other comes first
		_, _ = g.call(b, c, cache.NewStore(), nil)
		if g.alone(a, c, dbText(c)).err == "" {
			g.report(a.op, s, "%s fails: %v", what, err)
		}
	}
	g.locks(s, n, a)
	return n
}

func dbText(d *sqldb.DB) string {
	var ks []string
	for k := range d.Tables {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		for _, r := range d.Tables[k].Rows {
			b.WriteByte('(')
			for _, v := range r {
				if t, ok := v.(time.Time); ok {
					fmt.Fprintf(&b, "%d ", t.UnixNano())
				} else {
					fmt.Fprintf(&b, "%v ", v)
				}
			}
			b.WriteByte(')')
		}
	}
	return b.String()
}

func storeText(s *cache.Store) string {
	var l []string
	for t, m := range s.Data {
		for k, v := range m {
			l = append(l, t+" "+k+" = "+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
