package sqldb

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"
)

// Table has columns and rows of driver values; []byte is kept as string.
type Table struct {
	Cols []string
	Rows [][]any
}

func (t *Table) col(n string) int {
	for i, c := range t.Cols {
		if c == n {
			return i
		}
	}
	return -1
}

// Clone copies a table.
func (t *Table) Clone() *Table {
	n := &Table{Cols: t.Cols, Rows: make([][]any, len(t.Rows))}
	for i, r := range t.Rows {
		n.Rows[i] = append([]any{}, r...)
	}
	return n
}

// Stmt is a statement that reached the database.
type Stmt struct {
	Text   string
	Params []any
	Err    error // the statement is no good
	Count  int64
	ID     int64
}

// DB is a database.
type DB struct {
	Tables map[string]*Table
	Log    []Stmt
	// Fail, if set, is asked at every stage (exec, query, rows, affected, id) and can make it fail.
	Fail func(stage string) error
	ids  int64
}

// Clone copies the tables.
func (d *DB) Clone() *DB {
	n := &DB{Tables: map[string]*Table{}, ids: d.ids}
	for k, t := range d.Tables {
		n.Tables[k] = t.Clone()
	}
	return n
}

// Now is what NOW() is.
var Now = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// Open makes database/sql talk to d.
func Open(d *DB) *sql.DB { return sql.OpenDB(connector{d}) }

type connector struct{ d *DB }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.d}, nil }
func (c connector) Driver() driver.Driver                        { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, fmt.Errorf("no") }

type conn struct{ d *DB }

func (c *conn) Prepare(string) (driver.Stmt, error) {
	return nil, fmt.Errorf("statements are not prepared here")
}
func (c *conn) Close() error              { return nil }
func (c *conn) Begin() (driver.Tx, error) { return nil, fmt.Errorf("no transactions") }

func (c *conn) CheckNamedValue(v *driver.NamedValue) error {
	x, err := driver.DefaultParameterConverter.ConvertValue(v.Value)
	if err == nil {
		v.Value = x
		return nil
	}
	p, ok := v.Value.(uint64)
	if !ok {
		return err
	}
	v.Value = p
	return nil
}

func (c *conn) fail(stage string) error {
	if c.d.Fail != nil {
		return c.d.Fail(stage)
	}
	return nil
}

func params(args []driver.NamedValue) []any {
	out := make([]any, len(args))
	for i, a := range args {
		out[i] = norm(a.Value)
	}
	return out
}

func norm(v any) any {
	switch x := v.(type) {
	case []byte:
		if x == nil {
			return nil
		}
		return string(x)
	case bool:
		if x {
			return int64(1)
		}
		return int64(0)
	case time.Time:
		return x.UTC()
	}
	return v
}

func (c *conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := c.fail("exec"); err != nil {
		return nil, err
	}
	ps := params(args)
	n, id, err := c.d.Exec(q, ps)
	c.d.Log = append(c.d.Log, Stmt{q, ps, err, n, id})
	if err != nil {
		return nil, err
	}
	return &result{c, n, id}, nil
}

type result struct {
	c     *conn
	n, id int64
}

func (r *result) LastInsertId() (int64, error) {
	if err := r.c.fail("id"); err != nil {
		return 0, err
	}
	return r.id, nil
}

func (r *result) RowsAffected() (int64, error) {
	if err := r.c.fail("affected"); err != nil {
		return 0, err
	}
	return r.n, nil
}

func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := c.fail("query"); err != nil {
		return nil, err
	}
	ps := params(args)
	cols, out, err := c.d.Query(q, ps)
	c.d.Log = append(c.d.Log, Stmt{q, ps, err, 0, 0})
	if err != nil {
		return nil, err
	}
	return &rows{c: c, cols: cols, out: out}, nil
}

type rows struct {
	c    *conn
	cols []string
	out  [][]any
	i    int
}

func (r *rows) Columns() []string { return r.cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.out) {
		return io.EOF
	}
	if err := r.c.fail("rows"); err != nil {
		return err
	}
	for i, v := range r.out[r.i] {
		if s, ok := v.(string); ok {
			v = []byte(s)
		}
		dest[i] = v
	}
	r.i++
	return nil
}

// Exec runs an insert, update or delete.
func (d *DB) Exec(text string, ps []any) (int64, int64, error) {
	s, t, err := d.prepare(text, ps)
	if err != nil {
		return 0, 0, err
	}
	x := &ev{t: t, ps: ps}
	switch s.kind {
	case "insert":
		var add [][]any
		if s.cols != nil {
			for _, es := range s.rows {
				r := make([]any, len(t.Cols))
				for i, e := range es {
					v, err := x.val(e, nil)
					if err != nil {
						return 0, 0, err
					}
					r[t.col(s.cols[i])] = v
				}
				add = append(add, r)
			}
		} else {
			r := make([]any, len(t.Cols))
			for _, a := range s.sets {
				v, err := x.val(a.e, r)
				if err != nil {
					return 0, 0, err
				}
				r[t.col(a.col)] = v
			}
			add = append(add, r)
		}
		t.Rows = append(t.Rows, add...)
		d.ids += 10
		return int64(len(add)), d.ids, nil
	case "update", "delete":
		hit, err := x.pick(s)
		if err != nil {
			return 0, 0, err
		}
		in := map[int]bool{}
		for _, i := range hit {
			in[i] = true
		}
		var rest [][]any
		for i, r := range t.Rows {
			if !in[i] {
				rest = append(rest, r)
				continue
			}
			if s.kind == "delete" {
				continue
			}
			r = append([]any{}, r...)
			for _, a := range s.sets {
				v, err := x.val(a.e, r)
				if err != nil {
					return 0, 0, err
				}
				r[t.col(a.col)] = v
			}
			rest = append(rest, r)
		}
		t.Rows = rest
		return int64(len(hit)), 0, nil
	}
	return 0, 0, fmt.Errorf("%s as a command", s.kind)
}

// pick lists the rows a statement is about, in its order, limited.
func (x *ev) pick(s *stmt) (hit []int, err error) {
	for i, r := range x.t.Rows {
		if s.where != nil {
			v, err := x.val(s.where, r)
			if err != nil {
				return nil, err
			}
			if !truth(v) {
				continue
			}
		}
		hit = append(hit, i)
	}
	if s.kind == "select" && len(s.group) > 0 {
		return hit, nil
	}
	if hit, err = x.sort(s, hit, func(i int) []any { return x.t.Rows[i] }); err != nil {
		return nil, err
	}
	a, b, err := x.limits(s, len(hit))
	if err != nil {
		return nil, err
	}
	return hit[a:b], nil
}

func (x *ev) sort(s *stmt, hit []int, row func(i int) []any) ([]int, error) {
	var err error
	sort.SliceStable(hit, func(i, j int) bool {
		for _, o := range s.order {
			a, e1 := x.val(o.e, row(hit[i]))
			b, e2 := x.val(o.e, row(hit[j]))
			if e1 != nil || e2 != nil {
				err = e1
				return false
			}
			c := 0
			switch {
			case a == nil && b == nil:
			case a == nil:
				c = -1
			case b == nil:
				c = 1
			default:
				c = compare(a, b)
			}
			if o.desc {
				c = -c
			}
			if c != 0 {
				return c < 0
			}
		}
		return false
	})
	return hit, err
}

func (x *ev) limits(s *stmt, n int) (int, int, error) {
	num := func(e *expr) (int, error) {
		v, err := x.val(e, nil)
		if err != nil {
			return 0, err
		}
		switch k := v.(type) {
		case int64:
			if k >= 0 {
				if k > int64(n) {
					k = int64(n)
				}
				return int(k), nil
			}
		case uint64:
			if k > uint64(n) {
				k = uint64(n)
			}
			return int(k), nil
		}
		return 0, fmt.Errorf("a limit of %v", v)
	}
	a, b := 0, n
	var err error
	if s.offset != nil {
		if a, err = num(s.offset); err != nil {
			return 0, 0, err
		}
	}
	if s.limit != nil {
		if b, err = num(s.limit); err != nil {
			return 0, 0, err
		}
		b += a
	}
	if a > n {
		a = n
	}
	if b > n {
		b = n
	}
	return a, b, nil
}

// Query runs a select.
func (d *DB) Query(text string, ps []any) (cols []string, out [][]any, err error) {
	s, t, err := d.prepare(text, ps)
	if err != nil {
		return nil, nil, err
	}
	if s.kind != "select" {
		return nil, nil, fmt.Errorf("%s as a query", s.kind)
	}
	for i := range s.items {
		cols = append(cols, fmt.Sprint("c", i))
	}
	x := &ev{t: t, ps: ps}
	agg := false
	for _, e := range s.items {
		agg = agg || isAgg(e)
	}
	hit, err := x.pick(s)
	if err != nil {
		return nil, nil, err
	}
	one := func(first []any, set []int) error {
		x.set = set
		defer func() { x.set = nil }()
		var r []any
		for _, e := range s.items {
			v, err := x.val(e, first)
			if err != nil {
				return err
			}
			r = append(r, v)
		}
		out = append(out, r)
		return nil
	}
	if len(s.group) == 0 && !agg {
		for _, i := range hit {
			if err = one(t.Rows[i], nil); err != nil {
				return nil, nil, err
			}
		}
		return cols, out, nil
	}
	if len(s.group) == 0 {
		var first []any
		if len(hit) > 0 {
			first = t.Rows[hit[0]]
		}
		if hit == nil {
			hit = []int{}
		}
		if first == nil {
			first = make([]any, len(t.Cols))
		}
		if err = one(first, hit); err != nil {
			return nil, nil, err
		}
		return cols, out, nil
	}
	sets := map[string][]int{}
	var firsts []int
	for _, i := range hit {
		k := ""
		for _, e := range s.group {
			v, err := x.val(e, t.Rows[i])
			if err != nil {
				return nil, nil, err
			}
			k += fmt.Sprintf("%T:%v|", v, v)
		}
		if sets[k] == nil {
			firsts = append(firsts, i)
		}
		sets[k] = append(sets[k], i)
	}
	byFirst := map[int][]int{}
	for _, l := range sets {
		byFirst[l[0]] = l
	}
	if firsts, err = x.sort(s, firsts, func(i int) []any { return t.Rows[i] }); err != nil {
		return nil, nil, err
	}
	a, b, err := x.limits(s, len(firsts))
	if err != nil {
		return nil, nil, err
	}
	for _, i := range firsts[a:b] {
		if err = one(t.Rows[i], byFirst[i]); err != nil {
			return nil, nil, err
		}
	}
	return cols, out, nil
}

// cache of parsed statements
var (
	parsed   = map[string]*stmt{}
	parsedMu sync.Mutex
)

func (d *DB) prepare(text string, ps []any) (*stmt, *Table, error) {
	parsedMu.Lock()
	s := parsed[text]
	parsedMu.Unlock()
	if s == nil {
		var err error
		if s, err = parse(text); err != nil {
			return nil, nil, fmt.Errorf("syntax: %v", err)
		}
		parsedMu.Lock()
		if len(parsed) > 100000 {
			parsed = map[string]*stmt{}
		}
		parsed[text] = s
		parsedMu.Unlock()
	}
	if s.ques != len(ps) {
		return nil, nil, fmt.Errorf("%d placeholders and %d parameters", s.ques, len(ps))
	}
	t := d.Tables[s.table]
	if t == nil {
		return nil, nil, fmt.Errorf("no table %s", s.table)
	}
	seen := map[string]bool{}
	check := func(n string) error {
		if t.col(n) < 0 {
			return fmt.Errorf("no column %s in %s", n, s.table)
		}
		return nil
	}
	for _, a := range s.sets {
		if seen[a.col] {
			return nil, nil, fmt.Errorf("column %s twice", a.col)
		}
		seen[a.col] = true
		if err := check(a.col); err != nil {
			return nil, nil, err
		}
	}
	for _, c := range s.cols {
		if seen[c] {
			return nil, nil, fmt.Errorf("column %s twice", c)
		}
		seen[c] = true
		if err := check(c); err != nil {
			return nil, nil, err
		}
	}
	var walk func(e *expr) error
	walk = func(e *expr) error {
		if e == nil {
			return nil
		}
		if e.op == "col" {
			return check(e.name)
		}
		if e.op == "f" && !funcs[e.name] {
			return fmt.Errorf("no function %s", e.name)
		}
		if e.op == "*all" {
			return fmt.Errorf("a bare *")
		}
		for _, a := range e.args {
			if a.op == "*all" && e.op == "f" && e.name == "COUNT" {
				continue
			}
			if err := walk(a); err != nil {
				return err
			}
		}
		return nil
	}
	all := append([]*expr{s.where, s.limit, s.offset}, s.items...)
	all = append(all, s.group...)
	for _, o := range s.order {
		all = append(all, o.e)
	}
	for _, a := range s.sets {
		all = append(all, a.e)
	}
	for _, r := range s.rows {
		all = append(all, r...)
	}
	for _, e := range all {
		if err := walk(e); err != nil {
			return nil, nil, err
		}
	}
	return s, t, nil
}

var funcs = map[string]bool{"COUNT": true, "SUM": true, "MAX": true, "MIN": true, "CONCAT": true, "NOW": true, "IFNULL": true, "LOWER": true}
var aggs = map[string]bool{"COUNT": true, "SUM": true, "MAX": true, "MIN": true}

func isAgg(e *expr) bool {
	if e.op == "f" && aggs[e.name] {
		return true
	}
	for _, a := range e.args {
		if isAgg(a) {
			return true
		}
	}
	return false
}

type ev struct {
	t   *Table
	ps  []any
	set []int // the rows of an aggregate
}

func truth(v any) bool {
	switch n := v.(type) {
	case nil:
		return false
	case int64:
		return n != 0
	case uint64:
		return n != 0
	case float64:
		return n != 0
	case string:
		return n != "" && n != "0"
	}
	return true
}

func flag(b bool) any {
	if b {
		return int64(1)
	}
	return int64(0)
}

func rat(v any) *big.Rat {
	switch n := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(n)
	case uint64:
		return new(big.Rat).SetInt(new(big.Int).SetUint64(n))
	case float64:
		r := new(big.Rat)
		if r.SetFloat64(n) == nil {
			return new(big.Rat)
		}
		return r
	case string:
		r, ok := new(big.Rat).SetString(n)
		if ok {
			return r
		}
	}
	return new(big.Rat)
}

// compare orders two values that are not null.
func compare(a, b any) int {
	if x, ok := a.(time.Time); ok {
		if y, ok := b.(time.Time); ok {
			return x.Compare(y)
		}
		a = x.Format(time.RFC3339Nano)
	}
	if y, ok := b.(time.Time); ok {
		b = y.Format(time.RFC3339Nano)
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return bytes.Compare([]byte(x), []byte(y))
		}
	}
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	return rat(a).Cmp(rat(b))
}

func like(s, p []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], p[1:]) {
				return true
			}
		}
		return false
	case '_':
		return len(s) > 0 && like(s[1:], p[1:])
	}
	return len(s) > 0 && s[0] == p[0] && like(s[1:], p[1:])
}

func text(v any) string {
	if t, ok := v.(time.Time); ok {
		return t.Format("2006-01-02 15:04:05.000")
	}
	return fmt.Sprint(v)
}

func number(r *big.Rat) any {
	if r.IsInt() && r.Num().IsInt64() {
		return r.Num().Int64()
	}
	f, _ := r.Float64()
	return f
}

func (x *ev) val(e *expr, row []any) (any, error) {
	switch e.op {
	case "lit":
		return e.val, nil
	case "?":
		return x.ps[e.n], nil
	case "col":
		if row == nil {
			return nil, fmt.Errorf("column %s where there is no row", e.name)
		}
		return row[x.t.col(e.name)], nil
	case "f":
		return x.fun(e, row)
	}
	vs := make([]any, len(e.args))
	for i, a := range e.args {
		v, err := x.val(a, row)
		if err != nil {
			return nil, err
		}
		vs[i] = v
	}
	switch e.op {
	case "and":
		for _, v := range vs {
			if v != nil && !truth(v) {
				return flag(false), nil
			}
		}
		for _, v := range vs {
			if v == nil {
				return nil, nil
			}
		}
		return flag(true), nil
	case "or":
		for _, v := range vs {
			if truth(v) {
				return flag(true), nil
			}
		}
		for _, v := range vs {
			if v == nil {
				return nil, nil
			}
		}
		return flag(false), nil
	case "not":
		if vs[0] == nil {
			return nil, nil
		}
		return flag(!truth(vs[0])), nil
	case "isnull":
		return flag(vs[0] == nil), nil
	case "in":
		if vs[0] == nil {
			return nil, nil
		}
		null := false
		for _, v := range vs[1:] {
			if v == nil {
				null = true
			} else if compare(vs[0], v) == 0 {
				return flag(true), nil
			}
		}
		if null {
			return nil, nil
		}
		return flag(false), nil
	}
	for _, v := range vs {
		if v == nil {
			return nil, nil
		}
	}
	switch e.op {
	case "like":
		return flag(like([]rune(text(vs[0])), []rune(text(vs[1])))), nil
	case "=":
		return flag(compare(vs[0], vs[1]) == 0), nil
	case "<>":
		return flag(compare(vs[0], vs[1]) != 0), nil
	case "<":
		return flag(compare(vs[0], vs[1]) < 0), nil
	case "<=":
		return flag(compare(vs[0], vs[1]) <= 0), nil
	case ">":
		return flag(compare(vs[0], vs[1]) > 0), nil
	case ">=":
		return flag(compare(vs[0], vs[1]) >= 0), nil
	case "+":
		return number(new(big.Rat).Add(rat(vs[0]), rat(vs[1]))), nil
	case "-":
		return number(new(big.Rat).Sub(rat(vs[0]), rat(vs[1]))), nil
	case "*":
		return number(new(big.Rat).Mul(rat(vs[0]), rat(vs[1]))), nil
	case "/", "%":
		if rat(vs[1]).Sign() == 0 {
			return nil, nil
		}
		return number(new(big.Rat).Quo(rat(vs[0]), rat(vs[1]))), nil
	}
	return nil, fmt.Errorf("operator %s", e.op)
}

func (x *ev) fun(e *expr, row []any) (any, error) {
	if aggs[e.name] {
		if x.set == nil || len(e.args) != 1 {
			return nil, fmt.Errorf("%s where there is no group", e.name)
		}
		set := x.set
		x.set = nil
		defer func() { x.set = set }()
		n := int64(0)
		sum := new(big.Rat)
		var m any
		for _, i := range set {
			var v any = int64(1)
			if e.args[0].op != "*all" {
				var err error
				if v, err = x.val(e.args[0], x.t.Rows[i]); err != nil {
					return nil, err
				}
			}
			if v == nil {
				continue
			}
			n++
			sum.Add(sum, rat(v))
			if m == nil || e.name == "MAX" && compare(v, m) > 0 || e.name == "MIN" && compare(v, m) < 0 {
				m = v
			}
		}
		switch {
		case e.name == "COUNT":
			return n, nil
		case n == 0:
			return nil, nil
		case e.name == "SUM":
			return number(sum), nil
		}
		return m, nil
	}
	vs := make([]any, len(e.args))
	for i, a := range e.args {
		v, err := x.val(a, row)
		if err != nil {
			return nil, err
		}
		vs[i] = v
	}
	switch e.name {
	case "NOW":
		return Now, nil
	case "CONCAT":
		var b strings.Builder
		for _, v := range vs {
			if v == nil {
				return nil, nil
			}
			b.WriteString(text(v))
		}
		return b.String(), nil
	case "IFNULL":
		if len(vs) == 2 {
			if vs[0] != nil {
				return vs[0], nil
			}
			return vs[1], nil
		}
	case "LOWER":
		if len(vs) == 1 {
			if vs[0] == nil {
				return nil, nil
			}
			return strings.ToLower(text(vs[0])), nil
		}
	}
	return nil, fmt.Errorf("%s with %d arguments", e.name, len(vs))
}

// Param is how the database keeps a value.
func Param(v any) any {
	x, err := driver.DefaultParameterConverter.ConvertValue(v)
	if err != nil {
		x = v
	}
	return norm(x)
}
