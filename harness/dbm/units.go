package dbm

import (
	"fmt"
	"strings"

	"verif/harness/schemas"
)

// Unit is a schema.
type Unit struct {
	Group string
	Files map[string]string
}

const user = "data User {\n [db: key=\"true\"]\n int64 id = 1\n [db: name=\"user_name\"]\n [dom: v=\"a\",\"ab\"]\n string? name = 2\n [db: ]\n [dom: v=\"1\",\"5\"]\n int32 age = 3\n [db: ]\n bool? flag = 4\n int32 free = 5\n}\n"

// Filters are the fields of a query: '@' is a suffix of names, '#' a number.
var Filters = []string{
	" [db: where=\"AND id = ?\"]\n int64? q@ = #\n",
	" [db: where=\"AND id = ?\"]\n int64 q@ = #\n",
	" [db: where=\"AND age > ?\"]\n [dom: v=\"1\",\"4\"]\n int32? q@ = #\n",
	" [db: where=\"AND age > ?\",\"AND age < ?\"]\n [dom: v=\"1\",\"5\",\"4\"]\n int32[]? q@ = #\n",
	" [db: where=\"AND age > ?\",\"AND age < ?\"]\n [dom: v=\"1\",\"5\"]\n int32?[]? q@ = #\n",
	" [db: where=\"AND age >= ?\",\"AND age <= ?\"]\n [dom: v=\"1\",\"5\"]\n int32[] q@ = #\n",
	" [db: where=\"AND id IN(?)\"]\n int64[]? q@ = #\n",
	" [db: where=\"AND age NOT IN (?) AND id <> 1\"]\n [dom: v=\"1\",\"5\"]\n int32[]? q@ = #\n",
	" [db: where=\"AND user_name LIKE CONCAT('%', ?, '%')\"]\n [dom: v=\"a\",\"b\"]\n string? q@ = #\n",
	" [db: where=\"AND (age = ? OR age = ? + 1)\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n",
	" [db: where=\"AND age >= ? AND user_name = ?{o@}\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n [db: where=\"AND user_name <> ''\"]\n [dom: v=\"a\",\"ab\"]\n string? o@ = 1#\n",
	" [db: where=\"AND ${c@} = ?\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n [db: where=\"AND 1 = 1\"]\n [dom: v=\"age\",\"id\"]\n string c@ = 1#\n",
	" [db: where=\"AND ${c@} = ?\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n [db: where=\"AND $ > 0\"]\n [dom: v=\"age\",\"id\"]\n string? c@ = 1#\n",
	" [db: where=\"AND $ > 1\"]\n [dom: v=\"age\",\"id\"]\n string? q@ = #\n",
	" [db: where=\"AND flag = ?\"]\n bool? q@ = #\n",
	" [db: where=\"AND age = 1\"]\n bool? q@ = #\n",
	" [db: where=\"AND user_name IS NOT NULL\",\"AND age < ?\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n",
	" [db: where=`AND user_name = \"a\" AND age >= ?`]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n",
	" [db: where=\"AND user_name = \\\"a\\\" AND age >= ?\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n",
	" [db: where=\"OR id = ?\"]\n int64? q@ = #\n",
	" [db: order=\"user_name $\"]\n [dom: v=\"ASC\",\"DESC\",\"asc; x\"]\n string? q@ = #\n",
	" [db: order=\"age $, id\"]\n [dom: v=\"DESC\",\"ASC\",\"\"]\n string q@ = #\n",
	" [db: group=\"age\"]\n [dom: v=\"1\"]\n int32? q@ = #\n",
	" [db: group=\"user_name\"]\n [dom: v=\"1\"]\n int32 q@ = #\n",
	" [db: limit=\"?\"]\n [dom: v=\"2\",\"3\"]\n int32? q@ = #\n",
	" [db: limit=\"?\"]\n [dom: v=\"3\",\"1\"]\n int64 q@ = #\n",
	" [db: offset=\"?\"]\n [dom: v=\"1\",\"2\"]\n int32 q@ = #\n",
	" [db: offset=\"?\"]\n [dom: v=\"1\",\"0\"]\n int64? q@ = #\n",
	" [db: name=\"user_name\"; set=\"?\"]\n [dom: v=\"new\",\"\"]\n string? q@ = #\n",
	" [db: name=\"age\"; set=\"age + ?\"]\n [dom: v=\"3\",\"-1\"]\n int32? q@ = #\n",
	" [db: name=\"age\"; set=\"?\"; force=\"true\"]\n [dom: v=\"3\",\"9\"]\n int32? q@ = #\n",
	" [db: name=\"user_name\"; set=\"CONCAT('x', IFNULL(?, 'y'), '-', ?)\"]\n [dom: v=\"n\"]\n string? q@ = #\n",
	" [db: name=\"flag\"; set=\"1\"]\n bool? q@ = #\n",
	" [db: name=\"age\"; get=\"SUM(?)\"]\n [dom: v=\"1\"]\n int64? q@ = #\n",
	" [db: name=\"age\"; get=\"? + 1\"]\n [dom: v=\"1\"]\n int64 q@ = #\n",
	" [db: name=\"user_name\"]\n [dom: v=\"a\"]\n string? q@ = #\n",
	" [db: name=\"age\"; get=\"?\"; where=\"AND age <> ?\"]\n [dom: v=\"1\",\"5\"]\n int32? q@ = #\n",
}

// Join fills the filters in: one field after the other.
func Join(is []int) string {
	var b strings.Builder
	for k, i := range is {
		b.WriteString(strings.NewReplacer("@", fmt.Sprint(k), "#", fmt.Sprint(20+k)).Replace(Filters[i]))
	}
	return b.String()
}

// at finds the first filter with both texts.
func at(a, b string) int {
	for i, f := range Filters {
		if strings.Contains(f, a) && strings.Contains(f, b) {
			return i
		}
	}
	panic(a)
}

func has(is []int, what string) bool {
	for _, i := range is {
		if strings.Contains(Filters[i], what) {
			return true
		}
	}
	return false
}

// QueryOps are the operations a query type with these filters can have.
func QueryOps(is []int, self, key string) string {
	ops := []string{"get=\"" + self + "\"", "list=\"" + self + "\"", "map=\"" + key + ":" + self + "\"", "count=\"true\""}
	if !has(is, "offset=") {
		ops = append(ops, "del=\"true\"", "rm=\"true\"")
	}
	if has(is, "set=") {
		ops = append(ops, "update=\"self\"", "set=\"self\"", "insert=\"self\"")
	}
	return strings.Join(ops, "; ")
}

type out struct {
	us   []Unit
	b    strings.Builder
	n    int
	name string
	head string
	file func(body string) map[string]string
}

func (o *out) flush() {
	if o.n > 0 {
		o.us = append(o.us, Unit{fmt.Sprintf("%s %d", o.name, len(o.us)), o.file(o.b.String())})
	}
	o.n = 0
	o.b.Reset()
}

// add writes a declaration; '%' is the number that makes names unique.
func (o *out) add(s string) {
	if o.n == 0 {
		o.b.WriteString(o.head)
	}
	o.b.WriteString(strings.ReplaceAll(s, "%%", fmt.Sprint(o.n)))
	o.n++
	if o.n >= 150 {
		o.flush()
	}
}

// Subsets calls f for all ordered choices without repetition up to a size.
func Subsets(n, size int, f func(is []int)) {
	var rec func(is []int)
	rec = func(is []int) {
		f(append([]int{}, is...))
		if len(is) == size {
			return
		}
		for i := 0; i < n; i++ {
			dup := false
			for _, j := range is {
				dup = dup || i == j
			}
			if !dup {
				rec(append(is, i))
			}
		}
	}
	rec(nil)
}

// ok: two limits or two writes of one column are not a query.
func ok(is []int) bool {
	n := map[string]int{}
	for _, i := range is {
		for _, w := range []string{"limit=", "offset=", "name=\"age\"; set", "name=\"user_name\"; set"} {
			if strings.Contains(Filters[i], w) {
				n[w]++
			}
		}
	}
	for _, c := range n {
		if c > 1 {
			return false
		}
	}
	return true
}

// Units enumerates schemas.
func Units(full bool) []Unit {
	var us []Unit
	local := "enum Le {\n zero = 0\n one = 1\n big = 77\n}\ndata Ld {\n string? a = 1\n int32 b = 2\n}\n"
	fam := func(name, head string, file func(string) map[string]string) *out {
		return &out{name: name, head: head, file: file}
	}
	plain := func(b string) map[string]string {
		return map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + b, "b.hbuf": schemas.Head("q") + "enum Oe {\n first = 1\n second = 2\n}\ndata Od {\n int32? x = 1\n}\n"}
	}
	all := "get=\"self\"; list=\"self\"; map=\"id:self\"; count=\"true\"; insert=\"self\"; inserts=\"self\"; update=\"self\"; set=\"self\"; del=\"true\"; rm=\"true\""
	// columns of every type
	o := fam("types", local, plain)
	type ty struct{ t, tag string }
	var ts []ty
	for _, b := range append(append([]string{}, schemas.Base...), "Le", "Oe") {
		ts = append(ts, ty{b, ""}, ty{b + "?", ""})
	}
	for _, b := range []string{"int32", "string", "Ld", "Od", "date", "decimal", "Oe"} {
		for _, s := range []string{"*[]", "*[]?", "*?[]?", "*<string>", "*<int32>?", "*?"} {
			ts = append(ts, ty{strings.ReplaceAll(s, "*", b), "converter=\"json\""})
		}
	}
	ts = append(ts, ty{"Ld", "converter=\"json\""}, ty{"string", "converter=\"json\""})
	for i, t := range ts {
		fake := []string{"fake=\"false\"", "fake=\"true\"", "fake=\"FALSE\"", "name=\"tbl\""}[i%4]
		o.add("[db: " + fake + "; " + all + "]\ndata U%% {\n [db: key=\"true\"]\n int64 id = 1\n [db: ]\n string? name = 2\n [db: " + t.tag + "]\n " + t.t + " x_y = 3\n " + t.t + " free = 4\n}\n")
		if t.tag == "" {
			f := strings.TrimSuffix(t.t, "?") + "? "
			o.add("[db: " + fake + "]\ndata U%% {\n [db: key=\"true\"]\n int64 id = 1\n [db: ]\n " + t.t + " x_y = 3\n}\n" +
				"[db: table=\"U%%\"; get=\"self\"; list=\"self\"; map=\"x:self\"; count=\"true\"; del=\"true\"; rm=\"true\"; set=\"self\"; update=\"self\"]\ndata Q%% {\n [db: name=\"x_y\"]\n " + t.t + " x = 3\n [db: where=\"AND x_y = ?\"]\n " + f + " eq = 4\n [db: where=\"AND x_y >= ?\",\"AND x_y < ?\"]\n " + strings.TrimSuffix(t.t, "?") + "[]? range = 5\n [db: where=\"AND x_y IN (?)\"]\n " + strings.TrimSuffix(t.t, "?") + "[]? any = 6\n [db: name=\"x_y\"; set=\"?\"]\n " + f + " y = 7\n}\n")
		}
	}
	o.flush()
	us = append(us, o.us...)
	// keys of every type at every position
	o = fam("keys", local, plain)
	for i, b := range append(append([]string{}, schemas.Base...), "Le", "Oe") {
		for _, n := range []string{"", "?"} {
			if n == "?" && i%3 != 0 {
				continue
			}
			fs := []string{" [db: key=\"true\"]\n " + b + n + " id = 1\n", " [db: ]\n string? name = 2\n", " [db: name=\"n\"]\n int32 num = 3\n"}
			for pos := 0; pos < 3; pos++ {
				l := append([]string{}, fs[1:]...)
				l = append(l[:pos:pos], append([]string{fs[0]}, l[pos:]...)...)
				o.add("[db: " + all + "]\ndata K%% {\n" + strings.Join(l, "") + "}\n")
			}
		}
	}
	o.flush()
	us = append(us, o.us...)
	o = fam("decimal key", "", plain)
	o.add("[db: map=\"id:self\"]\ndata K {\n [db: key=\"true\"]\n decimal id = 1\n [db: ]\n int32 n = 2\n}\n")
	o.flush()
	for _, u := range o.us {
		us = append(us, Unit{"decimal key", u.Files})
	}
	// one operation, name, schema and logical deletion
	o = fam("ops", local, plain)
	for _, op := range append(strings.Split(all, "; "), all, "get=\"SELF\"; set=\"Self\"", "del=\"TRUE\"; rm=\"True\"") {
		for _, n := range []string{"", "name=\"a_table\"; ", "schema=\"sch\"; ", "name=\"a_table\"; schema=\"sch\"; "} {
			for _, f := range []string{"", "fake=\"true\"; ", "fake=\"false\"; "} {
				for _, c := range []string{"", "[cache: min=\"1\"; max=\"5\"]\n"} {
					o.add("[db: " + n + f + op + "]\n" + c + "data TheType%% {\n [db: ]\n [dom: v=\"a\",\"b\"]\n string? the_name = 1\n [db: key=\"true\"]\n int64 id = 2\n [db: name=\"x\"; force=\"true\"]\n int32? y = 3\n}\n")
				}
			}
		}
	}
	o.flush()
	us = append(us, o.us...)
	// inherited columns and filters
	o = fam("inherit", "data Base {\n [db: key=\"true\"]\n int64 id = 1\n [db: ]\n date? at = 2\n}\ndata Search {\n"+Join([]int{at("int32? q@", "age >"), at("limit", "int32?")})+"}\n", plain)
	for _, f := range []string{"", "fake=\"false\"; "} {
		for _, ext := range []string{"Base = 1", "Base = 1, Od = 2", "Od = 1, Base = 2"} {
			o.add("[db: " + f + all + "]\ndata E%% : " + ext + " {\n [db: ]\n string? name = 3\n [db: ]\n int32 age = 4\n}\n")
			for _, v := range []string{"self", "parent"} {
				x := "E%%"
				ops := QueryOps([]int{2}, v, "id")
				o.add("[db: " + f + all + "]\ndata E%% : " + ext + " {\n [db: ]\n string? name = 3\n [db: ]\n int32 age = 4\n}\n" +
					"[db: table=\"" + x + "\"; " + ops + "]\ndata Q%% : E%% = 1 {\n [db: where=\"AND id = ?\"]\n int64? the_id = 5\n}\n" +
					"[db: table=\"" + x + "\"; " + ops + "]\ndata R%% : Search = 1 {\n [db: ]\n int64 id = 5\n [db: where=\"AND id <> ?\"]\n int64? not = 6\n}\n")
			}
		}
	}
	o.flush()
	us = append(us, o.us...)
	// queries: every choice of filters over one table
	size := 2
	for vi, v := range []string{"self", "parent"} {
		o = fam("query "+v, "", func(b string) map[string]string {
			return map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + b, "b.hbuf": schemas.Head("q") + "[db: name=\"user\"; fake=\"" + fmt.Sprint(vi == 0) + "\"]\n" + user}
		})
		Subsets(len(Filters), size, func(is []int) {
			if !ok(is) || !full && v == "parent" && (len(is) == 2 && (is[0]+is[1])%3 != 0) {
				return
			}
			c := ""
			if len(is) == 2 && (is[0]+is[1])%4 == 0 {
				c = "[cache: ]\n"
			}
			o.add("[db: table=\"User\"; " + QueryOps(is, v, "id") + "]\n" + c + "data Q%% {\n [db: ]\n int64 id = 1\n" + Join(is) + " int32 loose = 90\n}\n")
		})
		if full {
			for i := range Filters {
				for j := 0; j < i; j++ {
					for k := 0; k < j; k++ {
						if is := []int{(i*5 + vi) % len(Filters), j * 5 % len(Filters), k * 5 % len(Filters)}; ok(is) && (i+j+k)%5 == vi {
							o.add("[db: table=\"User\"; " + QueryOps(is, v, "id") + "]\ndata Q%% {\n [db: ]\n int64 id = 1\n" + Join(is) + "}\n")
						}
					}
				}
			}
		}
		o.flush()
		us = append(us, o.us...)
	}
	// the same filters on the type of the table itself
	o = fam("own", "", plain)
	Subsets(len(Filters), size, func(is []int) {
		if !ok(is) || has(is, "name=\"user_name\"") || has(is, "name=\"age\"") || has(is, "name=\"flag\"") || !full && len(is) == 2 && (is[0]+is[1])%3 != 1 {
			return
		}
		ops := "get=\"self\"; list=\"self\"; map=\"id:self\"; count=\"true\"; insert=\"self\"; inserts=\"self\"; update=\"self\"; set=\"self\"; rm=\"true\"; del=\"true\""
		f := "true"
		if len(is) > 0 && is[0]%2 == 0 {
			f = "false"
		}
		o.add("[db: name=\"user\"; fake=\"" + f + "\"; " + ops + "]\n" + strings.Replace(strings.Replace(user, "data User", "data User%%", 1), "}\n", Join(is)+"}\n", 1))
	})
	o.flush()
	return append(us, o.us...)
}
