package dbm

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/schemas"
	"verif/harness/sem"
)

// CacheUnits enumerates schemas whose types have a cache.
func CacheUnits(full bool) []Unit {
	var us []Unit
	add := func(group, a string) {
		us = append(us, Unit{fmt.Sprintf("%s %d", group, len(us)), map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + a,
			"b.hbuf": schemas.Head("q") + "enum Oe {\n first = 1\n second = 2\n}\ndata Od {\n int32? x = 1\n}\n"}})
	}
	all := "get=\"self\"; list=\"self\"; map=\"id:self\"; count=\"true\"; insert=\"self\"; inserts=\"self\"; update=\"self\"; set=\"self\"; del=\"true\"; rm=\"true\""
	caches := []string{"[cache: min=\"10\"; max=\"20\"]\n", "[cache: ]\n", "[cache: max=\"9000\"]\n", "[cache: min=\"5\"; max=\"5\"]\n", "[cache: min=\"0\"; max=\"0\"]\n", "[cache: min=\"1\"]\n"}
	item := func(tag string, c int, name, more string) string {
		return "[db: " + tag + "; " + all + "]\n" + caches[c%len(caches)] + "data " + name + " {\n [db: key=\"true\"]\n [dom: v=\"1\",\"2\"]\n int32 id = 1\n [db: ]\n [dom: v=\"5\",\"6\"]\n int32? n = 2\n" + more + "}\n"
	}
	query := func(table, v string, c int, name string) string {
		return "[db: table=\"" + table + "\"; get=\"" + v + "\"; list=\"" + v + "\"; map=\"id:" + v + "\"; count=\"true\"; inserts=\"parent\"; del=\"true\"; rm=\"true\"; update=\"self\"; set=\"self\"]\n" + caches[c%len(caches)] +
			"data " + name + " {\n [db: ]\n [dom: v=\"1\"]\n int32 id = 1\n [db: where=\"AND n = ?\"]\n [dom: v=\"5\"]\n int32? is = 2\n [db: name=\"n\"; set=\"?\"]\n [dom: v=\"6\"]\n int32? w = 3\n}\n"
	}
	// one table: every state and every failure in depth
	for i, tag := range []string{"fake=\"true\"", "fake=\"false\"", "name=\"tbl\"; fake=\"false\"", "schema=\"sch\"; fake=\"true\""} {
		add("deep own", item(tag, i, "Item", ""))
		add("deep self", item(tag, i, "Item", "")+query("Item", "self", i+1, "Find"))
		add("deep parent", item(tag, i+1, "Item", "")+query("Item", "parent", i+2, "Find"))
	}
	// two tables, and two types of one table
	add("two tables", item("name=\"one\"; fake=\"false\"", 0, "One", "")+item("name=\"two\"; fake=\"true\"", 1, "Two", ""))
	add("two types", item("name=\"one\"; fake=\"false\"", 0, "One", "")+item("name=\"one\"; fake=\"false\"", 1, "Two", ""))
	add("two packages", "")
	us[len(us)-1].Files["a.hbuf"] = schemas.Head("p", "b.hbuf") + query("Item", "self", 1, "Find")
	us[len(us)-1].Files["b.hbuf"] = schemas.Head("q") + item("name=\"one\"; fake=\"true\"", 0, "Item", "")
	// columns of every type are kept as they are
	local := "enum Le {\n zero = 0\n one = 1\n big = 77\n}\ndata Ld {\n string? a = 1\n int32 b = 2\n}\n"
	var b strings.Builder
	b.WriteString(local)
	n := 0
	col := func(t, tag string) {
		fmt.Fprintf(&b, "[db: fake=\"%v\"; %s]\n%sdata U%d {\n [db: key=\"true\"]\n [dom: v=\"1\",\"2\"]\n int64 id = 1\n [db: %s]\n %s x_y = 3\n %s free = 4\n}\n", n%2 == 0, all, caches[n%len(caches)], n, tag, t, t)
		n++
	}
	for _, t := range append(append([]string{}, schemas.Base...), "Le", "Oe") {
		col(t, "")
		col(t+"?", "")
	}
	for _, t := range []string{"int32", "string", "Ld", "Od", "date", "decimal", "Oe"} {
		for _, s := range []string{"*[]", "*[]?", "*?[]?", "*<string>", "*<int32>?", "*?"} {
			col(strings.ReplaceAll(s, "*", t), "converter=\"json\"")
		}
	}
	add("types", b.String())
	// keys of every type
	b.Reset()
	b.WriteString(local)
	for i, t := range append(append([]string{}, schemas.Base...), "Le", "Oe") {
		if t == "date" || t == "bool" || t == "decimal" || t == "float" || t == "double" {
			continue
		}
		fmt.Fprintf(&b, "[db: fake=\"%v\"; %s]\n%sdata K%d {\n [db: ]\n [dom: v=\"5\",\"6\"]\n int32? n = 1\n [db: key=\"true\"]\n %s id = 2\n}\n", i%2 == 0, all, caches[i%len(caches)], i, t)
	}
	add("keys", b.String())
	// every choice of filters
	size := 1
	if full {
		size = 2
	}
	for vi, v := range []string{"self", "parent"} {
		Subsets(len(Filters), size, func(is []int) {
			if !ok(is) || len(is) == 2 && (is[0]*5+is[1])%16 != 0 {
				return
			}
			us = append(us, Unit{fmt.Sprintf("query %s %d", v, len(us)), map[string]string{"a.hbuf": schemas.Head("p", "b.hbuf") + "[db: table=\"User\"; " + QueryOps(is, v, "id") + "]\n" + caches[len(us)%len(caches)] +
				"data Q {\n [db: ]\n int64 id = 1\n" + Join(is) + " int32 loose = 90\n}\n",
				"b.hbuf": schemas.Head("q") + "[db: name=\"user\"; fake=\"" + fmt.Sprint(vi == 0) + "\"; " + all + "]\n[cache: ]\n" + user}})
		})
	}
	return us
}

// Keep says how long, in seconds, rows of a type may be kept: from 2 to 3 hours unless declared.
func Keep(r *sem.Ref) (min, max int, err error) {
	min, max = 2*60*60, 3*60*60
	t := sem.Tag(r.Tags, "cache")
	if v := one(t, "min"); v != "" {
		if min, err = strconv.Atoi(v); err != nil {
			return
		}
	}
	if v := one(t, "max"); v != "" {
		if max, err = strconv.Atoi(v); err != nil {
			return
		}
	}
	if max < min {
		max = min
	}
	return
}
