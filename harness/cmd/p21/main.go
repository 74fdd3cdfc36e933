// P21: language tables are complete. Every schema of the enumerated families is compiled for TypeScript and Dart. The
// TypeScript tables are loaded and the forms, tables and enums rendered by node; the Dart tables and enums run in package
// dart. Every text that is looked up must be in the tables: the declared text or a readable form of the name.
package main

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/sem"
	"verif/harness/tsrun"
)

func main() {
	guard.Main("P21", run, func(kind byte, data string) {})
}

// entry is what has a text.
type entry struct {
	name        string
	texts       map[string]string
	form, table string
}

func entryOf(name string, tags []hb.Tag) entry {
	e := entry{name: name, texts: map[string]string{}}
	if t := sem.Tag(tags, "lang"); t != nil {
		for _, kv := range t.KV {
			if len(kv.V) > 0 {
				e.texts[sem.LowerHump(kv.K)] = sem.Unquote(kv.V[0])
			}
		}
	}
	if t := sem.Tag(tags, "ui"); t != nil {
		for _, kv := range t.KV {
			switch {
			case len(kv.V) == 0:
			case kv.K == "form":
				e.form = sem.Unquote(kv.V[0])
			case kv.K == "table":
				e.table = sem.Unquote(kv.V[0])
			}
		}
	}
	return e
}

// table is a declaration that has texts.
type table struct {
	ref         *sem.Ref
	form, table bool // data
	entries     []entry
}

func tables(m *sem.Model) (ts []table) {
	for _, fn := range m.Names() {
		f := m.Files[fn]
		for i := range f.Decls {
			r := &sem.Ref{File: fn, Decl: &f.Decls[i]}
			if sem.Tag(r.Tags, "ui") == nil {
				continue
			}
			t := table{ref: r}
			switch r.Kind {
			case hb.Enum:
				for _, x := range r.Items {
					t.entries = append(t.entries, entryOf(x.Name, x.Tags))
				}
			case hb.Data:
				u := entryOf("", r.Tags)
				t.form, t.table = u.form == "true", u.table == "true"
				for _, x := range m.Fields(r) {
					t.entries = append(t.entries, entryOf(x.Name, x.Tags))
				}
			}
			if len(t.entries) > 0 {
				ts = append(ts, t)
			}
		}
	}
	return
}

// readable tells whether a text is a readable form of a name: its letters in order, written as a sentence.
func readable(text, name string) bool {
	plain := func(s string) string { return strings.ToLower(strings.NewReplacer("_", "", " ", "").Replace(s)) }
	if plain(text) != plain(name) || text != strings.TrimSpace(text) || strings.Contains(text, "  ") || strings.Contains(text, "_") && plain(name) != "" {
		return false
	}
	if plain(name) == "" {
		return text != ""
	}
	// the words of the name may be set apart, words of several letters must
	ns := []rune(strings.Trim(name, "_"))
	at := 0
	for i, r := range []rune(text) {
		if r == ' ' {
			if n := ns[at]; n != '_' && !unicode.IsUpper(n) {
				return false
			}
			continue
		}
		under := false
		for ns[at] == '_' {
			under = true
			at++
		}
		space := i > 0 && []rune(text)[i-1] == ' '
		if at > 1 && !space {
			word := unicode.IsUpper(ns[at]) || under && unicode.IsLower(ns[at])
			j := at - 1
			for ns[j] == '_' {
				j--
			}
			if word && unicode.IsLower(ns[j]) && j > 0 && unicode.IsLetter(ns[j-1]) {
				return false
			}
		}
		if i == 0 && unicode.IsLower(r) && unicode.ToUpper(r) != r || i > 0 && unicode.IsUpper(r) {
			return false
		}
		at++
	}
	return true
}

// langs are the languages some entries declare, and English.
func langs(es []entry) []string {
	set := map[string]bool{"en": true}
	for _, e := range es {
		for l := range e.texts {
			set[l] = true
		}
	}
	var ls []string
	for l := range set {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return ls
}

func (e entry) wrong(lang, text string) string {
	if want, ok := e.texts[lang]; ok {
		if text != want {
			return fmt.Sprintf("the text of %s in %s is %q, not %q", e.name, lang, text, want)
		}
	} else if !readable(text, e.name) {
		return fmt.Sprintf("%s has the text %q in %s, which is no readable form of the name", e.name, text, lang)
	}
	return ""
}

type seen struct {
	Tables map[string]map[string]map[string]map[string]string
	Enums  map[string]map[string][][2]string
	Forms  map[string]map[string][][2]*string
}

func same(a, b string) bool { return sem.Hump(a) == sem.Hump(b) }

func typescript(ts []table, d *seen) (bad []string) {
	no := func(f string, a ...any) { bad = append(bad, "TypeScript: "+fmt.Sprintf(f, a...)) }
	for _, t := range ts {
		base := strings.TrimSuffix(t.ref.File, ".hbuf")
		texts := d.Tables[base+".lang.ts"]
		check := func(e entry, key string, all []entry) {
			i := strings.IndexByte(key, '.')
			if i < 0 {
				no("%s: %s looks up %q", t.ref.Name, e.name, key)
				return
			}
			tb := texts[key[:i]]
			if tb == nil {
				no("%s: %s looks up %q, there is no such table", t.ref.Name, e.name, key)
				return
			}
			for _, l := range langs(all) {
				text, ok := tb[l][key[i+1:]]
				if !ok {
					no("%s: %s looks up %q, which the table lacks in %s", t.ref.Name, e.name, key, l)
				} else if w := e.wrong(l, text); w != "" {
					no("%s: %s", t.ref.Name, w)
				}
			}
			for l := range tb {
				if text, ok := tb[l][key[i+1:]]; !ok {
					no("%s: %s looks up %q, which the table lacks in %s", t.ref.Name, e.name, key, l)
				} else if w := e.wrong(l, text); w != "" {
					no("%s: %s", t.ref.Name, w)
				}
			}
		}
		if t.ref.Kind == hb.Enum {
			items := d.Enums[base+".enum.ts"][sem.Hump(t.ref.Name)]
			for _, e := range t.entries {
				n := 0
				for _, x := range items {
					if same(x[0], e.name) {
						check(e, x[1], t.entries)
						n++
					}
				}
				if n != 1 {
					no("%s: %d items are %s", t.ref.Name, n, e.name)
				}
			}
			continue
		}
		var all []entry
		for _, e := range t.entries {
			if t.form && e.form != "" || t.table && e.table != "" {
				all = append(all, e)
			}
		}
		for _, p := range []struct {
			on     bool
			suffix string
			has    func(e entry) bool
		}{{t.form, "FormItems", func(e entry) bool { return e.form != "" }}, {t.table, "TableColumn", func(e entry) bool { return e.table != "" }}} {
			if !p.on {
				continue
			}
			items, ok := d.Forms[base+".ui.tsx"][sem.Hump(t.ref.Name)+p.suffix]
			if !ok {
				no("%s has no %s", t.ref.Name, p.suffix)
				continue
			}
			for _, e := range t.entries {
				n := 0
				for _, x := range items {
					if x[0] != nil && same(*x[0], e.name) {
						n++
						if x[1] == nil {
							no("%s: the %s has no label for %s", t.ref.Name, p.suffix, e.name)
							continue
						}
						check(e, *x[1], all)
					}
				}
				if p.has(e) && n != 1 || !p.has(e) && n > 0 {
					no("%s: the %s has %d items for %s", t.ref.Name, p.suffix, n, e.name)
				}
			}
		}
	}
	return
}

var lookup = regexp.MustCompile(`(\w+)Localizations\.of\(context\)\.(\w+)`)
var class = regexp.MustCompile(`(?m)^class (Form|Table)(\w+?)Build \{\n(?:[^}].*\n|\n)*\}\n`)

// kinds are the fields that Dart forms have.
var kinds = map[string]bool{"text": true, "click": true, "file": true, "image": true, "menu": true, "date": true, "switch": true}

func dartTables(ts []table, out map[string]string) (bad []string, skipped bool) {
	for _, t := range ts { // names that no identifier of Dart can be, see P19
		for _, n := range append([]entry{{name: t.ref.Name}}, t.entries...) {
			for _, r := range n.name {
				if r > unicode.MaxASCII {
					return nil, true
				}
			}
		}
	}
	no := func(f string, a ...any) { bad = append(bad, "Dart: "+fmt.Sprintf(f, a...)) }
	files := dartval.Part(out)
	driver := "import 'package:flutter/material.dart';\n"
	for fn := range out {
		if strings.HasSuffix(fn, ".ui.dart") {
			driver += "import '" + path.Base(fn) + "';\n"
		}
	}
	for _, t := range ts {
		if n := sem.Hump(t.ref.Name) + "Localizations"; strings.Contains(files[dartval.File(t.ref.File, "ui")], "class "+n+" ") {
			driver += fmt.Sprintf("BuildContext context%s(%s t) => BuildContext({%s: t});\n", n, n, n)
		}
	}
	files["driver.dart"] = driver
	p, problems := dart.Load(files)
	for _, x := range problems {
		s := fmt.Sprint(x)
		if strings.Contains(s, ".ui.dart") || strings.HasPrefix(s, "driver.dart") {
			no("%s", s)
		}
		skipped = true // the rest belongs to P19
	}
	if len(problems) > 0 {
		return
	}
	m := dart.NewMachine(p)
	for _, t := range ts {
		file := dartval.File(t.ref.File, "ui")
		hump := sem.Hump(t.ref.Name)
		loc := hump + "Localizations"
		// the entries that are looked up, with their keys
		keys := map[string]map[string]bool{}
		add := func(e entry, k string) {
			if keys[e.name] == nil {
				keys[e.name] = map[string]bool{}
			}
			keys[e.name][k] = true
		}
		var all []entry
		if t.ref.Kind == hb.Enum {
			all = t.entries
			for _, l := range lookup.FindAllStringSubmatch(out[dartval.File(t.ref.File, "enum")], -1) {
				for _, e := range t.entries {
					if l[1] == hump && dartval.Same(strings.ToLower(strings.ReplaceAll(l[2], "_", "")), strings.ToLower(strings.ReplaceAll(e.name, "_", ""))) {
						add(e, l[2])
					}
				}
			}
			for _, e := range t.entries {
				if keys[e.name] == nil {
					no("%s: %s looks up no text", t.ref.Name, e.name)
				}
			}
		} else {
			used := map[string]map[string]bool{"Form": {}, "Table": {}}
			for _, cl := range class.FindAllStringSubmatch(out[file], -1) {
				if cl[2] != hump {
					continue
				}
				for _, l := range lookup.FindAllStringSubmatch(cl[0], -1) {
					found := false
					for _, e := range t.entries {
						if l[1] == hump && dartval.Same(l[2], e.name) {
							add(e, l[2])
							used[cl[1]][e.name] = true
							found = true
						}
					}
					if !found {
						no("%s looks up the text of %s.%s", t.ref.Name, l[1], l[2])
					}
				}
			}
			for _, e := range t.entries {
				if keys[e.name] != nil {
					all = append(all, e)
				}
				for _, x := range []struct {
					part string
					want bool
				}{{"Form", t.form && kinds[e.form]}, {"Table", t.table && e.table != ""}} {
					if x.want != used[x.part][e.name] && (x.want || x.part == "Table" || e.form == "" || !t.form) {
						no("%s: the %s looks up the text of %s: %v", t.ref.Name, x.part, e.name, !x.want)
					}
				}
			}
		}
		if len(bad) > 0 {
			return
		}
		if len(all) == 0 {
			continue
		}
		deleg, err := m.StaticGet(file, loc, "delegate")
		if err != nil {
			no("%s has no delegate: %v", loc, err)
			return
		}
		for _, l := range append(langs(all), "xx") {
			locale, err := m.Create("driver.dart", "Locale", "", []any{l}, nil)
			if err != nil {
				no("%v", err)
				return
			}
			if l == "xx" { // any other language
				l = ""
			}
			f, err := m.Call(deleg, "load", []any{locale}, nil)
			if err != nil {
				no("%s.delegate.load: %v", loc, err)
				return
			}
			fut, ok := f.(*dart.Future)
			if !ok || fut.Err != nil {
				no("%s.delegate.load gives %v", loc, f)
				return
			}
			ctx, err := m.Top("driver.dart", "context"+loc, fut.Val)
			if err != nil {
				no("%s: %v", loc, err)
				return
			}
			for _, e := range all {
				for k := range keys[e.name] {
					v, err := m.Get(fut.Val, k)
					if err != nil {
						no("%s looks up %s: %v", e.name, k, err)
						continue
					}
					text, _ := v.(string)
					if w := e.wrong(l, text); w != "" {
						no("%s: %s", t.ref.Name, w)
					}
				}
				if t.ref.Kind == hb.Enum {
					for k := range keys[e.name] {
						item, err := m.StaticGet(dartval.File(t.ref.File, "enum"), hump, k)
						if err != nil {
							no("%s: %v", t.ref.Name, err)
							continue
						}
						v, err := m.Call(item, "toText", []any{ctx}, nil)
						if err != nil {
							no("%s.%s.toText: %v", hump, k, err)
							continue
						}
						text, _ := v.(string)
						if w := e.wrong(l, text); w != "" {
							no("%s: toText: %s", t.ref.Name, w)
						}
					}
				}
			}
		}
	}
	return
}

func run(c *ev.Check, g *guard.Guard) {
	ss := families(c.Thorough())
	units := make([]tsrun.Unit, len(ss))
	models := make([][]table, len(ss))
	dartBad := make([][]string, len(ss))
	var mu sync.Mutex
	skip, texts := 0, 0
	g.Par(c)("schemas", len(ss), func(w, i int) {
		s := ss[i]
		g.Slots[w].Begin(0, s.Key)
		defer g.Slots[w].End()
		m, err := sem.Load(s.Files)
		if err != nil {
			c.Fatal("%s: %v", s.Key, err)
		}
		models[i] = tables(m)
		out := map[string]map[string]string{}
		for _, t := range []string{"ts", "dart"} {
			r := hb.Run(s.Files, "*.hbuf", t, "")
			c.Step(1)
			if r.Err != nil || r.Panic != "" {
				c.Violate(s.Key, fmt.Sprintf("%s: %s\n%s", s.Key, r.Brief(), hb.Text(s.Files)))
				return
			}
			out[t] = r.Out
		}
		units[i] = tsrun.Unit{Key: strconv.Itoa(i), Files: out["ts"]}
		bad, skipped := dartTables(models[i], out["dart"])
		mu.Lock()
		if skipped {
			skip++
		}
		for _, t := range models[i] {
			texts += len(t.entries)
		}
		mu.Unlock()
		if len(bad) > 0 {
			dartBad[i] = append(bad, hb.Text(out["dart"]))
		}
	})
	var us []tsrun.Unit
	for i, u := range units {
		if u.Key == "" {
			continue
		}
		us = append(us, u)
		if len(dartBad[i]) > 0 {
			c.Violate(ss[i].Key, fmt.Sprintf("%s:\n%s\n%s", ss[i].Key, strings.Join(dartBad[i], "\n"), hb.Text(ss[i].Files)))
		}
	}
	tsrun.Forms(c, us, 6, func(at string, errs []string, data json.RawMessage) {
		mu.Lock()
		defer mu.Unlock()
		i, _ := strconv.Atoi(at)
		s := ss[i]
		d := &seen{}
		if err := json.Unmarshal(data, d); err != nil {
			c.Fatal("forms.js: %v", err)
		}
		bad := append(append([]string{}, errs...), typescript(models[i], d)...)
		c.Step(len(models[i]))
		c.Trace(1)
		c.State(s.Key)
		c.Outcome(s.Family)
		if i%1999 == 0 {
			c.Sample(s.Key)
		}
		if len(bad) > 0 {
			c.Violate(s.Key, fmt.Sprintf("%s:\n%s\n%s%s", s.Key, strings.Join(bad, "\n"), hb.Text(s.Files), hb.Text(units[i].Files)))
		}
	})
	c.Extra["entries"] = texts
	c.Extra["schemas whose Dart is left to P19"] = skip
}
