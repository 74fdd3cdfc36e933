package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"

	"verif/harness/dart"
	"verif/harness/dartval"
	"verif/harness/dmodel"
	"verif/harness/dval"
	"verif/harness/ev"
)

// view is a data type whose form and table are looked at.
type view struct {
	c *ev.Check
	*dartval.Run
	key, hump, file, verify string
	group, text             string
	form, table             bool
	fields                  []field
	ctx, padding, lang      any
	sizes                   *dart.Map
}

// refused stands for an input that is no value of the type.
type refused struct{}

var controls = map[string]string{"text": "TextFormBuild", "file": "FileFormBuild", "date": "DatetimeFormBuild", "click": "ClickFormBuild", "menu": "MenuFormBuild", "switch": "SwitchFormBuild", "image": "ImageFormBuild"}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (k *view) run(p *dart.Program) error {
	classes := p.Classes(k.file)
	form, table := "Form"+k.hump+"Build", "Table"+k.hump+"Build"
	if has(classes, form) != k.form {
		return fmt.Errorf("there is a form: %v, and it should be %v", !k.form, k.form)
	}
	if has(classes, table) != k.table {
		return fmt.Errorf("there is a table: %v, and it should be %v", !k.table, k.table)
	}
	if !k.form && !k.table {
		return nil
	}
	var err error
	if k.ctx, err = k.M.Create(k.file, "BuildContext", "", []any{k.M.NewMap(k.file, "Type", "dynamic")}, nil); err != nil {
		return err
	}
	if k.padding, err = k.M.Create(k.file, "EdgeInsets", "only", nil, nil); err != nil {
		return err
	}
	k.sizes = k.M.NewMap(k.file, "double", "int")
	if has(classes, k.hump+"Localizations") {
		if k.lang, err = k.M.Static(k.file, k.hump+"Localizations", "of", k.ctx); err != nil {
			return err
		}
	}
	vals := map[string][]any{}
	least := dval.D{}
	for _, f := range k.fields {
		vs := k.values(f.Type)
		least[f.Name] = vs[0]
		vals[f.Name] = vs
	}
	if k.form {
		if err := k.forms(form, least, vals); err != nil {
			return fmt.Errorf("the form: %v", err)
		}
	}
	if k.table {
		if err := k.tables(table, least, vals); err != nil {
			return fmt.Errorf("the table: %v", err)
		}
	}
	return nil
}

// values are the values of a type that are shown.
func (k *view) values(t dmodel.T) (out []any) {
	if t.Kind == 1 {
		e := dval.Elem(t)
		e.Null = false
		es := k.values(e)
		if len(es) > 1 && t.Name == "string" { // no text is no item of a list
			es = es[:2]
		}
		a, b := es[0], es[len(es)-1]
		out = []any{[]any{a}, []any{}, []any{a, b}, []any{b, a, b}}
		if t.Null {
			out = append(out, []any{nil, a}, []any{a, nil, b}, []any{b, nil})
		}
	} else if t.Kind == 2 {
		out = []any{k.World.Least(t)}
	} else {
		switch {
		case t.Ref == "data":
			out = []any{k.World.LeastData(t.Name)}
		case t.Ref == "enum":
			out = k.World.Values(dmodel.T{Name: t.Name, Ref: t.Ref}, 0)
		case t.Name == "string":
			out = []any{"http://x/$y.png", "中 😀 \"q\" 'r' \\", "", " a "}
		case t.Name == "float", t.Name == "double":
			out = []any{0.0, -1.75, 1234567.5, 0.0078125}
		case t.Name == "date":
			out = []any{dval.T(1234567890123), dval.T(0), dval.T(-1), dval.T(951782399000), dval.T(4102444799999)}
		default:
			out = k.World.Values(dmodel.T{Name: t.Name, Ref: t.Ref}, 0)
		}
	}
	if dval.Optional(t) {
		out = append(out, nil)
	}
	return out
}

// shown is the text of a value.
func (k *view) shown(t dmodel.T, v any, f *field) (string, error) {
	if v == nil {
		return "", nil
	}
	if t.Kind == 1 {
		var l []string
		for _, x := range v.([]any) {
			s, err := k.shown(dval.Elem(t), x, f)
			if err != nil {
				return "", err
			}
			l = append(l, s)
		}
		return strings.Join(l, ","), nil
	}
	switch v := v.(type) {
	case dval.E:
		it, err := k.Item(t.Name, int64(v))
		if err != nil {
			return "", err
		}
		s, err := k.M.Call(it, "toText", []any{k.ctx}, nil)
		if err != nil {
			return "", err
		}
		return s.(string), nil
	case dval.L:
		return string(v), nil
	case dval.N:
		r, _ := new(big.Rat).SetString(string(v))
		return r.FloatString(f.Digit), nil
	case dval.T:
		return dart.FormatDate(dart.DateTime{US: int64(v) * 1000}, f.Format), nil
	case float64:
		return strconv.FormatFloat(v, 'f', f.Digit, 64), nil
	case int64:
		return strconv.FormatInt(v, 10), nil
	case bool:
		return strconv.FormatBool(v), nil
	case string:
		return v, nil
	}
	panic(fmt.Sprintf("no text of %T", v))
}

var bits = map[string][2]string{"int8": {"-128", "127"}, "int16": {"-32768", "32767"}, "int32": {"-2147483648", "2147483647"}, "int64": {"-9223372036854775808", "9223372036854775807"},
	"uint8": {"0", "255"}, "uint16": {"0", "65535"}, "uint32": {"0", "4294967295"}, "uint64": {"0", "18446744073709551615"}}

var layouts = []string{"2006-01-02 15:04:05", "2006-01-02 15:04", "2006-01-02", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05.000"}

// taken is the value that a text stands for.
func (k *view) taken(t dmodel.T, s string) any {
	if t.Kind == 1 {
		if s == "" {
			if t.Out {
				return nil
			}
			return []any{}
		}
		l := []any{}
		for _, x := range strings.Split(s, ",") {
			y := k.taken(dval.Elem(t), x)
			if y == (refused{}) {
				return y
			}
			l = append(l, y)
		}
		return l
	}
	if s == "" && t.Null {
		return nil
	}
	if t.Ref == "enum" {
		for _, n := range k.World.Enums[t.Name] {
			if x, err := k.shown(dmodel.T{Ref: "enum", Name: t.Name}, dval.E(n), nil); err == nil && x == s {
				return dval.E(n)
			}
		}
		return refused{}
	}
	switch t.Name {
	case "string":
		return s
	case "bool":
		return s == "true"
	case "int64", "uint64":
		if n, ok := new(big.Int).SetString(s, 10); ok {
			return dval.L(n.String())
		}
	case "float", "double":
		if x, err := strconv.ParseFloat(s, 64); err == nil {
			return x
		}
	case "decimal":
		if _, ok := new(big.Rat).SetString(s); ok {
			return dval.N(dart.NewDecimal(s).String())
		}
	case "date":
		for _, l := range layouts {
			if x, err := time.Parse(l, strings.ReplaceAll(s, "/", "-")); err == nil {
				return dval.T(x.UnixMilli())
			}
		}
	default:
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
	}
	return refused{}
}

// inputs are texts that are entered for a type.
func (k *view) inputs(t dmodel.T) []string {
	if t.Kind == 1 {
		var out []string
		e := k.inputs(dval.Elem(t))
		for i, x := range e {
			if x == "" || t.Name != "string" && strings.Contains(x, ",") {
				continue
			}
			out = append(out, x, x+","+e[0], e[0]+","+x+","+e[i/2])
		}
		if t.Null || t.Name == "string" {
			out = append(out, e[0]+",,"+e[0], ","+e[0], e[0]+",")
		}
		return append(out, "")
	}
	if t.Ref == "enum" {
		out := []string{}
		for _, n := range k.World.Enums[t.Name] {
			s, _ := k.shown(dmodel.T{Ref: "enum", Name: t.Name}, dval.E(n), nil)
			out = append(out, s)
		}
		return append(out, "", "x y")
	}
	switch t.Name {
	case "string":
		return []string{"a", "", " b ", "中 😀", "\"$x", "null", "0", "a/b"}
	case "bool":
		return []string{"true", "false", ""}
	case "float", "double":
		return []string{"1.25", "0", "-0.5", "1000000", "", "abc", "1x", "--1", "1.2.3"}
	case "decimal":
		return []string{"1.25", "0", "-0.5", "12345678901234567890.123", "", "abc", "1x", "--1", "1.2.3"}
	case "date":
		return []string{"2020-02-29 03:04:05", "2020/02/29 03:04:05", "1969-12-31", "2020/10/02 23:59", "2020-01-02T03:04:05Z", "", "abc", "12:30", "x2020-01-02"}
	}
	l := bits[t.Name]
	return []string{"7", l[0], l[1], "0", "", "abc", "1x", "--1", "x1"}
}

// fits tells whether a control has a meaning for a type.
func fits(form string, t dmodel.T) bool {
	if t.Kind == 2 || t.Ref == "data" {
		return form == "click"
	}
	switch form {
	case "text":
		return true
	case "file":
		return t.Kind == 0 && t.Name == "string"
	case "date":
		return t.Kind == 0 && (t.Name == "string" || t.Name == "date")
	case "menu":
		return t.Kind == 0 && t.Ref == "enum"
	case "switch":
		return t.Kind == 0 && t.Name == "bool"
	case "image":
		return t.Name == "string" && (t.Kind == 0 || !t.Null)
	case "click":
		return true
	}
	return false
}

func (k *view) label(f *field) (string, error) {
	s, err := k.M.Get(k.lang, f.Dart)
	if err != nil {
		return "", err
	}
	return s.(string), nil
}

func (k *view) same(what string, got, want any) error {
	if got != want {
		return fmt.Errorf("%s is %s, not %s", what, k.M.String(got), k.M.String(want))
	}
	return nil
}

func (k *view) forms(class string, least dval.D, vals map[string][]any) error {
	for _, ro := range []bool{false, true} {
		if err := k.shows(class, least, ro); err != nil {
			return err
		}
	}
	for i := range k.fields {
		f := &k.fields[i]
		if controls[f.Form] == "" {
			continue
		}
		for j, v := range vals[f.Name] {
			d := dval.D{}
			for n, x := range least {
				d[n] = x
			}
			d[f.Name] = v
			if err := k.shows(class, d, false); err != nil {
				return fmt.Errorf("with %s = %s: %w", f.Name, dval.Text(v), err)
			}
			if j < 2 || v == nil {
				if err := k.enters(class, d, f, vals); err != nil {
					return fmt.Errorf("with %s = %s: %w", f.Name, dval.Text(v), err)
				}
			}
		}
	}
	return nil
}

// built builds the form of a value: it gives the value, the form and the widgets.
func (k *view) built(class string, d dval.D, readOnly bool) (info, form any, ws []any, err error) {
	if info, err = k.New(k.key, d); err != nil {
		return
	}
	if form, err = k.M.Create(k.file, class, "", []any{info}, map[string]any{"readOnly": readOnly, "sizes": k.sizes, "padding": k.padding}); err != nil {
		return
	}
	var early error
	var out any
	times := 1
	if readOnly { // what is shown again is the same
		times = 2
	}
	for i := 1; i <= times; i++ {
		calls := 0
		out, err = k.M.Call(form, "build", []any{k.ctx}, map[string]any{"builder": dart.Native(func(a []any, named map[string]any) any {
			calls++
			if len(a) != 2 || a[0] != k.ctx || a[1] != form {
				early = fmt.Errorf("the builder is given %s", k.M.String(k.M.NewList(k.file, "dynamic", a...)))
			}
			return nil
		})})
		if err != nil {
			return
		}
		if early == nil && calls != 1 {
			early = fmt.Errorf("the builder is called %d times", calls)
		}
	}
	l, ok := out.(*dart.List)
	if !ok {
		return nil, nil, nil, fmt.Errorf("build gives no list")
	}
	return info, form, l.L, early
}

// own is the control of a field. Its name has a _ where a member of the form has it.
func (k *view) own(form any, f *field) (any, error) {
	if w, err := k.M.Get(form, f.Dart); err == nil && dart.ClassOf(w) == controls[f.Form] {
		return w, nil
	}
	return k.M.Get(form, f.Dart+"_")
}

// dated is the text that DateTime reads.
func dated(s string) string { return strings.ReplaceAll(s, "/", "-") }

func (k *view) shows(class string, d dval.D, readOnly bool) error {
	info, form, ws, err := k.built(class, d, readOnly)
	if err != nil {
		return err
	}
	k.c.State(k.group + k.key + dval.Text(d) + fmt.Sprint(readOnly))
	k.c.Trace(1)
	n := 0
	for i := range k.fields {
		f := &k.fields[i]
		kind := controls[f.Form]
		if kind == "" {
			continue
		}
		if n >= len(ws) {
			return fmt.Errorf("there are %d controls, none for %s", len(ws), f.Name)
		}
		w := ws[n]
		n++
		k.c.Step(1)
		if got := dart.ClassOf(w); got != kind {
			return fmt.Errorf("control %d is a %s, not a %s for %s", n, got, kind, f.Name)
		}
		if own, err := k.own(form, f); err != nil || own != w {
			return fmt.Errorf("control %d is not that of %s: %v", n, f.Name, err)
		}
		if err := k.control(f, w, d[f.Name], readOnly); err != nil {
			return fmt.Errorf("%s: %w", f.Name, err)
		}
	}
	if n < len(ws) {
		return fmt.Errorf("there are %d controls, and not %d", len(ws), n)
	}
	return k.unchanged(info, d, "showing")
}

func (k *view) unchanged(info any, d dval.D, what string) error {
	got, err := k.Data(k.key, info, "the data")
	if err != nil {
		return err
	}
	if a, b := dval.Text(got), dval.Text(d); a != b {
		return fmt.Errorf("%s makes the data %s, not %s", what, a, b)
	}
	return nil
}

func (k *view) control(f *field, w any, v any, readOnly bool) error {
	want := map[string]any{"readOnly": readOnly || f.OnlyRead, "widthSizes": k.sizes, "padding": k.padding, "built": k.ctx}
	switch f.Form {
	case "text":
		want["maxLines"] = int64(f.MaxLine)
	case "image":
		want["maxCount"], want["clip"], want["outWidth"], want["outHeight"] = int64(f.Count), f.Clip, f.Width, f.Height
	}
	for n, x := range want {
		got, err := k.M.Get(w, n)
		if err != nil {
			return err
		}
		if err := k.same(n, got, x); err != nil {
			return err
		}
	}
	dec, err := k.M.Get(w, "decoration")
	if err != nil {
		return err
	}
	got, err := k.M.Get(dec, "labelText")
	if err != nil {
		return err
	}
	l, err := k.label(f)
	if err != nil {
		return err
	}
	if err := k.same("the label", got, l); err != nil {
		return err
	}
	if f.Form == "file" || f.Form == "image" {
		got, err := k.M.Get(w, "extensions")
		if err != nil {
			return err
		}
		l := []any{}
		for _, x := range f.Extensions {
			l = append(l, x)
		}
		if a, b := k.M.String(got), k.M.String(k.M.NewList(k.file, "String", l...)); a != b {
			return fmt.Errorf("the extensions are %s, not %s", a, b)
		}
	}
	save, err := k.M.Get(w, "onSaved")
	if err != nil {
		return err
	}
	if (save == nil) != f.OnlyRead {
		return fmt.Errorf("it can be saved: %v", save != nil)
	}
	val := "initialValue"
	if f.Form == "menu" {
		val = "value"
	}
	if got, err = k.M.Get(w, val); err != nil {
		return err
	}
	switch f.Form {
	case "text", "file", "date":
		s, err := k.shown(f.Type, v, f)
		if err != nil {
			return err
		}
		if got == nil {
			got = ""
		}
		return k.same("the text", got, s)
	case "image":
		urls := []any{}
		switch v := v.(type) {
		case string:
			if !strings.HasPrefix(v, "http") {
				return nil
			}
			urls = append(urls, v)
		case []any:
			urls = v
		}
		is, err := k.urls(got)
		if err != nil {
			return err
		}
		if a, b := fmt.Sprintf("%q", is), fmt.Sprintf("%q", urls); a != b {
			return fmt.Errorf("the images are %s, not %s", a, b)
		}
		return nil
	}
	is, err := k.Read(k.file, optional(f.Type), got, "the value")
	if err != nil {
		return err
	}
	if a, b := dval.Text(is), dval.Text(v); a != b {
		return fmt.Errorf("the value is %s, not %s", a, b)
	}
	if f.Form == "menu" {
		items, err := k.M.Get(w, "items")
		if err != nil {
			return err
		}
		l := items.(*dart.List).L
		if null, err := k.M.Get(w, "toNull"); err != nil || null != true && dval.Optional(f.Type) {
			return fmt.Errorf("it can not be cleared: %v", err)
		}
		ns := k.World.Enums[f.Type.Name]
		if len(l) != len(ns) {
			return fmt.Errorf("the menu has %d items", len(l))
		}
		for i, x := range l {
			it, err := k.Item(f.Type.Name, ns[i])
			if err != nil {
				return err
			}
			got, err := k.M.Get(x, "value")
			if err != nil {
				return err
			}
			if err := k.same("an item", got, it); err != nil {
				return err
			}
			s, err := k.shown(dmodel.T{Ref: "enum", Name: f.Type.Name}, dval.E(ns[i]), f)
			if err != nil {
				return err
			}
			if err := k.words(x, "child", s); err != nil {
				return err
			}
		}
	}
	return nil
}

func optional(t dmodel.T) dmodel.T {
	if t.Kind == 0 {
		t.Null = true
	} else {
		t.Out = true
	}
	return t
}

// words checks that a child is a Text.
func (k *view) words(x any, child, s string) error {
	t, err := k.M.Get(x, child)
	if err != nil {
		return err
	}
	if dart.ClassOf(t) != "Text" {
		return fmt.Errorf("%s is no Text", k.M.String(t))
	}
	got, err := k.M.Get(t, "data")
	if err != nil {
		return err
	}
	return k.same("the text", got, s)
}

func (k *view) urls(v any) (out []any, err error) {
	out = []any{}
	l, ok := v.(*dart.List)
	if !ok {
		return nil, fmt.Errorf("no list of images")
	}
	for _, x := range l.L {
		u, err := k.M.Get(x, "url")
		if err != nil {
			return nil, err
		}
		out = append(out, u)
	}
	return
}

type input struct {
	val  any // for Dart
	want any
	text any // for the rules
	name string
}

// entries are what is entered into the control of a field.
func (k *view) entries(f *field, vals map[string][]any) (out []input, err error) {
	t := f.Type
	opt := dval.Optional(t)
	switch f.Form {
	case "text", "file", "date":
		seen := map[string]bool{}
		add := func(s string, want any) {
			if seen[s] {
				return
			}
			seen[s] = true
			var text any = s
			if t.Kind == 0 && t.Name == "date" {
				text = dated(s)
			}
			out = append(out, input{s, want, text, s})
		}
		for _, s := range k.inputs(t) {
			add(s, k.taken(t, s))
		}
		for _, v := range vals[f.Name] { // saving what is shown
			s, err := k.shown(t, v, f)
			if err != nil {
				return nil, err
			}
			add(s, k.taken(t, s))
		}
		if dval.Optional(t) {
			out = append(out, input{nil, nil, nil, "null"})
		}
	case "image":
		urls := []any{"http://x/a.png", "https://y/$b", "c"}
		for n := 0; n < 4; n++ {
			l := k.M.NewList(k.file, "ImageFormImage")
			for _, u := range urls[:n] {
				x, err := k.M.Create(k.file, "ImageFormImage", "", []any{u}, nil)
				if err != nil {
					return nil, err
				}
				l.L = append(l.L, x)
			}
			in := input{val: l, want: refused{}, name: fmt.Sprint(urls[:n])}
			if t.Kind == 1 {
				in.want = append([]any{}, urls[:n]...)
			} else if n > 0 {
				in.want = urls[0]
			} else if opt {
				in.want = nil
			}
			if n > 0 {
				in.text = urls[0]
			}
			out = append(out, in)
		}
	default:
		for _, v := range vals[f.Name] {
			x, err := k.Make(k.file, t, v)
			if err != nil {
				return nil, err
			}
			in := input{val: x, want: v, name: dval.Text(v)}
			if v != nil && t.Kind == 0 && t.Ref != "data" {
				if in.text, err = k.shown(t, v, &field{Format: "yyyy-MM-dd HH:mm:ss.SSS", Digit: 40}); err != nil {
					return nil, err
				}
			}
			out = append(out, in)
		}
		if !opt && f.Form != "switch" {
			out = append(out, input{nil, refused{}, nil, "null"})
		}
	}
	return
}

func (k *view) enters(class string, d dval.D, f *field, vals map[string][]any) error {
	es, err := k.entries(f, vals)
	if err != nil {
		return err
	}
	for _, e := range es {
		info, form, _, err := k.built(class, d, false)
		if err != nil {
			return err
		}
		w, err := k.own(form, f)
		if err != nil {
			return err
		}
		k.c.Step(1)
		check, err := k.M.Get(w, "validator")
		if err != nil {
			return err
		}
		if !f.Rules && check != nil {
			return fmt.Errorf("it has a validator and no rules")
		}
		if f.Rules {
			want, err := k.M.Top(k.verify, "verify"+k.hump+"_"+f.Hump, k.ctx, e.text)
			if err != nil {
				return err
			}
			var got any
			if check != nil {
				if got, err = k.M.Apply(check, e.val); err != nil {
					return fmt.Errorf("validator(%q): %v", e.name, err)
				}
			}
			if got != want {
				return fmt.Errorf("the validator says %s of %q, the rules %s", k.M.String(got), e.name, k.M.String(want))
			}
		}
		if f.OnlyRead {
			continue
		}
		save, err := k.M.Get(w, "onSaved")
		if err != nil {
			return err
		}
		k.c.State(k.group + k.key + dval.Text(d) + f.Name + "<-" + e.name)
		_, thrown := k.M.Apply(save, e.val)
		got, err := k.Data(k.key, info, "the data")
		if err != nil {
			return fmt.Errorf("entering %q: %v", e.name, err)
		}
		o := dval.D{}
		for n, x := range d {
			o[n] = x
		}
		ok := false
		if e.want == (refused{}) {
			ok = dval.Text(got) == dval.Text(o)
			if dval.Optional(f.Type) {
				o[f.Name] = nil
				ok = ok || dval.Text(got) == dval.Text(o)
			}
		} else if thrown != nil {
			return fmt.Errorf("entering %q: %v", e.name, thrown)
		} else {
			o[f.Name] = e.want
			ok = dval.Text(got) == dval.Text(o)
		}
		if !ok {
			return fmt.Errorf("entering %q makes the data %s, and it should be %s", e.name, dval.Text(got), dval.Text(o))
		}
	}
	return nil
}
