package ref

import (
	"strings"
	"unicode"

	"strconv"

	"verif/harness/hb"
)

// Verdict on a text.
type Verdict int

const (
	No      Verdict = iota // not a sentence: must be rejected
	Yes                    // a sentence: must be accepted, with the tree given
	Lenient                // the implementation is documented nowhere and lenient here: either is fine
)

func (v Verdict) String() string { return [...]string{"no", "yes", "lenient"}[v] }

type fail struct{}

type gp struct {
	toks    []Tok // without comments
	docs    []string
	i       int
	lenient bool
}

// Parse is the reference parser: strings and docs keep their raw spelling.
func Parse(src, name string) (f *hb.File, v Verdict) {
	lx := Lex(src, name, true)
	if len(lx.Errs) > 0 {
		return nil, No
	}
	p := &gp{}
	p.attach(lx)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(fail); ok {
				f, v = nil, No
				return
			}
			panic(e)
		}
	}()
	f = p.file()
	f.Name = name
	if p.lenient {
		return f, Lenient
	}
	return f, Yes
}

// attach computes, for every token, the documentation comment right before it: the last group of adjacent comments,
// on lines of its own, ending on the line before the token.
func (p *gp) attach(lx *Lexed) {
	line := func(off int) int { _, l, _ := lx.Pos(off, ""); return l }
	t := lx.Toks
	prevLine := -1
	for i := 0; i < len(t); {
		if t[i].Kind != "COMMENT" {
			p.toks = append(p.toks, t[i])
			p.docs = append(p.docs, "")
			prevLine = line(t[i].Off)
			i++
			continue
		}
		end := func(k int) int { return line(t[k].Off) + strings.Count(rawComment(t[k]), "\n") }
		doc := ""
		docEnd := -2
		// comments on the line of the previous token do not document the next one
		if line(t[i].Off) == prevLine {
			e := prevLine
			for i < len(t) && t[i].Kind == "COMMENT" && line(t[i].Off) <= e {
				e = end(i)
				i++
			}
		}
		for i < len(t) && t[i].Kind == "COMMENT" {
			e := line(t[i].Off)
			var g []string
			for i < len(t) && t[i].Kind == "COMMENT" && line(t[i].Off) <= e+1 {
				g = append(g, t[i].Lit)
				e = end(i)
				i++
			}
			doc, docEnd = strings.Join(g, "\x01"), e
		}
		if docEnd+1 != line(t[i].Off) {
			doc = ""
		}
		p.toks = append(p.toks, t[i])
		p.docs = append(p.docs, doc)
		prevLine = line(t[i].Off)
		i++
	}
}

func rawComment(t Tok) string {
	if strings.HasPrefix(t.Lit, "/*") {
		return t.Lit
	}
	return ""
}

func (p *gp) tok() Tok     { return p.toks[p.i] }
func (p *gp) kind() string { return p.toks[p.i].Kind }
func (p *gp) bad()         { panic(fail{}) }

func (p *gp) take(k string) string {
	if p.kind() != k {
		p.bad()
	}
	l := p.tok().Lit
	p.i++
	return l
}

// eos: the end of a statement is ';' or the closing brace after it.
func (p *gp) eos() {
	switch p.kind() {
	case ";":
		p.i++
	case "}", ")":
	default:
		p.bad()
	}
}

func (p *gp) file() *hb.File {
	f := &hb.File{}
	for p.kind() == "package" {
		p.i++
		name := ""
		if p.kind() == "IDENT" {
			name = p.take("IDENT")
		} else {
			p.lenient = true
		}
		p.take("=")
		s := p.take("STRING")
		p.eos()
		f.Packages = append(f.Packages, [2]string{name, s})
	}
	for p.kind() == "import" {
		p.i++
		s := p.take("STRING")
		if !validImport(s) {
			p.bad()
		}
		p.eos()
		f.Imports = append(f.Imports, s)
	}
	for p.kind() != "EOF" {
		f.Decls = append(f.Decls, p.decl())
	}
	return f
}

func validImport(lit string) bool {
	s, err := strconv.Unquote(lit)
	if err != nil || s == "" {
		return false
	}
	for _, r := range s {
		if !unicode.IsGraphic(r) || unicode.IsSpace(r) || strings.ContainsRune("!\"#$%&'()*,:;<=>?[\\]^{|}`\uFFFD", r) {
			return false
		}
	}
	return true
}

func (p *gp) tags() []hb.Tag {
	var ts []hb.Tag
	for p.kind() == "[" {
		p.i++
		t := hb.Tag{Name: p.take("IDENT")}
		p.take(":")
		for p.kind() != "]" {
			kv := hb.KV{K: p.take("IDENT")}
			p.take("=")
			kv.V = append(kv.V, p.take("STRING"))
			for p.kind() == "," {
				p.i++
				kv.V = append(kv.V, p.take("STRING"))
			}
			t.KV = append(t.KV, kv)
			if p.kind() == ";" {
				p.i++
			} else if p.kind() != "]" {
				p.lenient = true
			}
		}
		p.take("]")
		p.eos()
		ts = append(ts, t)
	}
	return ts
}

func (p *gp) exts() []hb.Ext {
	var es []hb.Ext
	if p.kind() != ":" {
		return nil
	}
	for p.kind() == ":" || p.kind() == "," {
		if p.kind() == ":" && len(es) > 0 {
			p.lenient = true
		}
		p.i++
		e := hb.Ext{Name: p.take("IDENT")}
		p.take("=")
		e.Id = p.take("INT")
		es = append(es, e)
	}
	return es
}

func (p *gp) vtype() hb.Type {
	t := hb.Type{Name: p.take("IDENT")}
	if p.kind() == "?" {
		t.Null = true
		p.i++
	}
	switch p.kind() {
	case "[":
		p.i++
		p.take("]")
		t.Kind = hb.Array
	case "<":
		p.i++
		t.Kind = hb.Map
		k := p.vtype()
		if k.Kind != hb.Var {
			p.lenient = true // a nested type as key: a matter of the semantic rules
		}
		t.Key, t.KeyN = k.Name, k.Null
		p.take(">")
	default:
		return t
	}
	if p.kind() == "?" {
		t.Out = true
		p.i++
	}
	return t
}

func (p *gp) decl() hb.Decl {
	d := hb.Decl{Doc: p.docs[p.i]}
	d.Tags = p.tags()
	switch p.kind() {
	case "data":
		d.Kind = hb.Data
	case "enum":
		d.Kind = hb.Enum
	case "server":
		d.Kind = hb.Server
	default:
		p.bad()
	}
	p.i++
	d.Name = p.take("IDENT")
	if d.Kind != hb.Enum {
		d.Exts = p.exts()
	}
	p.take("{")
	for p.kind() != "}" {
		doc := p.docs[p.i]
		tags := p.tags()
		switch d.Kind {
		case hb.Data:
			f := hb.Field{Doc: doc, Tags: tags, Type: p.vtype()}
			f.Name = p.take("IDENT")
			p.take("=")
			f.Id = p.take("INT")
			if p.kind() == "STRING" {
				p.i++
				p.lenient = true
			}
			d.Fields = append(d.Fields, f)
		case hb.Enum:
			it := hb.Item{Doc: doc, Tags: tags, Name: p.take("IDENT")}
			p.take("=")
			it.Id = p.take("INT")
			d.Items = append(d.Items, it)
		case hb.Server:
			m := hb.Method{Doc: doc, Tags: tags, Result: p.vtype()}
			m.Name = p.take("IDENT")
			p.take("(")
			m.Param = p.vtype()
			m.ParamName = p.take("IDENT")
			p.take(")")
			p.take("=")
			m.Id = p.take("INT")
			if m.Result.Kind != hb.Var || m.Param.Kind != hb.Var {
				p.bad()
			}
			d.Methods = append(d.Methods, m)
		}
		p.eos()
	}
	p.take("}")
	if p.kind() == "=" {
		p.i++
		p.lenient = true
	}
	p.eos()
	return d
}
