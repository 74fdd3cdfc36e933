// P02: every string up to a length over rule-reaching alphabets is scanned exactly as the reference lexer says.
package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync/atomic"

	"hbuf/pkg/scanner"
	"hbuf/pkg/token"

	"verif/harness/ev"
	"verif/harness/guard"
	"verif/harness/hb"
	"verif/harness/ref"
)

const fname = "dir/f.hbuf"

type alphabet struct {
	name   string
	syms   []string
	q, t   int    // length bounds
	prefix string // fixed context
	suffix string
}

var alphabets = []alphabet{
	{name: "mix", syms: []string{"a", "0", " ", "\n", "\"", "`", "/", "*", "\\", "]", "=", "\r"}, q: 6, t: 6},
	{name: "ops", syms: []string{",", ":", ";", "(", ")", "[", "]", "{", "}", "<", ">", "=", "?", "a", "1", "\n", " ", "/", "//", "/**/"}, q: 4, t: 5},
	{name: "words", syms: []string{"data", "enum", "server", "import", "package", "d", "_", "9", "\n", " ", "é", "Z", "x"}, q: 5, t: 6},
	{name: "numbers", syms: []string{"0", "1", "2", "7", "8", "9", "_", "x", "X", "o", "b", "B", "O", "a", "F", "g", "."}, q: 5, t: 5},
	{name: "hexnum", syms: []string{"0", "9", "_", "A", "f", "g", "\n"}, q: 6, t: 7, prefix: "0x"},
	{name: "escapes", syms: []string{"\\", "\"", "n", "x", "u", "U", "0", "3", "7", "8", "d", "F", "\n", "a", "'"}, q: 5, t: 5, prefix: "\"\\"},
	{name: "unicode-escapes", syms: []string{"0", "d", "8", "7", "F", "1"}, q: 5, t: 6, prefix: "\"\\u", suffix: "\" x"},
	{name: "long-escapes", syms: []string{"0", "1", "d", "8", "f"}, q: 6, t: 7, prefix: "\"\\U000", suffix: "\"\n"},
	{name: "comments", syms: []string{"/", "*", "\n", "\r", " ", "a", ";", "]", "\""}, q: 6, t: 7},
	{name: "comment-tail", syms: []string{"/*", "*/", "//", "\n", "\r", " ", "\t", "b", "*", "/"}, q: 6, t: 7, prefix: "a "},
	{name: "bytes", syms: []string{"\x00", "\xff", "\xc3", "\xa9", "\uFEFF", "a", "\"", "`", "/*", "*/", "\n", "@", "\u4e2d", "\u0660", "'"}, q: 5, t: 5},
	{name: "raw", syms: []string{"`", "\r", "\n", "a", "\\", "\"", " "}, q: 6, t: 7},
	{name: "directive", syms: []string{"//line ", "/*line ", "*/", ":", "3", "0", "f", "\n", " ", "a", "\r", "/"}, q: 5, t: 6},
	{name: "directive-col", syms: []string{"7", "2", "0", ":", "*/", "\n", "a", "b", " ", "x", "//line g:5\n", "/*line :9:9*/"}, q: 5, t: 6, prefix: "a\n/*line g:"},
	{name: "directive-line", syms: []string{"7", "2", "0", ":", "\n", "a", "b", " ", "//line :4:2\n", "//line /h:5\n"}, q: 6, t: 6, prefix: "x\n\n//line q:"},
	{name: "lines", syms: []string{"\n", "a", "b c", "\n\n", "]", "}", "\t", ")", ">", "?"}, q: 5, t: 6},
}

func real(src string, comments bool) (toks []string, errs []string, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	fs := token.NewFileSet()
	// a file before it, so that positions are not offsets
	fs.AddFile("other", -1, 7)
	f := fs.AddFile(fname, -1, len(src))
	var s scanner.Scanner
	em := map[int]bool{}
	var mode scanner.Mode
	if comments {
		mode = scanner.ScanComments
	}
	s.Init(f, []byte(src), func(pos token.Position, msg string) { em[pos.Offset] = true }, mode)
	type raw struct {
		pos token.Pos
		tok token.Token
		lit string
	}
	var rs []raw
	for n := 0; ; n++ {
		p, t, l := s.Scan()
		rs = append(rs, raw{p, t, l})
		if t == token.EOF {
			break
		}
		if n > 2*len(src)+8 {
			pan = "scanning does not end"
			return
		}
	}
	if (s.ErrorCount > 0) != (len(em) > 0) {
		pan = "error count and reported errors disagree"
		return
	}
	for _, r := range rs {
		p := fs.Position(r.pos)
		toks = append(toks, fmt.Sprintf("%s %q @%d %s:%d:%d", r.tok, r.lit, p.Offset, p.Filename, p.Line, p.Column))
	}
	for o := range em {
		errs = append(errs, fmt.Sprint(o))
	}
	sort.Strings(errs)
	return
}

func want(src string, comments bool) (toks []string, errs []string) {
	l := ref.Lex(src, fname, comments)
	for _, t := range l.Toks {
		f, ln, c := l.Pos(t.Off, fname)
		toks = append(toks, fmt.Sprintf("%s %q @%d %s:%d:%d", t.Kind, t.Lit, t.Off, f, ln, c))
	}
	for o := range l.Errs {
		errs = append(errs, fmt.Sprint(o))
	}
	sort.Strings(errs)
	return
}

func compare(src string, comments bool, seen map[uint64]struct{}) string {
	a, ae, pan := real(src, comments)
	if seen != nil {
		h := fnv.New64a()
		for _, t := range a {
			_, _ = h.Write([]byte(t[:strings.IndexByte(t, ' ')]))
			_, _ = h.Write([]byte{0})
		}
		_, _ = h.Write([]byte{byte(len(ae))})
		seen[h.Sum64()] = struct{}{}
	}
	if pan != "" {
		return "scanner fails: " + pan
	}
	b, be := want(src, comments)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("tokens differ\n got: %s\nwant: %s", strings.Join(a, "\n      "), strings.Join(b, "\n      "))
	}
	if strings.Join(ae, ",") != strings.Join(be, ",") {
		return fmt.Sprintf("error offsets differ\n got: %v\nwant: %v", ae, be)
	}
	return ""
}

func main() {
	guard.Main("P02", body, func(kind byte, data string) { real(data, true); real(data, false) })
}

func body(c *ev.Check, g *guard.Guard) {
	c.Assumptions = []string{"characters outside the alphabets behave like one of their class (letter, digit, illegal)"}
	bounds := map[string]int{}
	var distinct int64
	sets := make([]map[uint64]struct{}, 1024)
	for ai, al := range alphabets {
		if c.Stop() {
			break
		}
		bound := c.Pick(al.q, al.t)
		k := len(al.syms)
		for n := 0; n <= bound; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= k
			}
			const chunk = 4096
			chunks := (total + chunk - 1) / chunk
			nslots := len(g.Slots)
			work := make(chan int, nslots)
			for i := 0; i < nslots; i++ {
				work <- i
				if sets[i] == nil {
					sets[i] = map[uint64]struct{}{}
				}
			}
			hb.Parallel(chunks, c.Stop, func(ch int) {
				si := <-work
				defer func() { work <- si }()
				slot := g.Slots[si]
				hi := (ch + 1) * chunk
				if hi > total {
					hi = total
				}
				idx := make([]string, n)
				for x := ch * chunk; x < hi; x++ {
					v := x
					for i := n - 1; i >= 0; i-- {
						idx[i] = al.syms[v%k]
						v /= k
					}
					src := al.prefix + strings.Join(idx, "") + al.suffix
					slot.Begin('S', src)
					for _, cm := range []bool{true, false} {
						if d := compare(src, cm, sets[si]); d != "" {
							c.Violate(fmt.Sprintf("lex:%q", src), fmt.Sprintf("text %q (comments=%v), alphabet %s\n%s", src, cm, al.name, d))
						}
					}
					slot.End()
				}
				c.Step(hi - ch*chunk)
				c.Trace(2 * (hi - ch*chunk))
			})
			atomic.AddInt64(&distinct, int64(total))
			if !c.Stop() {
				bounds[al.name] = n
			}
		}
		_ = ai
		c.Logf("alphabet %s done, length %d, strings so far %d", al.name, bound, c.Transitions)
	}
	// longer shapes: every pair of line-start positions over a few lines, so the line table is searched at every entry
	for lines := 1; lines <= c.Pick(40, 120); lines++ {
		var b strings.Builder
		for i := 0; i < lines; i++ {
			b.WriteString(strings.Repeat(" ", i%3) + "ab" + strings.Repeat("]", i%2) + "\n")
		}
		for _, end := range []string{"", "x", "\"", "/*"} {
			src := b.String() + end
			if d := compare(src, true, nil); d != "" {
				c.Violate(fmt.Sprintf("lex:lines%d%q", lines, end), d)
			}
			c.Step(1)
			c.Trace(1)
		}
	}
	all := map[uint64]struct{}{}
	for _, m := range sets {
		for h := range m {
			all[h] = struct{}{}
		}
	}
	c.States = int64(len(all)) // distinct sequences of token kinds and error counts observed
	c.Extra["strings"] = distinct
	c.Extra["length_bounds"] = bounds
	c.Extra["alphabets"] = len(alphabets)
	for _, s := range []string{"a /*c*/ /*\n*/ b", "0b2_", "\"\\ud800\"", "x\n\n//line q:7:2\nab"} {
		a, e, _ := real(s, true)
		c.Sample(fmt.Sprintf("%q -> %s errors %v", s, strings.Join(a, " | "), e))
	}
}
