// Package dart reads and runs the part of Dart that the generated code uses: the sandbox has no
// Dart, so this package takes the place of the analyser and of the virtual machine.
package dart

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type kind int

const (
	tEOF kind = iota
	tIdent
	tInt
	tDouble
	tString
	tPunct
)

type tok struct {
	k     kind
	s     string // identifier, punctuation or number
	parts []part // of a string
	line  int
	pos   int
	end   int
}

// part is a piece of a string: text or the source of an interpolated expression.
type part struct {
	text string
	expr string
	code bool
	line int
}

type lexer struct {
	src  string
	pos  int
	line int
	toks []tok
}

// SyntaxError is what the parser reports.
type SyntaxError struct {
	File string
	Line int
	Msg  string
}

func (e *SyntaxError) Error() string { return fmt.Sprintf("%s:%d: %s", e.File, e.Line, e.Msg) }

var puncts = []string{
	">>>=", "...?", "??=", "~/=", "<<=", ">>=", "?..", "...",
	"=>", "==", "!=", "<=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "~/", "<<", "..",
	"(", ")", "[", "]", "{", "}", ";", ",", ".", ":", "?", "=", "<", ">", "!", "+", "-", "*", "/", "%", "&", "|", "^", "~", "@", "#",
}

func (l *lexer) fail(msg string) { panic(&SyntaxError{Line: l.line, Msg: msg}) }

func identStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func identPart(c byte) bool { return identStart(c) || c >= '0' && c <= '9' }

func lex(src string, line int) []tok {
	l := &lexer{src: src, line: line}
	for {
		l.skip()
		if l.pos >= len(l.src) {
			l.toks = append(l.toks, tok{k: tEOF, line: l.line, pos: l.pos, end: l.pos})
			return l.toks
		}
		c := l.src[l.pos]
		start := l.pos
		t := tok{line: l.line, pos: start}
		switch {
		case c == 'r' && l.pos+1 < len(l.src) && (l.src[l.pos+1] == '"' || l.src[l.pos+1] == '\''):
			l.pos++
			t.k, t.parts = tString, l.str(true)
		case identStart(c):
			for l.pos < len(l.src) && identPart(l.src[l.pos]) {
				l.pos++
			}
			t.k, t.s = tIdent, l.src[start:l.pos]
		case c >= '0' && c <= '9' || c == '.' && l.pos+1 < len(l.src) && l.src[l.pos+1] >= '0' && l.src[l.pos+1] <= '9':
			t.k, t.s = l.number()
		case c == '"' || c == '\'':
			t.k, t.parts = tString, l.str(false)
		default:
			found := false
			for _, p := range puncts {
				if strings.HasPrefix(l.src[l.pos:], p) {
					t.k, t.s = tPunct, p
					l.pos += len(p)
					found = true
					break
				}
			}
			if !found {
				r, _ := utf8.DecodeRuneInString(l.src[l.pos:])
				l.fail(fmt.Sprintf("unexpected character %q", r))
			}
		}
		t.end = l.pos
		l.toks = append(l.toks, t)
	}
}

func (l *lexer) skip() {
	for l.pos < len(l.src) {
		c := l.src[l.pos]
		switch {
		case c == '\n':
			l.line++
			l.pos++
		case c == ' ' || c == '\t' || c == '\r':
			l.pos++
		case strings.HasPrefix(l.src[l.pos:], "//"):
			for l.pos < len(l.src) && l.src[l.pos] != '\n' && l.src[l.pos] != '\r' {
				l.pos++
			}
		case strings.HasPrefix(l.src[l.pos:], "/*"):
			depth := 0
			for {
				if l.pos >= len(l.src) {
					l.fail("comment without end")
				}
				if strings.HasPrefix(l.src[l.pos:], "/*") {
					depth++
					l.pos += 2
				} else if strings.HasPrefix(l.src[l.pos:], "*/") {
					depth--
					l.pos += 2
					if depth == 0 {
						break
					}
				} else {
					if l.src[l.pos] == '\n' {
						l.line++
					}
					l.pos++
				}
			}
		default:
			if c == 0xEF && strings.HasPrefix(l.src[l.pos:], "\uFEFF") && l.pos == 0 {
				l.pos += 3
				continue
			}
			return
		}
	}
}

func (l *lexer) number() (kind, string) {
	start := l.pos
	if strings.HasPrefix(l.src[l.pos:], "0x") || strings.HasPrefix(l.src[l.pos:], "0X") {
		l.pos += 2
		for l.pos < len(l.src) && strings.IndexByte("0123456789abcdefABCDEF", l.src[l.pos]) >= 0 {
			l.pos++
		}
		if l.pos == start+2 {
			l.fail("hexadecimal number without digits")
		}
		return tInt, l.src[start:l.pos]
	}
	k := tInt
	digits := func() {
		for l.pos < len(l.src) && l.src[l.pos] >= '0' && l.src[l.pos] <= '9' {
			l.pos++
		}
	}
	digits()
	if l.pos+1 < len(l.src) && l.src[l.pos] == '.' && l.src[l.pos+1] >= '0' && l.src[l.pos+1] <= '9' {
		k = tDouble
		l.pos++
		digits()
	}
	if l.pos < len(l.src) && (l.src[l.pos] == 'e' || l.src[l.pos] == 'E') {
		k = tDouble
		l.pos++
		if l.pos < len(l.src) && (l.src[l.pos] == '+' || l.src[l.pos] == '-') {
			l.pos++
		}
		digits()
	}
	if l.pos < len(l.src) && identStart(l.src[l.pos]) {
		l.fail("number followed by a letter")
	}
	return k, l.src[start:l.pos]
}

func (l *lexer) str(raw bool) []part {
	q := l.src[l.pos : l.pos+1]
	if strings.HasPrefix(l.src[l.pos:], q+q+q) {
		q = q + q + q
	}
	l.pos += len(q)
	var parts []part
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			parts = append(parts, part{text: b.String()})
			b.Reset()
		}
	}
	if len(q) == 3 {
		// the first line break of a multi-line string does not belong to it
		rest := l.src[l.pos:]
		trim := strings.TrimLeft(rest, " \t\\")
		if strings.HasPrefix(trim, "\n") {
			l.pos += len(rest) - len(trim) + 1
			l.line++
		}
	}
	for {
		if l.pos >= len(l.src) {
			l.fail("string without end")
		}
		if strings.HasPrefix(l.src[l.pos:], q) {
			l.pos += len(q)
			flush()
			return parts
		}
		c := l.src[l.pos]
		switch {
		case (c == '\n' || c == '\r') && len(q) == 1:
			l.fail("line break in a string")
		case c == '\\' && !raw:
			l.pos++
			if l.pos >= len(l.src) {
				l.fail("string without end")
			}
			e := l.src[l.pos]
			l.pos++
			switch e {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'v':
				b.WriteByte('\v')
			case 'x':
				b.WriteRune(l.hex(2))
			case 'u':
				if l.pos < len(l.src) && l.src[l.pos] == '{' {
					end := strings.IndexByte(l.src[l.pos:], '}')
					if end < 2 || end > 7 {
						l.fail("wrong \\u escape")
					}
					n, err := strconv.ParseUint(l.src[l.pos+1:l.pos+end], 16, 32)
					if err != nil || n > 0x10ffff {
						l.fail("wrong \\u escape")
					}
					l.pos += end + 1
					b.WriteRune(rune(n))
				} else {
					b.WriteRune(l.hex(4))
				}
			default:
				if e >= utf8.RuneSelf {
					l.pos--
					r, n := utf8.DecodeRuneInString(l.src[l.pos:])
					l.pos += n
					b.WriteRune(r)
				} else {
					b.WriteByte(e) // any other character stands for itself
				}
			}
		case c == '$' && !raw:
			l.pos++
			if l.pos < len(l.src) && l.src[l.pos] == '{' {
				depth := 0
				start := l.pos + 1
				for ; ; l.pos++ {
					if l.pos >= len(l.src) {
						l.fail("interpolation without end")
					}
					if l.src[l.pos] == '{' {
						depth++
					} else if l.src[l.pos] == '}' {
						depth--
						if depth == 0 {
							break
						}
					}
				}
				flush()
				parts = append(parts, part{expr: l.src[start:l.pos], code: true, line: l.line})
				l.pos++
			} else if l.pos < len(l.src) && identStart(l.src[l.pos]) && l.src[l.pos] != '$' {
				start := l.pos
				for l.pos < len(l.src) && identPart(l.src[l.pos]) && l.src[l.pos] != '$' {
					l.pos++
				}
				flush()
				parts = append(parts, part{expr: l.src[start:l.pos], code: true, line: l.line})
			} else {
				l.fail("'$' in a string has to be followed by an identifier or '{'")
			}
		default:
			if c == '\n' {
				l.line++
			}
			r, n := utf8.DecodeRuneInString(l.src[l.pos:])
			if r == unicode.ReplacementChar && n == 1 {
				l.fail("the file is not UTF-8")
			}
			l.pos += n
			b.WriteRune(r)
		}
	}
}

func (l *lexer) hex(n int) rune {
	if l.pos+n > len(l.src) {
		l.fail("wrong escape")
	}
	v, err := strconv.ParseUint(l.src[l.pos:l.pos+n], 16, 32)
	if err != nil {
		l.fail("wrong escape")
	}
	l.pos += n
	return rune(v)
}
