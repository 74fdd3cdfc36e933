// Package ref holds the reference lexer and grammar, written from the rules and not from the scanner's code.
package ref

import (
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Token kinds, as spelled by the compiler's token names.
type Tok struct {
	Kind string // IDENT INT STRING COMMENT ILLEGAL EOF or the operator or keyword itself
	Lit  string
	Off  int
}

// Lexed is the result of lexing a text.
type Lexed struct {
	Toks  []Tok
	Errs  map[int]bool // offsets of errors
	Infos []Info       // position directives in order
	src   string
}

// Info is a line directive.
type Info struct {
	Off       int
	File      string
	Line, Col int
}

var keywords = map[string]bool{"import": true, "package": true, "data": true, "server": true, "enum": true}

type lexer struct {
	src  string
	dir  string
	file string
	out  *Lexed
	semi bool
}

func letter(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func digit(r rune) bool  { return unicode.IsDigit(r) }
func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return 99
}

func at(s string, i int) byte {
	if i < len(s) {
		return s[i]
	}
	return 0
}

// Lex splits text into tokens. Comments are tokens when comments is true.
func Lex(src, filename string, comments bool) *Lexed {
	out := &Lexed{Errs: map[int]bool{}, src: src}
	dir, _ := filepath.Split(filename)
	lx := &lexer{src: src, dir: dir, file: filename, out: out}
	// rule: NUL, invalid UTF-8 and a byte order mark that is not first are errors wherever they are
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		if r == 0 || r == utf8.RuneError && w == 1 || r == 0xFEFF && i > 0 {
			out.Errs[i] = true
		}
		i += w
	}
	i := 0
	if strings.HasPrefix(src, "\uFEFF") {
		i = 3
	}
	for {
		// blanks
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r' || src[i] == '\n' && !lx.semi) {
			i++
		}
		if i >= len(src) {
			if lx.semi {
				lx.add(";", "\n", i, false)
				continue
			}
			lx.add("EOF", "", i, false)
			return out
		}
		c := src[i]
		r, w := utf8.DecodeRuneInString(src[i:])
		if r == utf8.RuneError && w <= 1 {
			r, w = utf8.RuneError, 1
		}
		switch {
		case c == '\n':
			lx.add(";", "\n", i, false)
			i++
		case letter(r) && !(r == utf8.RuneError && w == 1):
			j := i
			for j < len(src) {
				r, w := utf8.DecodeRuneInString(src[j:])
				if r == utf8.RuneError && w <= 1 || !(letter(r) || digit(r)) {
					break
				}
				j += w
			}
			word := src[i:j]
			if keywords[word] {
				lx.add(word, word, i, false)
			} else {
				lx.add("IDENT", word, i, true)
			}
			i = j
		case c >= '0' && c <= '9':
			j := lx.number(i)
			lx.add("INT", src[i:j], i, true)
			i = j
		case c == '"':
			j := lx.str(i)
			lx.add("STRING", src[i:j], i, true)
			i = j
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				out.Errs[i] = true
				j = len(src)
			} else {
				j += i + 2
			}
			lx.add("STRING", strings.ReplaceAll(src[i:j], "\r", ""), i, true)
			i = j
		case c == '/' && (at(src, i+1) == '/' || at(src, i+1) == '*'):
			if lx.semi && lx.endsLine(i) {
				lx.add(";", "\n", i, false)
				continue
			}
			j, text := lx.comment(i)
			lx.semi = false
			if comments {
				lx.add("COMMENT", text, i, false)
			}
			i = j
		case strings.IndexByte(",:([{<=?", c) >= 0:
			lx.add(string(c), "", i, false)
			i++
		case c == ';':
			lx.add(";", ";", i, false)
			i++
		case strings.IndexByte(")]}>", c) >= 0:
			lx.add(string(c), "", i, true)
			i++
		default:
			out.Errs[i] = true
			lx.add("ILLEGAL", string(r), i, lx.semi)
			i += w
		}
	}
}

func (lx *lexer) add(kind, lit string, off int, semi bool) {
	lx.out.Toks = append(lx.out.Toks, Tok{kind, lit, off})
	lx.semi = semi
}

// number: 0x hex, 0o or 0 octal, 0b binary, else decimal; '_' between digits or after a prefix.
func (lx *lexer) number(i int) int {
	s := lx.src
	base, j := 10, i
	prefix := ""
	if s[i] == '0' {
		switch at(s, i+1) {
		case 'x', 'X':
			base, j, prefix = 16, i+2, "p"
		case 'o', 'O':
			base, j, prefix = 8, i+2, "p"
		case 'b', 'B':
			base, j, prefix = 2, i+2, "p"
		default:
			base = 8
		}
	}
	start := j
	for j < len(s) {
		c := s[j]
		if c == '_' || c >= '0' && c <= '9' || base == 16 && hexv(c) < 16 {
			j++
			continue
		}
		break
	}
	body := s[start:j]
	if strings.Trim(body, "_") == "" {
		lx.out.Errs[j] = true
	}
	for k := 0; k < len(body); k++ {
		if body[k] != '_' && hexv(body[k]) >= base {
			lx.out.Errs[start+k] = true
			break
		}
	}
	// separators
	prevDigit := prefix != ""
	for k := 0; k < len(body); k++ {
		if body[k] == '_' {
			if !prevDigit {
				lx.out.Errs[start+k] = true
				return j
			}
			prevDigit = false
		} else {
			prevDigit = true
		}
	}
	if body != "" && body[len(body)-1] == '_' {
		lx.out.Errs[j-1] = true
	}
	return j
}

func (lx *lexer) str(i int) int {
	s := lx.src
	j := i + 1
	for {
		if j >= len(s) || s[j] == '\n' {
			lx.out.Errs[i] = true
			return j
		}
		c := s[j]
		j++
		if c == '"' {
			return j
		}
		if c == '\\' {
			j = lx.escape(j)
		}
	}
}

func (lx *lexer) escape(j int) int {
	s := lx.src
	if j >= len(s) {
		lx.out.Errs[j] = true
		return j
	}
	var n, base int
	var max uint64
	first := j
	switch c := s[j]; c {
	case 'a', 'b', 'f', 'n', 'r', 't', 'v', '\\', '"':
		return j + 1
	case '0', '1', '2', '3', '4', '5', '6', '7':
		n, base, max = 3, 8, 255
	case 'x':
		j++
		n, base, max = 2, 16, 255
	case 'u':
		j++
		n, base, max = 4, 16, unicode.MaxRune
	case 'U':
		j++
		n, base, max = 8, 16, unicode.MaxRune
	default:
		lx.out.Errs[j] = true
		return j
	}
	var v uint64
	for ; n > 0; n-- {
		if j >= len(s) || hexv(s[j]) >= base {
			lx.out.Errs[j] = true
			return j
		}
		v = v*uint64(base) + uint64(hexv(s[j]))
		j++
	}
	if v > max || v >= 0xD800 && v < 0xE000 {
		lx.out.Errs[first] = true
	}
	return j
}

// endsLine: from the comment at i on, the line ends before another token.
func (lx *lexer) endsLine(i int) bool {
	s := lx.src
	for {
		if strings.HasPrefix(s[i:], "//") {
			return true
		}
		if !strings.HasPrefix(s[i:], "/*") {
			return false
		}
		e := strings.Index(s[i+2:], "*/")
		body := s[i+2:]
		if e >= 0 {
			body = s[i+2 : i+2+e]
		}
		if strings.Contains(body, "\n") {
			return true
		}
		if e < 0 {
			return true
		}
		i += 2 + e + 2
		for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r') {
			i++
		}
		if i >= len(s) || s[i] == '\n' {
			return true
		}
	}
}

func (lx *lexer) comment(i int) (int, string) {
	s := lx.src
	if s[i+1] == '/' {
		j := strings.IndexByte(s[i:], '\n')
		next := 0
		if j < 0 {
			j = len(s)
			next = j
		} else {
			j += i
			next = j + 1
		}
		text := strings.TrimSuffix(s[i:j], "\r")
		if i == 0 || s[i-1] == '\n' {
			lx.directive(i, text, next)
		}
		return j, strings.ReplaceAll(text, "\r", "")
	}
	e := strings.Index(s[i+2:], "*/")
	if e < 0 {
		lx.out.Errs[i] = true
		return len(s), stripBlock(s[i:])
	}
	j := i + 2 + e + 2
	lx.directive(i, s[i:j-2], j)
	return j, stripBlock(s[i:j])
}

// stripBlock drops carriage returns, except where dropping one would create a new end of comment.
func stripBlock(t string) string {
	if !strings.Contains(t, "\r") {
		return t
	}
	var b []byte
	for k := 0; k < len(t); k++ {
		if t[k] == '\r' && !(len(b) > 2 && b[len(b)-1] == '*' && k+1 < len(t) && t[k+1] == '/') {
			continue
		}
		b = append(b, t[k])
	}
	return string(b)
}

// directive: "line file:line[:col]" sets the position of what follows.
func (lx *lexer) directive(i int, text string, next int) {
	if !strings.HasPrefix(text[2:], "line ") {
		return
	}
	t := text[7:]
	off := i + 7
	c := strings.LastIndexByte(t, ':')
	if c < 0 {
		return
	}
	n, err := strconv.ParseUint(t[c+1:], 10, 0)
	if err != nil {
		lx.out.Errs[off+c+1] = true
		return
	}
	line, col := n, uint64(0)
	name := t[:c]
	lineAt := c + 1
	hasCol := false
	if d := strings.LastIndexByte(name, ':'); d >= 0 {
		if n2, err := strconv.ParseUint(name[d+1:], 10, 0); err == nil {
			hasCol = true
			line, col = n2, n
			if col == 0 {
				lx.out.Errs[off+c+1] = true
				return
			}
			lineAt = d + 1
			name = name[:d]
		}
	}
	if line == 0 {
		lx.out.Errs[off+lineAt] = true
		return
	}
	if name == "" && hasCol {
		name, _, _ = lx.out.Pos(off, lx.file)
	} else if name != "" {
		name = filepath.Clean(name)
		if !filepath.IsAbs(name) {
			name = filepath.Join(lx.dir, name)
		}
	}
	in := &lx.out.Infos
	if k := len(*in); k == 0 || (*in)[k-1].Off < next && next < len(lx.src) {
		*in = append(*in, Info{next, name, int(line), int(col)})
	}
}

// Pos gives file, line and column of an offset, directives applied.
func (l *Lexed) Pos(off int, file string) (string, int, int) {
	line, col := l.raw(off)
	k := sort.Search(len(l.Infos), func(i int) bool { return l.Infos[i].Off > off }) - 1
	if k < 0 {
		return file, line, col
	}
	in := l.Infos[k]
	bl, _ := l.raw(in.Off)
	d := line - bl
	if in.Col == 0 {
		return in.File, in.Line + d, 0
	}
	if d == 0 {
		col = in.Col + off - in.Off
	}
	return in.File, in.Line + d, col
}

// raw: a line starts after each line end that is not the last byte of the text.
func (l *Lexed) raw(off int) (int, int) {
	lim := off
	if lim >= len(l.src) && strings.HasSuffix(l.src, "\n") {
		lim = len(l.src) - 1
	}
	line := strings.Count(l.src[:lim], "\n") + 1
	start := strings.LastIndexByte(l.src[:lim], '\n') + 1
	return line, off - start + 1
}
