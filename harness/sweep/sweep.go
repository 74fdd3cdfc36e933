// Package sweep enumerates texts: token sequences in contexts and bounded edits of valid schemas.
package sweep

import (
	"strings"
)

// Context is a place to put tokens.
type Context struct{ Name, Pre, Post string }

// Contexts put tokens at the start of a file and in every nested place.
var Contexts = []Context{
	{"file", "", ""},
	{"after package", "package go = \"p\"\n", ""},
	{"after import", "import \"x.hbuf\"\n", ""},
	{"data head", "data A ", "\n}"},
	{"data body", "data A {\n", "\n}\n"},
	{"field", "data A {\nint32 ", " = 1\n}\n"},
	{"field end", "data A {\nint32 a", "\n}\n"},
	{"data extends", "data A : ", " {\n}\n"},
	{"enum body", "enum E {\n", "\n}\n"},
	{"server body", "server S {\n", "\n}\n"},
	{"method param", "server S {\nA f(", ") = 1\n}\n"},
	{"method end", "server S {\nA f(A a)", "\n}\n"},
	{"tag", "[t: ", "]\ndata A {}\n"},
	{"tag name", "[", "data A {}\n"},
	{"tag value", "[t: k=\"v\"", "]\nenum A {}"},
	{"field tag", "data A {\n[t: ", "]\nA a = 1\n}"},
	{"map key", "data A {\nB<", "> b = 1\n}"},
	{"after data", "data A {\n}", ""},
	{"import", "import ", "\n"},
	{"package", "package ", "\n"},
}

// Tokens is the alphabet of token spellings.
var Tokens = []string{"A", "int32", "1", "\"s\"", "=", "{", "}", "(", ")", "[", "]", "<", ">", ":", ";", "\n", ",", "?",
	"data", "server", "enum", "import", "package", "@", "//c\n", "/*c*/", "void"}

// Seq returns the x-th of the k^n sequences, joined by blanks.
func Seq(syms []string, n, x int) string {
	k := len(syms)
	t := make([]string, n)
	for i := n - 1; i >= 0; i-- {
		t[i] = syms[x%k]
		x /= k
	}
	return strings.Join(t, " ")
}

// Pow is k^n.
func Pow(k, n int) int {
	r := 1
	for i := 0; i < n; i++ {
		r *= k
	}
	return r
}

// Bases are valid token lists that together use every construct. "\n" tokens matter as ends of statements.
var Bases = [][]string{
	{"package", "go", "=", "\"p\"", "\n", "import", "\"x.hbuf\"", "\n", "[", "t", ":", "k", "=", "\"v\"", ",", "\"w\"", ";", "k2", "=", "\"x\"", "]", "\n",
		"data", "A", ":", "B", "=", "1", ",", "C", "=", "2", "{", "\n", "[", "u", ":", "]", "\n", "int32", "?", "a", "=", "1", "\n", "A", "?", "[", "]", "?", "b", "=", "2", ";",
		"string", "<", "int8", ">", "?", "c", "=", "3", "\n", "}", "\n"},
	{"enum", "E", "{", "\n", "[", "l", ":", "e", "=", "\"v\"", "]", "\n", "X", "=", "0x1", "\n", "y", "=", "2", ";", "z", "=", "3", "}", "\n", "data", "D", "{", "}", "\n"},
	{"server", "S", ":", "T", "=", "1", "{", "\n", "[", "t", ":", "a", "=", "\"b\"", ";", "]", "\n", "A", "f", "(", "B", "b", ")", "=", "1", "\n", "void", "g", "(", "B", "?", "c", ")", "=", "2", "\n", "}", "\n"},
	{"data", "A", "{", "int32", "a", "=", "1", "}", "\n"},
	{"enum", "E", "{", "x", "=", "1", ";", "y", "=", "2", "}"},
	{"server", "S", "{", "A", "f", "(", "B", "b", ")", "=", "1", ";", "}"},
	{"[", "t", ":", "a", "=", "\"x\"", ",", "\"y\"", "]", "\n", "data", "A", ":", "B", "=", "1", "{", "}"},
	{"data", "A", "{", "//d", "\n", "B", "<", "C", ">", "?", "a", "=", "1", "//e", "\n", "//f", "\n", "B", "[", "]", "b", "=", "2", "}", "\n"},
}

// Edits calls f with every single edit (delete, replace, insert, swap neighbours) of toks at positions >= from.
func Edits(toks []string, syms []string, from int, f func(edited []string, pos int) bool) {
	n := len(toks)
	for i := from; i <= n; i++ {
		if i < n {
			d := append(append([]string{}, toks[:i]...), toks[i+1:]...)
			if !f(d, i) {
				return
			}
			for _, s := range syms {
				if s == toks[i] {
					continue
				}
				r := append([]string{}, toks...)
				r[i] = s
				if !f(r, i) {
					return
				}
			}
			if i+1 < n && toks[i] != toks[i+1] {
				w := append([]string{}, toks...)
				w[i], w[i+1] = w[i+1], w[i]
				if !f(w, i) {
					return
				}
			}
		}
		for _, s := range syms {
			r := append(append([]string{}, toks[:i]...), s)
			r = append(r, toks[i:]...)
			if !f(r, i) {
				return
			}
		}
	}
}

// All runs f over every text of the sweep: contexts x token sequences to depth, byte strings, single edits of all bases
// and double edits of the small bases. f(worker, text) is called concurrently; par(n, g) runs g(worker, i) for i<n.
func All(depth, bytesDepth int, pairs int, par func(name string, n int, g func(worker, i int)), f func(worker int, text string)) {
	for n := 0; n <= depth; n++ {
		for _, cx := range Contexts {
			total := Pow(len(Tokens), n)
			const chunk = 512
			cx, n := cx, n
			par("tokens "+cx.Name, (total+chunk-1)/chunk, func(w, ch int) {
				for x := ch * chunk; x < (ch+1)*chunk && x < total; x++ {
					f(w, cx.Pre+Seq(Tokens, n, x)+cx.Post)
				}
			})
		}
	}
	for n := 0; n <= bytesDepth; n++ {
		for _, cx := range Contexts {
			total := Pow(len(Bytes), n)
			const chunk = 512
			cx, n := cx, n
			par("bytes "+cx.Name, (total+chunk-1)/chunk, func(w, ch int) {
				for x := ch * chunk; x < (ch+1)*chunk && x < total; x++ {
					f(w, cx.Pre+strings.ReplaceAll(Seq(Bytes, n, x), " ", "")+cx.Post)
				}
			})
		}
	}
	for _, b := range Bases {
		var one [][]string
		var pos []int
		Edits(b, Tokens, 0, func(e []string, p int) bool { one = append(one, e); pos = append(pos, p); return true })
		two := len(b) <= pairs
		par("edits", len(one), func(w, i int) {
			f(w, strings.Join(one[i], " "))
			if two {
				Edits(one[i], Tokens, pos[i], func(e []string, _ int) bool { f(w, strings.Join(e, " ")); return true })
			}
		})
	}
}

// Bytes is the alphabet of characters with illegal and truncated ones.
var Bytes = []string{"a", "0", "\"", "`", "/", "*", "\\", "\n", "\r", "\x00", "\xff", "\xc3", "\uFEFF", "[", "]", "{", "}", "=", ".", ":", "@", "é", "'", ","}
