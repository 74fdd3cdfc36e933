package main

import (
	"strings"

	"verif/harness/hb"
)

const base = `package go = "PK/p"
package java = "com.p"
[ui: label="x"]
[db: name="t"; table="t"; get="true"; list="true"; insert="true"]
[DTAG]
data DNAME {
    [FTAG]
    FTYPE FNAME = 1
    [db: key="true"]
    int64 id = 2
    string? s = 3
}

[ETAG]
enum ENAME {
    [ITAG]
    INAME = 0
    OK = 1
}

data Sub : DNAME = 1 {
    DNAME? d = 1
    ENAME e = 2
    DNAME[] l = 3
    ENAME<string> m = 4
}

[STAG]
server SNAME {
    [MTAG]
    DNAME MNAME(Sub PNAME) = 1
    void other(Sub req) = 2
}

server SubS : SNAME = 1 {
}
`

var names = []string{"a", "A", "_", "_a", "a_", "a__b", "__", "é", "aB", "AB", "A1", "a_1", "x_Y_z", "Ünï", "type", "func", "class", "日本", "_1"}

var tagValues = []string{"", "x", "true", "false", "a.b", "E.", ".E", ".", "E.OK", "E", "S", "D", "OK", "S.", "S.go", "E.OK.x", "?", "${", "${}", "${x}", "${id}", "$", "0", "-1", "1.5", "99999999999999999999", "abc,def", "*", "(", "[a-z", "id = ?", "self", "parent", "string", "int32", "list", "\\\"", "%s", "a b", "日"}

var tagKeys = map[string][]string{
	"bind":   {"value", "x"},
	"verify": {"format", "x"},
	"format": {"null", "reg", "min", "max"},
	"cache":  {"min", "max", "x"},
	"tag":    {"a", "a_b"},
	"lang":   {"en", "zh_CN", "_", "a_", "a__b", "EN"},
	"ui":     {"clip", "digit", "extensions", "form", "format", "height", "index", "maxCount", "maxLine", "onlyRead", "table", "toNull", "unlink", "width"},
	"db":     {"name", "schema", "converter", "order", "key", "typ", "where", "offset", "limit", "insert", "inserts", "update", "group", "del", "get", "list", "map", "table", "set", "count", "force", "rm", "fake"},
	"db1":    {"where", "list", "x"},
	"dbx":    {"name"},
}

func genCases(thorough bool) []gcase {
	holes := []string{"DNAME", "FNAME", "ENAME", "INAME", "SNAME", "MNAME", "PNAME"}
	def := map[string]string{"DNAME": "D", "FNAME": "f", "ENAME": "E", "INAME": "Go", "SNAME": "S", "MNAME": "go", "PNAME": "req", "FTYPE": "string"}
	fill := func(m map[string]string, tags map[string]string) gcase {
		t := base
		for _, h := range []string{"DTAG", "FTAG", "ETAG", "ITAG", "STAG", "MTAG"} {
			line := "[" + h + "]\n"
			if tags[h] == "" {
				for _, ind := range []string{"    ", ""} {
					t = strings.Replace(t, ind+line, "", 1)
				}
			} else {
				t = strings.Replace(t, line, tags[h]+"\n", 1)
			}
		}
		for k, v := range def {
			if x, ok := m[k]; ok {
				v = x
			}
			t = strings.ReplaceAll(t, k, v)
		}
		return gcase{Files: map[string]string{"a.hbuf": t}, Targets: hb.Targets}
	}
	var out []gcase
	out = append(out, fill(nil, nil))
	for _, h := range holes {
		for _, n := range names {
			out = append(out, fill(map[string]string{h: n}, nil))
		}
	}
	types := []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "decimal", "string", "date", "E", "D"}
	for _, ty := range types {
		for _, sh := range []string{"%", "%?", "%[]", "%?[]", "%[]?", "%?[]?", "%<string>", "%?<int32>", "%<E>?", "%?<date>?"} {
			for _, ft := range []string{"", "[format: min=\"1\"; max=\"2\"; reg=\"a\"]", "[db: where=\"AND x = ?\"]", "[ui: form=\"x\"; table=\"x\"]"} {
				out = append(out, fill(map[string]string{"FTYPE": strings.Replace(sh, "%", ty, 1)}, map[string]string{"FTAG": ft}))
			}
		}
	}
	for _, tn := range []string{"bind", "verify", "format", "cache", "tag", "lang", "ui", "db", "db1", "dbx"} {
		for _, place := range []string{"DTAG", "FTAG", "ETAG", "ITAG", "STAG", "MTAG"} {
			if place == "DTAG" && (tn == "db" || tn == "ui") {
				continue
			}
			out = append(out, fill(nil, map[string]string{place: "[" + tn + ": ]"}))
			for _, k := range tagKeys[tn] {
				for _, v := range tagValues {
					out = append(out, fill(nil, map[string]string{place: "[" + tn + ": " + k + "=\"" + v + "\"]"}))
				}
				out = append(out, fill(nil, map[string]string{place: "[" + tn + ": " + k + "=\"long value\",\"b\",\"\"]"}))
				out = append(out, fill(nil, map[string]string{place: "[" + tn + ": " + k + "=``]"}))
			}
			if thorough {
				ks := tagKeys[tn]
				for i := range ks {
					for j := range ks {
						if i == j {
							continue
						}
						for _, v := range []string{"", "x", "true", "${", "a.b"} {
							for _, w := range []string{"", "id", "false", "${x}"} {
								out = append(out, fill(nil, map[string]string{place: "[" + tn + ": " + ks[i] + "=\"" + v + "\"; " + ks[j] + "=\"" + w + "\"]"}))
							}
						}
					}
				}
			}
		}
	}
	// the db tag of the type itself
	for _, k := range tagKeys["db"] {
		for _, v := range tagValues {
			t := fill(nil, nil)
			s := strings.Replace(t.Files["a.hbuf"], `[db: name="t"; table="t"; get="true"; list="true"; insert="true"]`, `[db: name="t"; insert="true"; `+k+`="`+v+`"]`, 1)
			if k == "name" || k == "insert" {
				s = strings.Replace(t.Files["a.hbuf"], `[db: name="t"; table="t"; get="true"; list="true"; insert="true"]`, `[db: `+k+`="`+v+`"]`, 1)
			}
			out = append(out, gcase{Files: map[string]string{"a.hbuf": s}, Targets: hb.Targets})
		}
	}
	for _, k := range tagKeys["ui"] {
		for _, v := range tagValues {
			t := fill(nil, nil)
			out = append(out, gcase{Files: map[string]string{"a.hbuf": strings.Replace(t.Files["a.hbuf"], `[ui: label="x"]`, `[ui: `+k+`="`+v+`"]`, 1)}, Targets: hb.Targets})
		}
	}
	// package names and file layouts
	for _, p := range append([]string{"", "/", "a/", "/a", "a/b/c", ".", "..", "a.b", "a-b"}, names...) {
		t := fill(nil, nil)
		out = append(out, gcase{Files: map[string]string{"a.hbuf": strings.Replace(t.Files["a.hbuf"], `"PK/p"`, `"`+p+`"`, 1)}, Targets: hb.Targets})
		out = append(out, gcase{Files: map[string]string{"a.hbuf": strings.Replace(t.Files["a.hbuf"], `"com.p"`, `"`+p+`"`, 1)}, Targets: hb.Targets})
	}
	// inheritance from oneself, map keys of odd kinds, empty bodies
	for _, s := range []string{
		"data A : A = 1 {\n}\n", "data A : B = 1 {\n}\ndata B : A = 1 {\n}\n", "server A : A = 1 {\n}\n",
		"server A : B = 1 {\n}\nserver B : C = 1 {\n}\nserver C : A = 1 {\n}\n",
		"data A {\nint32<X> a = 1\n}\n", "data A {\nint32<A> a = 1\n}\n", "data A {\nint32<int32[]> a = 1\n}\n", "data A {\nint32<int32<int8>> a = 1\n}\n",
		"data A {\nint32<string?> a = 1\n}\n", "data A {\nA<A> a = 1\n}\n", "data A {\nvoid a = 1\n}\n", "data A {\nX[] a = 1\n}\n",
		"data A {\n}\n", "enum A {\n}\n", "server A {\n}\n", "", "\n", "package go = \"p\"\n", "import \"a.hbuf\"\n",
		"server S {\nvoid? f(A a) = 1\n}\ndata A {\n}\n", "server S {\nvoid f(void a) = 1\n}\n", "server S {\nint32 f(int32 a) = 1\n}\n", "server S {\nS f(S a) = 1\n}\n",
		"enum E {\na = 1\n}\nserver S {\nE f(E a) = 1\n}\n", "data A : E = 1 {\n}\nenum E {\na = 1\n}\n", "server S : A = 1 {\n}\ndata A {\n}\n",
		"data A : Z = 1 {\n}\n", "server A : Z = 1 {\n}\n", "[t: ; ]\ndata A {}\n",
	} {
		for _, pk := range []string{"", "package go = \"p\"\n"} {
			if strings.HasPrefix(s, "package") && pk != "" {
				continue
			}
			out = append(out, gcase{Files: map[string]string{"a.hbuf": pk + s}, Targets: append([]string{"none"}, hb.Targets...)})
		}
	}
	return out
}
