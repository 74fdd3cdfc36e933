package main

import (
	"path/filepath"
	"strings"
)

func jobs(thorough bool) []job {
	var out []job
	add := func(j job) { out = append(out, j) }

	// patterns over subsets of a tree
	cand := []string{"in/a.hbuf", "in/ab.hbuf", "in/b.hbuf", "in/axhbuf", "in/a.hbuf.bak", "in/a.txt", "in/sub/c.hbuf", "in/sub/a1.hbuf", "in/dir.hbuf/d.hbuf", "in/deep/er/bb.hbuf", "o.hbuf"}
	pats := []string{"in/*.hbuf", "in/a.hbuf", "in/a*.hbuf", "in/*", "in/*b.hbuf", "in/a", "in/a*", "in/*.h*", "in/b", "in/c.hbuf", "in/sub", "in/dir.hbuf",
		"in/*a*", "in/?.hbuf", "in/a+.hbuf", "in/[ab].hbuf", "in/a.hbuf*", "in/(", "in/sub/*.hbuf", "in/../in/*.hbuf", "in/./a.hbuf", "in/nodir/*.hbuf", "in/sub/../a.hbuf", "in/**.hbuf", "in/a*b*.hbuf", "in/d*", "in", "*.hbuf", "in/*.hbuf/", "in/^a.hbuf", "in/a|b.hbuf", "in/.hbuf", "in/hbuf"}
	for m := 0; m < 1<<uint(len(cand)); m++ {
		if !thorough && m&(1<<10) != 0 && m&(1<<3|1<<4) != 0 {
			continue
		}
		var ns []node
		for i, p := range cand {
			if m&(1<<uint(i)) != 0 {
				n := node{Path: p}
				if !strings.HasSuffix(p, ".hbuf") {
					n.Raw = "this is no schema\n"
				}
				ns = append(ns, n)
			}
		}
		for k, p := range pats {
			if !thorough && k%2 == m%2 && m > 63 {
				continue
			}
			add(job{Space: "patterns", Nodes: ns, In: p})
		}
	}
	// import graphs
	paths := []string{"in/a.hbuf", "in/b.hbuf", "in/sub/c.hbuf", "other/d.hbuf"}
	rel := func(from, to string) string {
		r, _ := filepath.Rel(filepath.Dir(from), to)
		return r
	}
	for e := 0; e < 1<<16; e++ {
		if !thorough && e&0x8421 != 0 && e&0x8421 != 0x8421 && e&0x7bde != 0 {
			continue
		}
		var ns []node
		for i, p := range paths {
			n := node{Path: p}
			for k := range paths {
				if e&(1<<uint(i*4+k)) != 0 {
					n.Imports = append(n.Imports, rel(p, paths[k]))
					n.Uses = append(n.Uses, typ(paths[k]))
				}
			}
			ns = append(ns, n)
		}
		add(job{Space: "graphs", Nodes: ns, In: "in/*.hbuf"})
		add(job{Space: "graphs", Nodes: ns, In: "in/a.hbuf"})
		if e&0x8421 == 0 {
			add(job{Space: "graphs", Nodes: ns, In: "in/sub/*"})
			for k := 1; k < 4; k++ {
				ms := append([]node{}, ns...)
				for i := range ms {
					ms[i].Uses = nil
				}
				ms[0].Uses = []string{typ(paths[k])}
				add(job{Space: "visibility", Nodes: ms, In: "in/a.hbuf"})
			}
		}
	}
	// spellings and missing imports
	sp := []string{"b.hbuf", "./b.hbuf", "../in/b.hbuf", "sub/../b.hbuf", "ROOT/in/b.hbuf", "ROOT/in/../in/b.hbuf", "../r/b.hbuf", "sub/c.hbuf", "sub", "sub/", "notes.txt", "missing.hbuf", "../other/d.hbuf", "ROOT/none.hbuf", "a.hbuf", "../../r/in/b.hbuf", "b", "noext", "..", ".", "b.hbuf/x.hbuf"}
	lists := [][]string{nil}
	for _, x := range sp {
		lists = append(lists, []string{x})
		for _, y := range sp {
			lists = append(lists, []string{x, y})
		}
	}
	bl := [][]string{nil, {"a.hbuf"}, {"../in/a.hbuf"}, {"gone.hbuf"}, {"sub/c.hbuf", "../other/d.hbuf"}}
	cl := [][]string{nil, {"../a.hbuf"}, {"none.hbuf"}, {"../../in/b.hbuf", "../../other/d.hbuf"}}
	for _, l := range lists {
		for bi, b := range bl {
			for ci, k := range cl {
				ns := []node{{Path: "in/a.hbuf", Imports: l}, {Path: "in/b.hbuf", Imports: b}, {Path: "in/sub/c.hbuf", Imports: k}, {Path: "other/d.hbuf"}, {Path: "in/notes.txt"}, {Path: "in/noext"}}
				add(job{Space: "spellings", Nodes: ns, In: "in/a.hbuf"})
				if thorough || ci < 2 && bi < 3 {
					add(job{Space: "spellings", Nodes: ns, In: "in/*.hbuf"})
				}
				if len(l) < 2 || thorough {
					if bi < 3 || thorough {
						for _, in := range []string{"*.hbuf", "a.hbuf", "./a.hbuf", "../in/a.hbuf", "sub/../*.hbuf"} {
							add(job{Space: "relative", Nodes: ns, In: in, Cwd: "in"})
						}
						add(job{Space: "relative", Nodes: ns, In: "../*.hbuf", Cwd: "in/sub"})
						add(job{Space: "relative", Nodes: ns, In: "in/a.hbuf", Cwd: "other/.."})
					}
				}
			}
		}
	}
	// the same base name in several directories
	bases := []string{"in/x.hbuf", "in/s/x.hbuf", "in/t/x.hbuf", "in/X.hbuf"}
	for m := 1; m < 16; m++ {
		for pm := 0; pm < 16; pm++ {
			var ns []node
			pack := map[string]string{}
			for i, p := range bases {
				if m&(1<<uint(i)) == 0 {
					continue
				}
				mark := "M" + strings.ReplaceAll(strings.ReplaceAll(p, "/", "X"), ".", "Y")
				pk := "p"
				if pm&(1<<uint(i)) != 0 {
					pk = "q" + string(rune('0'+i))
				}
				ns = append(ns, node{Path: p, Raw: "package go = \"" + pk + "\"\npackage java = \"p\"\ndata " + mark + " {\n}\n"})
			}
			add(job{Space: "collision", Nodes: ns, In: "in/*.hbuf", Pack: pack})
		}
	}
	return out
}
