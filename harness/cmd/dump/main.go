// dump writes the corpus schemas (or the output of one) for a look at them: dump DIR
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/corpus"
	"verif/harness/hb"
)

func main() {
	for _, s := range corpus.Sets {
		d := filepath.Join(os.Args[1], s.Name)
		hb.WriteTree(filepath.Join(d, "in"), s.Files)
		for _, t := range hb.Targets {
			r := hb.RunIn(d, "*.hbuf", t, "gen/")
			fmt.Println(s.Name, t, r.Brief())
		}
	}
}
