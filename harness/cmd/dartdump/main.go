// Command dartdump checks the Dart files below a directory.
package main

import (
	"fmt"
	"os"
	"strings"

	"verif/harness/dart"
	"verif/harness/hb"
)

func main() {
	files := map[string]string{}
	for n, t := range hb.ReadTree(os.Args[1]) {
		if strings.HasSuffix(n, ".dart") {
			files[n] = t
		}
	}
	_, ps := dart.Load(files)
	for _, p := range ps {
		fmt.Println(p)
	}
}
