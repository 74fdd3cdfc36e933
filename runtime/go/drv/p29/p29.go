// Package p29 reads JSON as a type and writes it again: for every line {"k": type, "j": JSON} a line {"j": JSON} or {"e": why not}.
package p29

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
)

type line struct {
	K string `json:"k,omitempty"`
	J string `json:"j,omitempty"`
	E string `json:"e,omitempty"`
}

// Main is the driver.
func Main(reg map[string]any) {
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	for {
		var l line
		if err := in.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			panic(err)
		}
		var o line
		o.J, o.E = pass(reg[l.K].(func() any)(), l.J)
		if err := enc.Encode(o); err != nil {
			panic(err)
		}
	}
	if err := out.Flush(); err != nil {
		panic(err)
	}
}

func pass(v any, j string) (out, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("panic: ", r)
		}
	}()
	d := v.(interface {
		ToData() ([]byte, error)
		FormData([]byte) error
	})
	if err := d.FormData([]byte(j)); err != nil {
		return "", err.Error()
	}
	b, err := d.ToData()
	if err != nil {
		return "", err.Error()
	}
	return string(b), ""
}
