package p12

import (
	"bufio"
	"encoding/json"
	"errors"
	"os"
	"strconv"

	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Verdict is what generated Go validation says of a field with a value.
type Verdict struct {
	Key   string `json:"k"`
	Field string `json:"f"`
	Value any    `json:"v"`
	Ok    bool   `json:"ok,omitempty"`
	Code  int64  `json:"c,omitempty"`
	Msg   string `json:"m,omitempty"`
	Bad   string `json:"bad,omitempty"`
}

// Table writes the verdicts of generated Go validation for every boundary value of every field with rules.
func Table(reg map[string]any) {
	var m model
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err != nil {
		panic(err)
	}
	shard, _ := strconv.Atoi(os.Args[3])
	shards, _ := strconv.Atoi(os.Args[4])
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for i, k := range m.Order {
		if i%shards != shard {
			continue
		}
		x := &run{nil, w, m.Data[k], m.Verify[k], m.Whole[k]}
		for _, f := range x.vs {
			t := x.field(f.Field).Type
			reg := false
			for _, r := range f.Rules {
				reg = reg || r.Reg != ""
			}
			vs := x.values(t, f.Rules)
			if t.Kind == 0 && t.Null || t.Kind != 0 && t.Out {
				vs = append(vs, nil)
			}
			for _, v := range vs {
				if s, ok := v.(string); ok && reg && !plain(s) {
					continue // patterns of the languages differ in what a character outside the basic plane is
				}
				if n, ok := v.(int64); ok && t.Ref == "enum" && !has(w.Enums[t.Name], n) {
					continue // no value of the enum elsewhere
				}
				o := val.Obj{}
				if v != nil {
					o[f.Field] = v
				}
				p := w.New(k)
				d := Verdict{Key: k, Field: f.Field, Value: w.Tagged(t, v)}
				if err := w.Fill(x.d, p, o); err != nil {
					d.Bad = err.Error()
				} else if err, bad := x.call(p, "Verify"+x.field(f.Field).Hump); bad != "" {
					d.Bad = bad
				} else if err == nil {
					d.Ok = true
				} else {
					var q *rpc.Result
					if errors.As(err, &q) {
						d.Code, d.Msg = int64(q.Code), q.Msg
					} else {
						d.Bad = err.Error()
					}
				}
				if err := enc.Encode(d); err != nil {
					panic(err)
				}
			}
		}
	}
	if err := out.Flush(); err != nil {
		panic(err)
	}
}

func plain(s string) bool {
	for _, r := range s {
		if r > 0xFFFF {
			return false
		}
	}
	return true
}

func has(ns []int64, n int64) bool {
	for _, x := range ns {
		if x == n {
			return true
		}
	}
	return false
}
