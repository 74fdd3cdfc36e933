// Package p18 notes the routes of generated clients and routers.
package p18

import (
	"context"
	"errors"
	"reflect"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Server makes the generated client and router of a server.
type Server struct {
	Client func(c rpc.Client) any
	Router func() rpc.ServerRouter
}

type note struct{ path string }

func (n *note) Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *rpc.ClientInvoke, id int64, idInvoke *rpc.ClientInvoke) (hbuf.Data, error) {
	n.path = name
	return nil, errors.New("noted")
}

func Main(reg map[string]any) {
	var m struct{ Servers []string }
	r := rep.Start(&m)
	for i, k := range m.Servers {
		if !r.Mine(i) {
			continue
		}
		r.State("go " + k)
		s := reg[k].(Server)
		n := &note{}
		c := s.Client(n)
		prefix := c.(interface{ GetName() string }).GetName() + "/"
		v := reflect.ValueOf(c)
		for j := 0; j < v.NumMethod(); j++ {
			t := v.Type().Method(j)
			if t.Type.NumIn() != 3 {
				continue
			}
			n.path = ""
			v.Method(j).Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.New(t.Type.In(2).Elem())})
			r.Step(1)
			route := strings.TrimPrefix(n.path, prefix)
			if route == n.path {
				route = "without the name of the server: " + n.path
			}
			r.Fact("go client", k, t.Name, route)
		}
		ro := s.Router()
		if ro.GetName()+"/" != prefix {
			r.Fact("go router", k, "?", "under "+ro.GetName()+" instead of "+prefix)
		}
		for p := range ro.GetInvoke() {
			r.Step(1)
			r.Fact("go router", k, "?", p)
		}
	}
	r.End()
}
