// Package manage: the part of the runtime generated code uses.
package manage

import (
	"context"

	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type Manage struct {
	Servers map[string]any
}

type key struct{}

func With(ctx context.Context, m *Manage) context.Context { return context.WithValue(ctx, key{}, m) }

func GET(ctx context.Context) *Manage {
	m, _ := ctx.Value(key{}).(*Manage)
	if m == nil {
		m = &Manage{}
	}
	return m
}

func (m *Manage) Get(router rpc.ServerClient) any {
	s, ok := m.Servers[router.GetName()]
	if !ok {
		return nil
	}
	return s
}
