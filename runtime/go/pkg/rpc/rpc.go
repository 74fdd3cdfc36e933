// Package rpc: the part of the runtime generated code uses, with a transport that joins client and router in process.
package rpc

import (
	"context"
	"encoding/json"
	"errors"

	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type ServerClient interface {
	GetName() string
	GetId() uint32
}

type Init interface {
	Init(ctx context.Context)
}

type ServerRouter interface {
	GetName() string
	GetId() uint32
	GetInvoke() map[string]*ServerInvoke
	GetServer() Init
}

type Raw []byte

func (m Raw) MarshalJSON() ([]byte, error) {
	if m == nil {
		return []byte("null"), nil
	}
	return m, nil
}

func (m *Raw) UnmarshalJSON(data []byte) error {
	*m = append((*m)[0:0], data...)
	return nil
}

type Result struct {
	Code int    `json:"code"`
	Msg  string `json:"msg"`
	Data Raw    `json:"data"`
}

func (r *Result) Error() string { return r.Msg }

type Client interface {
	Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error)
}

type ClientInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
}

type ServerInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
	Invoke   func(cxt context.Context, data hbuf.Data) (hbuf.Data, error)
	SetInfo  func(cxt context.Context)
}

type tagsKey struct{}

// WithTags lets SetTag record the tags of a call.
func WithTags(ctx context.Context, m map[string][]string) context.Context {
	return context.WithValue(ctx, tagsKey{}, m)
}

func SetTag(ctx context.Context, key string, value ...string) {
	if m, ok := ctx.Value(tagsKey{}).(map[string][]string); ok {
		m[key] = append(m[key], value...)
	}
}

// Loop is a transport: it carries the bytes of a client's request to the routers and the answer back.
type Loop struct {
	Router   map[string]*ServerInvoke
	Paths    []string
	Requests []string
}

// Add registers the routes of a server the way the runtime does.
func (l *Loop) Add(router ServerRouter) error {
	if l.Router == nil {
		l.Router = map[string]*ServerInvoke{}
	}
	for key, value := range router.GetInvoke() {
		p := "/" + router.GetName() + "/" + key
		if _, ok := l.Router[p]; ok {
			return errors.New("two methods share the route " + p)
		}
		l.Router[p] = value
	}
	return nil
}

func (l *Loop) Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error) {
	buf, err := nameInvoke.FormData(param)
	if err != nil {
		return nil, err
	}
	l.Paths = append(l.Paths, name)
	l.Requests = append(l.Requests, string(buf))
	value, ok := l.Router["/"+name]
	if !ok {
		return nil, &Result{Code: 404, Msg: "not found " + name}
	}
	data, err := value.ToData(buf)
	if err != nil {
		return nil, err
	}
	if value.SetInfo != nil {
		value.SetInfo(ctx)
	}
	data, err = value.Invoke(ctx, data)
	if err != nil {
		var r *Result
		if errors.As(err, &r) && r != nil && r.Code != 0 {
			b, e := json.Marshal(r)
			if e != nil {
				return nil, e
			}
			var back Result
			if e := json.Unmarshal(b, &back); e != nil {
				return nil, e
			}
			return nil, &back
		}
		return nil, &Result{Code: -1, Msg: err.Error()}
	}
	var out []byte
	if value.FormData != nil {
		out, err = value.FormData(data)
		if err != nil {
			return nil, err
		}
	}
	if nameInvoke.ToData == nil {
		return nil, nil
	}
	return nameInvoke.ToData(out)
}
