// Package p11 drives generated clients, routers, default servers and lookups.
package p11

import (
	"context"
	"errors"
	"fmt"
	"reflect"

	"github.com/wskfjtheqian/hbuf_golang/drv/rep"
	"github.com/wskfjtheqian/hbuf_golang/drv/val"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/manage"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Call is what a recording implementation does with a call.
type Call func(method string, ctx context.Context, req hbuf.Data) (hbuf.Data, error)

// Server is what the generated package has for a server.
type Server struct {
	New     func(c Call) any
	Client  func(c rpc.Client) any
	Router  func(s any) rpc.ServerRouter
	Get     func(ctx context.Context) any
	Default any
}

type method struct {
	Name, Hump    string
	Param, Result string // keys of data types; no result when empty
	Tags          map[string][]string
	Bind          *bind
}

type bind struct {
	Server string // key
	Method string
	Part   string // embedded part of the request, none when empty
	Result string // embedded part of the result
	PartT  string // data keys of the bound method
	ResT   string
	Need   string // nullable field of the request that its validation needs
}

type server struct {
	Key, Unit, Group, Name string
	Methods                []method
}

type model struct {
	Order   []string
	Data    map[string]*val.D
	Enums   map[string][]int64
	Servers []*server
}

type call struct {
	Server, Method string
	Req            hbuf.Data
	Tags           map[string][]string
}

// world is a running set of servers.
type world struct {
	r     *rep.R
	w     *val.World
	m     *model
	calls []call
	// what implementations answer
	result hbuf.Data
	err    error
	loop   *rpc.Loop
	impl   map[string]any
	tags   map[string][]string
	byKey  map[string]*server
}

type ctxKey struct{}

func (x *world) record(s *server) Call {
	return func(m string, ctx context.Context, req hbuf.Data) (hbuf.Data, error) {
		if ctx == nil || ctx.Value(ctxKey{}) != x {
			x.calls = append(x.calls, call{s.Key, "lost context", req, nil})
		}
		x.calls = append(x.calls, call{s.Key, m, req, nil})
		if x.err != nil {
			return nil, x.err
		}
		return x.result, nil
	}
}

func (x *world) ctx() context.Context {
	x.tags = map[string][]string{}
	return rpc.WithTags(context.WithValue(context.Background(), ctxKey{}, x), x.tags)
}

func Main(reg map[string]any) {
	m := &model{}
	r := rep.Start(m)
	w := &val.World{Data: m.Data, Enums: m.Enums, Reg: reg, Bytes: true}
	units := map[string]*world{}
	for _, s := range m.Servers {
		x := units[s.Unit]
		if x == nil {
			x = &world{r: r, w: w, m: m, loop: &rpc.Loop{}, impl: map[string]any{}, byKey: map[string]*server{}}
			units[s.Unit] = x
		}
		x.byKey[s.Key] = s
		g := reg["S:"+s.Key].(Server)
		x.impl[s.Key] = g.New(x.record(s))
		if err := x.loop.Add(g.Router(x.impl[s.Key])); err != nil {
			r.Violate(s.Group, "%s: %v", s.Key, err)
		}
	}
	for i, s := range m.Servers {
		if !r.Mine(i) || r.Full() {
			continue
		}
		r.State(s.Key)
		what := func() (t string) {
			defer func() {
				if e := recover(); e != nil {
					t = fmt.Sprintf("crash: %v", e)
				}
			}()
			return units[s.Unit].server(s, reg["S:"+s.Key].(Server))
		}()
		if what != "" {
			r.Violate(s.Group, "%s: %s", s.Key, what)
		}
	}
	r.End()
}

// reqs are request values of a data type.
func (x *world) reqs(key string, n int) (out []val.Obj) {
	d := x.m.Data[key]
	out = append(out, val.Obj{})
	all := val.Obj{}
	for _, f := range d.Fields {
		vs := x.w.Values(f.Type, 1)
		for i, v := range vs {
			if i < n {
				out = append(out, val.Obj{f.Name: v})
			}
		}
		all[f.Name] = vs[len(vs)-1]
	}
	return append(out, all)
}

func (x *world) make(key string, o val.Obj) (hbuf.Data, error) {
	v := x.w.New(key)
	d, ok := v.(hbuf.Data)
	if !ok {
		return nil, fmt.Errorf("%s is no hbuf.Data", key)
	}
	return d, x.w.Fill(x.m.Data[key], v, o)
}

type step struct {
	m    *method
	req  val.Obj
	res  val.Obj
	fail error
}

var errPlain = errors.New("it failed \"badly\" <&>")

func outcomes(x *world, m *method, n int) (out []step) {
	for _, e := range []error{errPlain, &rpc.Result{Code: 7, Msg: "seven"}, fmt.Errorf("wrapped: %w", &rpc.Result{Code: -3, Msg: "inner"})} {
		out = append(out, step{m: m, fail: e})
	}
	if m.Result == "" {
		return append(out, step{m: m})
	}
	for _, o := range x.reqs(m.Result, n) {
		out = append(out, step{m: m, res: o})
	}
	return
}

// invoke calls a method of a client, default server or implementation.
func (x *world) invoke(on any, s *step, ctx context.Context) (res reflect.Value, err error, bad string) {
	req, e := x.make(s.m.Param, s.req)
	if e != nil {
		return res, nil, e.Error()
	}
	f := reflect.ValueOf(on).MethodByName(s.m.Hump)
	if !f.IsValid() {
		return res, nil, fmt.Sprintf("%T has no method %s", on, s.m.Hump)
	}
	t := f.Type()
	errT := reflect.TypeOf((*error)(nil)).Elem()
	n := 1
	if s.m.Result != "" {
		n = 2
	}
	if t.NumIn() != 2 || t.In(1) != reflect.TypeOf(req) || t.NumOut() != n || t.Out(n-1) != errT || n == 2 && t.Out(0) != reflect.TypeOf(x.w.New(s.m.Result)) {
		return res, nil, fmt.Sprintf("%T.%s is %v", on, s.m.Hump, t)
	}
	o := f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(req)})
	if n == 2 {
		res = o[0]
	}
	err, _ = o[n-1].Interface().(error)
	return res, err, ""
}

func (x *world) prepare(s *step) string {
	x.calls, x.err, x.result = nil, s.fail, nil
	if s.fail == nil && s.m.Result != "" {
		r, err := x.make(s.m.Result, s.res)
		if err != nil {
			return err.Error()
		}
		x.result = r
	}
	return ""
}

// check performs a step on a client and judges everything about it.
func (x *world) check(sv *server, client any, s *step) string {
	if t := x.prepare(s); t != "" {
		return t
	}
	x.r.Step(1)
	res, err, bad := x.invoke(client, s, x.ctx())
	if bad != "" {
		return bad
	}
	at := fmt.Sprintf("%s(%s)", s.m.Name, val.Text(s.req))
	if t := x.once(at, sv.Key, s.m.Name, s.m.Param, s.req, err); t != "" {
		return t
	}
	if t := x.answer(at, s, res, err); t != "" {
		return t
	}
	if len(x.tags) != len(s.m.Tags) {
		return fmt.Sprintf("%s sets the tags %v, declared %v", at, x.tags, s.m.Tags)
	}
	for k, v := range s.m.Tags {
		if fmt.Sprint(x.tags[k]) != fmt.Sprint(v) {
			return fmt.Sprintf("%s sets the tags %v, declared %v", at, x.tags, s.m.Tags)
		}
	}
	return ""
}

func (x *world) once(at, key, name, param string, req val.Obj, err error) string {
	if len(x.calls) != 1 {
		return fmt.Sprintf("%s reaches %d implementations %s, returns %v", at, len(x.calls), names(x.calls), err)
	}
	c := x.calls[0]
	if c.Server != key || c.Method != name {
		return fmt.Sprintf("%s reaches %s.%s", at, c.Server, c.Method)
	}
	if reflect.TypeOf(c.Req) != reflect.TypeOf(x.w.New(param)) {
		return fmt.Sprintf("%s arrives with a request of type %T", at, c.Req)
	}
	if e := x.w.Same(x.m.Data[param], c.Req, req); e != nil {
		return fmt.Sprintf("%s arrives with another request: %v", at, e)
	}
	return ""
}

func (x *world) answer(at string, s *step, res reflect.Value, err error) string {
	if s.fail != nil {
		if err == nil {
			return fmt.Sprintf("%s loses the error %v", at, s.fail)
		}
		want := s.fail.Error()
		var r *rpc.Result
		code := -1
		if errors.As(s.fail, &r) {
			want, code = r.Msg, r.Code
		}
		var got *rpc.Result
		if err.Error() != want || !errors.As(err, &got) || got.Code != code {
			return fmt.Sprintf("%s fails with %q, the implementation with %q", at, err.Error(), want)
		}
		if s.m.Result != "" && !res.IsNil() {
			return fmt.Sprintf("%s fails and has a result", at)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s fails: %v", at, err)
	}
	if s.m.Result == "" {
		return ""
	}
	if res.IsNil() {
		return fmt.Sprintf("%s has no result", at)
	}
	if e := x.w.Same(x.m.Data[s.m.Result], res.Interface(), s.res); e != nil {
		return fmt.Sprintf("%s returns another result: %v", at, e)
	}
	return ""
}

func names(cs []call) (o []string) {
	for _, c := range cs {
		o = append(o, c.Server+"."+c.Method)
	}
	return
}

func (x *world) server(s *server, g Server) string {
	n, depth := 2, 2
	if x.r.Tier == "thorough" {
		n, depth = 6, 3
	}
	client := g.Client(x.loop)
	// every request and every outcome of every method
	var alphabet []step
	for i := range s.Methods {
		m := &s.Methods[i]
		os := outcomes(x, m, n)
		for _, q := range x.reqs(m.Param, n) {
			for _, o := range os {
				o.req = q
				if t := x.check(s, client, &o); t != "" {
					return t
				}
				x.r.Trace(1)
			}
		}
		qs := x.reqs(m.Param, 1)
		a, b := os[0], os[len(os)-1]
		a.req, b.req = qs[len(qs)-1], qs[len(qs)-1]
		alphabet = append(alphabet, a, b)
		if len(alphabet) >= 24 {
			break
		}
	}
	// every sequence of calls
	var rec func(seq []int) string
	rec = func(seq []int) string {
		if len(seq) > 0 {
			if t := x.check(s, client, &alphabet[seq[len(seq)-1]]); t != "" {
				return fmt.Sprintf("after %d calls: %s", len(seq)-1, t)
			}
		}
		if len(seq) == depth {
			x.r.Trace(1)
			return ""
		}
		for i := range alphabet {
			// the prefix is replayed on a fresh client
			client = g.Client(x.loop)
			for _, j := range seq {
				if t := x.check(s, client, &alphabet[j]); t != "" {
					return t
				}
			}
			if t := rec(append(append([]int{}, seq...), i)); t != "" {
				return t
			}
		}
		return ""
	}
	if t := rec(nil); t != "" {
		return t
	}
	return x.missing(s, g)
}

// missing: nobody implements the server.
func (x *world) missing(s *server, g Server) string {
	key := func(m *manage.Manage) context.Context { return manage.With(x.ctx(), m) }
	if v := g.Get(key(&manage.Manage{Servers: map[string]any{s.Name: x.impl[s.Key]}})); v != x.impl[s.Key] {
		return fmt.Sprintf("the lookup of a registered server returns %T", v)
	}
	others := map[string]any{}
	for _, o := range x.m.Servers {
		if o.Unit == s.Unit && o.Key != s.Key {
			others[o.Name] = x.impl[o.Key]
		}
	}
	empty := g.Client(&rpc.Loop{})
	// a transport to everything but this server
	loop := &rpc.Loop{}
	for _, o := range x.m.Servers {
		if o.Unit == s.Unit && o.Key != s.Key {
			if err := loop.Add(x.w.Reg["S:"+o.Key].(Server).Router(x.impl[o.Key])); err != nil {
				return err.Error()
			}
		}
	}
	far := g.Client(loop)
	def := &rpc.Loop{}
	if err := def.Add(g.Router(g.Default)); err != nil {
		return err.Error()
	}
	viaDefault := g.Client(def)
	for i := range s.Methods {
		m := &s.Methods[i]
		st := &step{m: m, req: val.Obj{}}
		targets := map[string]any{"a client without routers": empty, "a client that reaches the other servers only": far}
		if m.Bind == nil {
			targets["the lookup of an unregistered server"] = g.Get(key(&manage.Manage{}))
			targets["the lookup among other servers"] = g.Get(key(&manage.Manage{Servers: others}))
			targets["the lookup of something else registered under its name"] = g.Get(key(&manage.Manage{Servers: map[string]any{s.Name: struct{}{}}}))
			targets["the default server"] = g.Default
			targets["a client of the default server"] = viaDefault
		}
		for name, on := range targets {
			if on == nil {
				return name + " returns nothing"
			}
			x.calls, x.err, x.result = nil, nil, nil
			x.r.Step(1)
			res, err, bad := x.invoke(on, st, x.ctx())
			if bad != "" {
				return bad
			}
			if err == nil || len(x.calls) != 0 {
				return fmt.Sprintf("%s called through %s returns %v and reaches %v", m.Name, name, err, names(x.calls))
			}
			if m.Result != "" && !res.IsNil() {
				return fmt.Sprintf("%s called through %s fails and has a result", m.Name, name)
			}
		}
		if m.Bind != nil {
			if t := x.bound(s, g, m, viaDefault); t != "" {
				return fmt.Sprintf("%s, bound to %s of %s: %s", m.Name, m.Bind.Method, m.Bind.Server, t)
			}
		}
	}
	return ""
}

// bound: the default server forwards to the bound method.
func (x *world) bound(s *server, g Server, m *method, viaDefault any) string {
	b := m.Bind
	all := map[string]any{}
	for _, o := range x.m.Servers {
		if o.Unit == s.Unit && o.Key != s.Key {
			all[o.Name] = x.impl[o.Key]
		}
	}
	for _, q := range x.reqs(m.Param, 3) {
		part := val.Obj{}
		for _, f := range x.m.Data[b.PartT].Fields {
			if v, ok := q[f.Name]; ok {
				part[f.Name] = v
			}
		}
		for oi, on := range []any{g.Default, viaDefault} {
			inner := method{Name: b.Method, Param: b.PartT, Result: b.ResT}
			for _, o := range outcomes(x, &inner, 2) {
				if t := x.prepare(&o); t != "" {
					return t
				}
				st := step{m: m, req: q, fail: o.fail, res: o.res}
				at := fmt.Sprintf("%s(%s)", m.Name, val.Text(q))
				x.r.Step(1)
				res, err, bad := x.invoke(on, &st, manage.With(x.ctx(), &manage.Manage{Servers: all}))
				if bad != "" {
					return bad
				}
				x.r.Trace(1)
				if b.Need != "" {
					if _, ok := q[b.Need]; !ok {
						if err == nil || len(x.calls) != 0 {
							return fmt.Sprintf("%s is forwarded although it is not valid", at)
						}
						continue
					}
				}
				if t := x.once(at, b.Server, b.Method, b.PartT, part, err); t != "" {
					return t
				}
				if oi == 0 && o.fail != nil {
					if err == nil || !errors.Is(err, o.fail) {
						return fmt.Sprintf("%s returns %v, not the error of the bound method", at, err)
					}
					continue
				}
				if t := x.answer(at, &st, res, err); t != "" {
					return t
				}
			}
			// and nobody there
			x.calls, x.err, x.result = nil, nil, nil
			_, err, bad := x.invoke(on, &step{m: m, req: q}, x.ctx())
			if bad != "" {
				return bad
			}
			if err == nil || len(x.calls) != 0 {
				return fmt.Sprintf("without the bound server it returns %v and reaches %v", err, names(x.calls))
			}
		}
	}
	return ""
}
