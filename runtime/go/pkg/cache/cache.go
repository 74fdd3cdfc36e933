// Package cache: the part of the runtime generated code uses, over a store in the context. The store follows the
// published runtime: keys belong to a table, DbDel takes the table's lock and drops its keys, DbSet stores only when it
// gets the lock, DbUnlock gives the lock back.
package cache

import (
	"context"
	"encoding/json"
	"runtime"
	"strconv"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
)

// Store is the cache of a context. Fail decides which step fails (nil: none).
type Store struct {
	Data  map[string]map[string]string
	Locks map[string]map[*Session]int
	Fail  func(op, table string) error
	Log   []string
}

// Session is one user of a cache; locks belong to it.
type Session struct {
	*Store
	times []time.Duration
}

// Kept is how long the session asked values to be kept.
func Kept(ctx context.Context) []time.Duration { return store(ctx).times }

func NewStore() *Store {
	return &Store{Data: map[string]map[string]string{}, Locks: map[string]map[*Session]int{}}
}

// Clone copies the values.
func (s *Store) Clone() *Store {
	n := NewStore()
	for t, m := range s.Data {
		n.Data[t] = map[string]string{}
		for k, v := range m {
			n.Data[t][k] = v
		}
	}
	return n
}

// Held lists the tables with locks.
func (s *Store) Held() (out []string) {
	for t, m := range s.Locks {
		for _, n := range m {
			if n > 0 {
				out = append(out, t)
			}
		}
	}
	return
}

type key struct{}

// With starts a session.
func With(ctx context.Context, s *Store) context.Context {
	return context.WithValue(ctx, key{}, &Session{Store: s})
}

func store(ctx context.Context) *Session {
	s, _ := ctx.Value(key{}).(*Session)
	return s
}

func (s *Session) op(op, table string) error {
	s.Log = append(s.Log, op+" "+table)
	if s.Fail != nil {
		return s.Fail(op, table)
	}
	return nil
}

func (s *Session) locked(table string) bool {
	for _, n := range s.Locks[table] {
		if n > 0 {
			return true
		}
	}
	return false
}

func (s *Session) lock(table string) {
	if s.Locks[table] == nil {
		s.Locks[table] = map[*Session]int{}
	}
	s.Locks[table][s]++
}

func createDbKey(dbName string, sql *db.Sql) string {
	pc, _, line, _ := runtime.Caller(2)
	f := runtime.FuncForPC(pc)
	return f.Name() + ":" + strconv.Itoa(line) + sql.ToText()
}

func DbGet[T any](ctx context.Context, key, dbName string, sql *db.Sql, value *T) (*T, string, error) {
	if 0 == len(key) {
		key = createDbKey(dbName, sql)
	}
	s := store(ctx)
	if err := s.op("get", dbName); err != nil {
		return nil, "", err
	}
	v, ok := s.Data[dbName][key]
	if !ok {
		return nil, key, nil
	}
	if err := json.Unmarshal([]byte(v), value); err != nil {
		return nil, "", err
	}
	return value, key, nil
}

func DbSet(ctx context.Context, key, dbName string, sql *db.Sql, value any, duration time.Duration) (string, error) {
	s := store(ctx)
	if err := s.op("set", dbName); err != nil {
		return key, err
	}
	if s.locked(dbName) {
		return "", nil
	}
	if 0 == len(key) {
		key = createDbKey(dbName, sql)
	}
	s.lock(dbName)
	s.times = append(s.times, duration)
	b, err := json.Marshal(value)
	if err != nil {
		return key, err
	}
	if err := s.op("store", dbName); err != nil {
		return key, err
	}
	if s.Data[dbName] == nil {
		s.Data[dbName] = map[string]string{}
	}
	s.Data[dbName][key] = string(b)
	return key, nil
}

func DbDel(ctx context.Context, dbName string) error {
	s := store(ctx)
	if err := s.op("del", dbName); err != nil {
		return err
	}
	s.lock(dbName)
	delete(s.Data, dbName)
	return nil
}

func DbUnlock(ctx context.Context, dbName string) error {
	s := store(ctx)
	_ = s.op("unlock", dbName)
	if s.Locks[dbName][s] > 0 {
		s.Locks[dbName][s]--
	}
	return nil
}
