// Package db: the part of the runtime generated code uses. Statements are built exactly as the published runtime builds
// them; they go to the database in the context.
package db

import (
	"context"
	"database/sql"
	"fmt"
	"strings"
)

// Database is what a context carries.
type Database struct {
	DB     *sql.DB
	Prefix string
}

type key struct{}

func With(ctx context.Context, d *Database) context.Context { return context.WithValue(ctx, key{}, d) }

func GET(ctx context.Context) *Database {
	d, _ := ctx.Value(key{}).(*Database)
	return d
}

// Table returns the name of a table in the database.
func (d *Database) Table(name string) string { return d.Prefix + name }

type Sql struct {
	text   strings.Builder
	params []any
	del    string
}

func NewSql() *Sql { return &Sql{params: []any{}} }

func (s *Sql) T(query string) *Sql {
	s.text.WriteString(s.removeStart(strings.Trim(strings.Trim(query, " "), "\t")))
	s.text.WriteString(" ")
	return s
}

func (s *Sql) V(a any) *Sql {
	s.text.WriteString("? ")
	s.params = append(s.params, a)
	return s
}

func (s *Sql) P(args ...any) { s.params = append(s.params, args...) }

func (s *Sql) L(question string, args ...any) *Sql {
	for i := range args {
		if 0 != i {
			s.text.WriteString(s.removeStart(question))
		}
		s.text.WriteString("? ")
	}
	s.params = append(s.params, args...)
	return s
}

func (s *Sql) removeStart(question string) string {
	if len(s.del) > 0 {
		if 0 == strings.Index(question, s.del) {
			question = question[len(s.del):]
		}
		s.del = ""
	}
	return question
}

func (s *Sql) Del(text string) { s.del = text }

// ToText identifies the statement with its parameters.
func (s *Sql) ToText() string {
	var b strings.Builder
	b.WriteString(s.text.String())
	for _, p := range s.params {
		v, err := plain(p)
		if err != nil {
			fmt.Fprintf(&b, "|%v", err)
		}
		fmt.Fprintf(&b, "|%T:%v", v, v)
	}
	return b.String()
}

func (s *Sql) Query(ctx context.Context, scan func(*sql.Rows) (bool, error)) (int64, error) {
	result, err := GET(ctx).DB.QueryContext(ctx, s.text.String(), s.params...)
	if err != nil {
		return 0, err
	}
	defer result.Close()
	var count int64
	isScan := true
	for result.Next() {
		count++
		if isScan {
			isScan, err = scan(result)
			if err != nil {
				return 0, err
			}
		}
	}
	if err := result.Err(); err != nil {
		return 0, err
	}
	return count, nil
}

func (s *Sql) Exec(ctx context.Context) (int64, int64, error) {
	result, err := GET(ctx).DB.ExecContext(ctx, s.text.String(), s.params...)
	if err != nil {
		return 0, 0, err
	}
	count, err := result.RowsAffected()
	if err != nil {
		return 0, 0, err
	}
	id, err := result.LastInsertId()
	if err != nil {
		return 0, 0, err
	}
	return count, id, nil
}
