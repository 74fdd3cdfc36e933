package db

import (
	"database/sql/driver"
	"reflect"
)

// plain resolves pointers and valuers the way database/sql does.
func plain(p any) (any, error) {
	for {
		if p == nil {
			return nil, nil
		}
		rv := reflect.ValueOf(p)
		if rv.Kind() == reflect.Ptr && rv.IsNil() {
			return nil, nil
		}
		if v, ok := p.(driver.Valuer); ok {
			return v.Value()
		}
		if rv.Kind() == reflect.Ptr {
			p = rv.Elem().Interface()
			continue
		}
		return p, nil
	}
}

// Plain resolves a parameter to the value the database gets.
func Plain(p any) (any, error) { return plain(p) }
