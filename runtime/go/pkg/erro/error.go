// Package erro: the part of the runtime generated code uses.
package erro

import "errors"

type Error struct{ error }

func NewError(msg string) *Error { return &Error{error: errors.New(msg)} }

func Wrap(err error) *Error { return &Error{error: err} }

func (e *Error) Unwrap() error { return e.error }
