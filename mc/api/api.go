// Package api is the explorer's view of the library under test: its public
// interface with every call guarded against panics, so that a panic is an
// answer like any other.
package api

import (
	"errors"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/mem-memov/semnet/verifmc/st"
)

// Panic is the error standing for a panic of the library.
type Panic struct {
	Value interface{}
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v", p.Value) }

// Endless is the error standing for an operation that does not end.
type Endless struct{ Calls int }

func (e *Endless) Error() string {
	return fmt.Sprintf("does not end: %d storage accesses in one call", e.Calls)
}

// Died is the error standing for the simulated death of the process.
var Died = errors.New("simulated process death")

var errNil = errors.New("no error, but no remark either")

// Unexpected tells whether an error is a panic or an endless operation.
func Unexpected(err error) bool {
	switch err.(type) {
	case *Panic, *Endless:
		return true
	}
	return err == errNil
}

func guard(err *error) {
	if v := recover(); v != nil {
		switch v := v.(type) {
		case st.Crash:
			*err = Died
		case st.Runaway:
			*err = &Endless{v.Calls}
		default:
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
			if len(stack) > 1200 {
				stack = stack[:1200]
			}
			*err = &Panic{v, stack}
		}
	}
}

// Remark is a remark handle.
type Remark interface {
	ID() uint
	Text() (string, string, error)
	HasNextRemark() (bool, error)
	NextRemark() (Remark, error)
	HasNextFact() (bool, error)
	NextFact() (Remark, error)
	FirstFact() (Remark, error)
	HasNextStory() (bool, error)
	NextStory() (Remark, error)
	AddRemark(property string) (Remark, error)
	AddFact(object, property string) (Remark, error)
	CreateChild(object, property string) (Remark, error)
}

// Graph is an opened graph.
type Graph interface {
	CreateStory(object, property string) (Remark, error)
	GetRemark(id uint) (Remark, error)
	Render(r Remark) (string, error)
}
