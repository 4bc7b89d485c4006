// Package vf holds the expression functions used by the generated flows.
package vf

import (
	"errors"
	"fmt"
	"strings"

	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/expression/function"
)

type Cat struct{}

func (*Cat) Name() string             { return "cat" }
func (*Cat) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, true }
func (*Cat) Eval(p ...interface{}) (interface{}, error) {
	s := make([]string, len(p))
	for i, x := range p {
		s[i] = fmt.Sprint(x)
	}
	return strings.Join(s, "+"), nil
}

type Boom struct{}

func (*Boom) Name() string             { return "boom" }
func (*Boom) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, false }
func (*Boom) Eval(p ...interface{}) (interface{}, error) {
	panic(fmt.Sprintf("vfboom:%v", p[0]))
}

type Err struct{}

func (*Err) Name() string             { return "err" }
func (*Err) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, false }
func (*Err) Eval(p ...interface{}) (interface{}, error) {
	return nil, errors.New(fmt.Sprintf("vferr:%v", p[0]))
}

func init() {
	_ = function.Register(&Cat{})
	_ = function.Register(&Boom{})
	_ = function.Register(&Err{})
}
