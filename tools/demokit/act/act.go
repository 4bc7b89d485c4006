// Package act is the activity used by the demonstration flows.
package act

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
)

type Cap struct{ M map[string]interface{} }

func (c *Cap) ToMap() map[string]interface{}               { return c.M }
func (c *Cap) FromMap(values map[string]interface{}) error { c.M = values; return nil }

var _ data.StructValue = (*Cap)(nil)

type Settings struct {
	S interface{} `md:"s"`
}
type Input struct {
	A interface{} `md:"a"`
	B interface{} `md:"b"`
	C interface{} `md:"c"`
}
type Output struct {
	Out interface{} `md:"out"`
	X   interface{} `md:"x"`
}

func (o *Output) ToMap() map[string]interface{}        { return nil }
func (o *Output) FromMap(map[string]interface{}) error { return nil }

var md = activity.ToMetadata(&Settings{}, &Input{}, &Output{})

// F is called for every execution.
var F func(ctx activity.Context, a *Act, in map[string]interface{}) error

// Life observes new, cleanup and reconfigure calls.
var Life func(kind string, a *Act, s map[string]interface{}) error

type Act struct{ Flow, Task string }

func init() { _ = activity.Register(&Act{}, New) }

func New(ctx activity.InitContext) (activity.Activity, error) {
	a := &Act{ctx.HostName(), ctx.Name()}
	if Life != nil {
		if err := Life("new", a, ctx.Settings()); err != nil {
			return nil, err
		}
	}
	return a, nil
}
func (a *Act) Metadata() *activity.Metadata { return md }
func (a *Act) Eval(ctx activity.Context) (bool, error) {
	c := &Cap{}
	if err := ctx.GetInputObject(c); err != nil {
		return false, err
	}
	if err := F(ctx, a, c.M); err != nil {
		return false, err
	}
	return true, nil
}
func (a *Act) Cleanup() error {
	if Life != nil {
		return Life("cleanup", a, nil)
	}
	return nil
}
func (a *Act) Reconfigure(s map[string]interface{}) error {
	if Life != nil {
		return Life("reconfigure", a, s)
	}
	return nil
}
