// Package probe is the instrumented activity executed by the generated flows.
package probe

import (
	"sync/atomic"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
)

// Capture receives the complete input map of an activity.
type Capture struct{ M map[string]interface{} }

func (c *Capture) ToMap() map[string]interface{}               { return c.M }
func (c *Capture) FromMap(values map[string]interface{}) error { c.M = values; return nil }

var _ data.StructValue = (*Capture)(nil)

type Settings struct {
	Cfg string      `md:"cfg"`
	N   int         `md:"n"`
	Any interface{} `md:"any"`
}

type Input struct {
	A interface{}            `md:"a"`
	B interface{}            `md:"b"`
	C interface{}            `md:"c"`
	D interface{}            `md:"d"`
	E interface{}            `md:"e"`
	T string                 `md:"t"`
	I int                    `md:"i"`
	S string                 `md:"s"`
	F bool                   `md:"f"`
	G float64                `md:"g"`
	M map[string]interface{} `md:"m"`
	L []interface{}          `md:"l"`
}

type Output struct {
	Out string                 `md:"out"`
	N   int                    `md:"n"`
	B   bool                   `md:"b"`
	S   string                 `md:"s"`
	M   map[string]interface{} `md:"m"`
	L   []interface{}          `md:"l"`
	X   interface{}            `md:"x"`
	Nul interface{}            `md:"nul"`
}

func (o *Output) ToMap() map[string]interface{}        { return nil }
func (o *Output) FromMap(map[string]interface{}) error { return nil }

var Md = activity.ToMetadata(&Settings{}, &Input{}, &Output{})

// Hook is set before any flow is loaded.
var Hook func(ctx activity.Context, act *Act) (bool, error)

// LifeHook observes life cycle calls (new, cleanup, reconfigure) of instances.
var LifeHook func(kind string, act *Act, settings map[string]interface{}) error

var ctr int64

// Act is one activity instance: there is one for each task of each loaded flow.
type Act struct {
	UID      int64
	TaskName string
	FlowName string
	Cfg      string
	Set      map[string]interface{}
	Data     atomic.Value // set by the harness
}

func init() { _ = activity.Register(&Act{}, New) }

func New(ctx activity.InitContext) (activity.Activity, error) {
	s := &Settings{}
	if err := metadata.MapToStruct(ctx.Settings(), s, true); err != nil {
		return nil, err
	}
	a := &Act{UID: atomic.AddInt64(&ctr, 1), TaskName: ctx.Name(), FlowName: ctx.HostName(), Cfg: s.Cfg, Set: ctx.Settings()}
	if LifeHook != nil {
		if err := LifeHook("new", a, ctx.Settings()); err != nil {
			return nil, err
		}
	}
	return a, nil
}

func (a *Act) Metadata() *activity.Metadata { return Md }

func (a *Act) Eval(ctx activity.Context) (bool, error) { return Hook(ctx, a) }

// Renew is what reconfigurable probes do.
func (a *Act) Renew(settings map[string]interface{}) error {
	if LifeHook != nil {
		if err := LifeHook("reconfigure", a, settings); err != nil {
			return err
		}
	}
	s := &Settings{}
	if err := metadata.MapToStruct(settings, s, true); err != nil {
		return err
	}
	a.Cfg, a.Set = s.Cfg, settings
	return nil
}

// Dispose is what disposable probes do.
func (a *Act) Dispose() error {
	if LifeHook != nil {
		return LifeHook("cleanup", a, nil)
	}
	return nil
}
