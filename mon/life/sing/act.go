// Package sing is a probe activity without a factory: one instance serves all flows.
package sing

import (
	"strings"

	"github.com/project-flogo/core/activity"
	"verifmon/probe"
)

type Act struct{}

var shared = &probe.Act{TaskName: "singleton", FlowName: "singleton"}

func init() { _ = activity.Register(&Act{}) }

func (a *Act) Metadata() *activity.Metadata { return probe.Md }
func (a *Act) Cleanup() error               { return shared.Dispose() }
func (a *Act) Eval(ctx activity.Context) (bool, error) {
	return probe.Hook(ctx, &probe.Act{TaskName: ctx.Name(), FlowName: ctx.ActivityHost().Name(), Cfg: `{"id":"` + strings.TrimPrefix(ctx.Name(), "N ") + `","scripts":{"":[{"k":"ok","n":1,"l":3}]}}`})
}
