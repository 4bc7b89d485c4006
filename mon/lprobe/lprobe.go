// Package lprobe is a probe activity that is registered in the deprecated way:
// one instance serves all the tasks and its context gives access to the settings.
package lprobe

import (
	"github.com/project-flogo/core/activity"
	"verifmon/probe"
)

type Act struct{}

func init() { _ = activity.LegacyRegister("verifmon/lprobe", &Act{}) }

func (a *Act) Metadata() *activity.Metadata { return probe.Md }

func (a *Act) Eval(ctx activity.Context) (bool, error) {
	p := &probe.Act{TaskName: ctx.Name(), FlowName: ctx.ActivityHost().Name()}
	l, ok := ctx.(activity.LegacyCtx)
	if !ok {
		p.TaskName = "(no context of an activity of this kind)"
		return probe.Hook(ctx, p)
	}
	if s, ok := l.GetSetting("cfg"); ok {
		p.Cfg, _ = s.(string)
	}
	if _, ok := l.GetSetting("nosuchsetting"); ok {
		p.TaskName = "(has a setting that is not configured)"
	}
	if v := l.GetOutput("nosuchoutput"); v != nil {
		p.TaskName = "(has an output that is not configured)"
	}
	return probe.Hook(ctx, p)
}
