// Package rc is a probe activity that can be reconfigured.
package rc

import (
	"github.com/project-flogo/core/activity"
	"verifmon/probe"
)

type Act struct{ *probe.Act }

func init() { _ = activity.Register(&Act{}, New) }

func New(ctx activity.InitContext) (activity.Activity, error) {
	a, err := probe.New(ctx)
	if err != nil {
		return nil, err
	}
	return &Act{a.(*probe.Act)}, nil
}

func (a *Act) Metadata() *activity.Metadata { return probe.Md }

func (a *Act) Reconfigure(settings map[string]interface{}) error { return a.Act.Renew(settings) }
