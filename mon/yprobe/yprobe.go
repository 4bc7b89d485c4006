// Package yprobe is a probe activity that declares itself to be a reply activity.
package yprobe

import (
	"github.com/project-flogo/core/activity"
	"verifmon/probe"
)

type Act struct{ *probe.Act }

func init() { _ = activity.Register(&Act{}, New) }

func New(ctx activity.InitContext) (activity.Activity, error) {
	a, err := probe.New(ctx)
	if err != nil {
		return nil, err
	}
	return &Act{a.(*probe.Act)}, nil
}

func (a *Act) Metadata() *activity.Metadata { return probe.Md }
func (a *Act) Details() *activity.Details   { return &activity.Details{IsReply: true} }
