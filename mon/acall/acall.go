// Package acall is an asynchronous activity of its own that calls a flow, and looks at the result afterwards.
package acall

import (
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/activity/subflow"
)

type Act struct {
	*subflow.SubFlowActivity
	Name string
	Post string
}

// Hook is called when an execution of the called flow has ended.
var Hook func(ctx activity.Context, a *Act) (bool, error)

// EvalHook is called before the flow is called.
var EvalHook func(ctx activity.Context, a *Act)

func init() { _ = activity.Register(&Act{SubFlowActivity: &subflow.SubFlowActivity{}}, New) }

func New(ctx activity.InitContext) (activity.Activity, error) {
	a, err := subflow.New(ctx)
	if err != nil {
		return nil, err
	}
	post, _ := ctx.Settings()["post"].(string)
	return &Act{a.(*subflow.SubFlowActivity), ctx.Name(), post}, nil
}

func (a *Act) Eval(ctx activity.Context) (bool, error) {
	EvalHook(ctx, a)
	return a.SubFlowActivity.Eval(ctx)
}

// PostEval implements activity.AsyncActivity.
func (a *Act) PostEval(ctx activity.Context, userData interface{}) (bool, error) {
	return Hook(ctx, a)
}
