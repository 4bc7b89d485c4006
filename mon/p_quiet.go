package main

import (
	"encoding/json"

	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/flow/state"
	fevent "github.com/project-flogo/flow/support/event"
)

// Observers that read all they are given without any synchronisation of their
// own, immediately and later on, for the race detector.

type qRecorder struct{}

func (*qRecorder) Name() string { return "qrecorder" }
func (*qRecorder) Start() error { return nil }
func (*qRecorder) Stop() error  { return nil }

func look(v interface{}) error {
	_, _ = json.Marshal(v)
	go func() { _, _ = json.Marshal(v) }()
	return nil
}

func (*qRecorder) RecordStart(s *state.FlowState) error   { return look(s) }
func (*qRecorder) RecordDone(s *state.FlowState) error    { return look(s) }
func (*qRecorder) RecordSnapshot(s *state.Snapshot) error { return look(s) }
func (*qRecorder) RecordStep(s *state.Step) error         { return look(s) }

type qListener struct{}

func (*qListener) HandleEvent(c *coreevent.Context) error {
	switch t := c.GetEvent().(type) {
	case fevent.FlowEvent:
		_ = look([]interface{}{t.FlowName(), t.FlowID(), t.ParentFlowName(), t.ParentFlowID(), t.FlowStatus(), t.FlowInput(), t.FlowOutput(), t.FlowError(), t.Time()})
	case fevent.TaskEvent:
		_ = look([]interface{}{t.FlowName(), t.FlowID(), t.TaskName(), t.TaskInstanceId(), t.TaskType(), t.ActivityRef(), t.TaskStatus(), t.TaskInput(), t.TaskOutput(), t.TaskError(), t.Time()})
	}
	return nil
}

type qctx struct {
	tags  map[string]interface{}
	ended bool
}

func (c *qctx) TraceObject() interface{} { return c }
func (c *qctx) SetTags(t map[string]interface{}) bool {
	for k, v := range t {
		c.tags[k] = v
	}
	return true
}
func (c *qctx) SetTag(k string, v interface{}) bool { c.tags[k] = v; return true }
func (c *qctx) LogKV(map[string]interface{}) bool   { return true }
func (c *qctx) TraceID() string                     { return "t" }
func (c *qctx) SpanID() string                      { return "s" }

type qtracer struct{}

func (*qtracer) Start() error { return nil }
func (*qtracer) Stop() error  { return nil }
func (*qtracer) Name() string { return "quiet" }
func (*qtracer) Extract(trace.CarrierFormat, interface{}) (trace.TracingContext, error) {
	return nil, nil
}
func (*qtracer) Inject(trace.TracingContext, trace.CarrierFormat, interface{}) error { return nil }
func (*qtracer) StartTrace(cfg trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	c := &qctx{tags: map[string]interface{}{}}
	c.SetTags(cfg.Tags)
	return c, nil
}
func (*qtracer) FinishTrace(c trace.TracingContext, err error) error {
	if v, ok := c.(*qctx); ok && v != nil {
		v.ended = true
		v.tags["err"] = err != nil
	}
	return nil
}

func init() {
	inits["quietobs"] = func() {
		setupEngine([]service.Service{&qRecorder{}}, map[string]interface{}{"stateRecordingMode": "full"})
		_ = coreevent.RegisterListener("quiet", &qListener{}, []string{fevent.FlowEventType, fevent.TaskEventType})
	}
	inits["quiettrace"] = func() {
		inits["quietobs"]()
		_ = trace.RegisterTracer(&qtracer{})
	}
}
