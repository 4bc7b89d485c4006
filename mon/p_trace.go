package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/project-flogo/core/support/trace"
)

// vspan is a span of the recording tracer.
type vspan struct {
	ID     string                 `json:"id"`
	Trace  string                 `json:"trace"`
	Parent string                 `json:"parent,omitempty"`
	Op     string                 `json:"op"`
	Tags   map[string]interface{} `json:"tags"`
	Start  int64                  `json:"start"`
	End    int64                  `json:"end"`
	Ends   int                    `json:"ends"`
	Err    string                 `json:"err,omitempty"`
	HasErr bool                   `json:"hasErr,omitempty"`
}

func (s *vspan) tag(n string) string { x, _ := s.Tags[n].(string); return x }

type vctx struct{ s *vspan }

func (c *vctx) TraceObject() interface{} { return c.s }
func (c *vctx) SetTags(t map[string]interface{}) bool {
	for k, v := range t {
		c.SetTag(k, v)
	}
	return true
}
func (c *vctx) SetTag(k string, v interface{}) bool {
	tr.mu.Lock()
	c.s.Tags[k] = norm(v)
	tr.mu.Unlock()
	return true
}
func (c *vctx) LogKV(kvs map[string]interface{}) bool { return true }
func (c *vctx) TraceID() string                       { return c.s.Trace }
func (c *vctx) SpanID() string                        { return c.s.ID }

type vtracer struct {
	mu    sync.Mutex
	n     int
	spans []*vspan
	bad   []string
	// refuse: every refuse-th span that is not of a main flow cannot be started
	refuse int
}

var tr = &vtracer{}

func (t *vtracer) Start() error { return nil }
func (t *vtracer) Stop() error  { return nil }
func (t *vtracer) Name() string { return "verif" }
func (t *vtracer) Extract(trace.CarrierFormat, interface{}) (trace.TracingContext, error) {
	return nil, nil
}
func (t *vtracer) Inject(trace.TracingContext, trace.CarrierFormat, interface{}) error { return nil }

func (t *vtracer) StartTrace(cfg trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n++
	s := &vspan{ID: fmt.Sprintf("span%d", t.n), Trace: fmt.Sprintf("trace%d", t.n), Op: cfg.Operation, Tags: map[string]interface{}{}, Start: now()}
	for k, v := range cfg.Tags {
		s.Tags[k] = norm(v)
	}
	if t.refuse > 0 && t.n%t.refuse == 0 && (s.tag("task_name") != "" || s.tag("parent_flow_id") != "") {
		return nil, errors.New("span refused")
	}
	if p, ok := parent.(*vctx); ok && p != nil {
		s.Trace, s.Parent = p.s.Trace, p.s.ID
	}
	t.spans = append(t.spans, s)
	return &vctx{s}, nil
}

func (t *vtracer) FinishTrace(c trace.TracingContext, err error) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := c.(*vctx)
	if !ok || v == nil {
		t.bad = append(t.bad, "a span that was not started was finished")
		return nil
	}
	s := v.s
	s.Ends++
	if s.Ends == 1 {
		s.End = now()
		if err != nil {
			s.Err, s.HasErr = err.Error(), true
		}
	}
	if t.n%3 == 0 {
		return errors.New("span could not be reported")
	}
	return nil
}

func (t *vtracer) take(refuse int) ([]*vspan, []string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	s, b := t.spans, t.bad
	t.spans, t.bad, t.refuse = nil, nil, refuse
	return s, b
}

func init() {
	inits["trace"] = func() {
		setupEngine(nil, nil)
		_ = trace.RegisterTracer(tr)
	}
	inits["traceevents"] = func() {
		inits["events"]()
		_ = trace.RegisterTracer(tr)
	}
}

// checkSpans compares the spans with what the run really did.
func checkSpans(c *Case, o *oracle, evs []Ev, spans []*vspan, ctxSpan *vspan) {
	byID := map[string]*vspan{}
	flows := map[string]*vspan{}  // by flow id
	kids := map[string][]*vspan{} // subflow spans by the span of the host task
	var doneT int64
	for _, e := range evs {
		if e.K == "done" {
			doneT = e.T
		}
	}
	if ctxSpan != nil {
		byID[ctxSpan.ID] = ctxSpan
	}
	for _, s := range spans {
		c.stat("spans", 1)
		byID[s.ID] = s
		what := fmt.Sprintf("span %s of flow %s", s.Op, s.tag("flow_id"))
		if s.Ends != 1 {
			c.badf("%s (task %q) was closed %d times", what, s.tag("task_name"), s.Ends)
		}
		if s.tag("task_name") == "" {
			if flows[s.tag("flow_id")] != nil {
				c.badf("%s: the flow has two spans", what)
			}
			flows[s.tag("flow_id")] = s
			if s.Op != s.tag("flow_name") {
				c.badf("%s names flow %q", what, s.tag("flow_name"))
			}
		}
		if runOf(s.tag("flow_id")) == o.root.id && doneT > 0 && s.End > doneT {
			c.badf("%s was closed after the end of the run", what)
		}
	}
	for _, s := range spans {
		what := fmt.Sprintf("span %s of flow %s (task %q)", s.Op, s.tag("flow_id"), s.tag("task_name"))
		p := byID[s.Parent]
		if p == nil && s.Parent != "" {
			c.badf("%s has an unknown parent", what)
			continue
		}
		if p != nil && p != ctxSpan && (p.Start > s.Start || p.End < s.End) {
			c.badf("%s is not enclosed in its parent", what)
		}
		if p != nil && p.Trace != s.Trace {
			c.badf("%s belongs to another trace than its parent", what)
		}
		if s.tag("task_name") != "" {
			if p == nil || p != flows[s.tag("flow_id")] {
				c.badf("%s is not below the span of its flow", what)
			}
			c.stat("taskspans", 1)
			continue
		}
		c.stat("flowspans", 1)
		fi := o.insts[s.tag("flow_id")]
		if strings.Contains(s.tag("flow_id"), "-") {
			if p == nil || p.tag("task_name") == "" || p.tag("flow_id") != s.tag("parent_flow_id") {
				c.badf("%s is not below the span of the calling task", what)
				continue
			}
			kids[p.ID] = append(kids[p.ID], s)
			if fi != nil && (fi.parent == nil || fi.parent.id != p.tag("flow_id") || fi.parent.f.byID[fi.host].Name != p.tag("task_name")) {
				c.badf("%s is below the span of %s/%s", what, p.tag("flow_id"), p.tag("task_name"))
			}
		} else if s.tag("flow_id") == o.root.id {
			if p != ctxSpan {
				c.badf("the span of the main flow has parent %v", p)
			}
		} else if p != nil {
			c.badf("%s: the span of a detached flow has a parent", what)
		}
		if fi == nil {
			continue
		}
		if s.tag("flow_name") != fi.f.Name {
			c.badf("%s names flow %q, expected %q", what, s.tag("flow_name"), fi.f.Name)
		}
		switch {
		case fi.status == 1 && fi.rerr == nil:
			if s.HasErr {
				c.badf("%s has error %q but the flow completed", what, s.Err)
			}
		case fi.status == 2:
			if !s.HasErr || !strings.Contains(s.Err, fi.err.Msg) {
				c.badf("%s has error %q, expected %q", what, s.Err, fi.err.Msg)
			}
		case fi.status == 3 && !o.fuzzy(fi):
			if s.HasErr {
				c.badf("%s has error %q but the flow was abandoned", what, s.Err)
			}
		}
	}
	for id := range o.insts {
		if flows[id] == nil {
			c.badf("flow %s has no span", id)
		}
	}
	// executions of activities
	used := map[string]bool{}
	last := map[string]*Ev{} // last end of a task
	open := map[string]*Ev{}
	type ex struct {
		s, e *Ev
	}
	var exs []ex
	for i := range evs {
		e := &evs[i]
		k := e.Inst + "/" + e.Task
		switch e.K {
		case "start":
			open[k] = e
		case "end":
			if s := open[k]; s != nil {
				exs = append(exs, ex{s, e})
				last[k] = e
				delete(open, k)
			}
		}
	}
	for _, x := range exs {
		k := x.s.Inst + "/" + x.s.Task
		s := byID[x.s.Span]
		if s == nil {
			c.badf("activity of %s executed without a span", k)
			continue
		}
		if used[s.ID] {
			c.badf("two executions of %s have the same span", k)
		}
		used[s.ID] = true
		tid := s.tag("task_instance_id")
		if s.tag("flow_id") != x.s.Inst || s.tag("flow_name") != x.s.Flow || s.tag("task_name") != x.s.Name || s.Op != x.s.Name || tid != x.s.Task && !strings.HasPrefix(tid, x.s.Task+"-") {
			c.badf("activity of %s executed in span %s %s", k, s.Op, js(s.Tags))
		}
		if s.Start > x.s.T || s.End < x.e.T && s.Ends > 0 {
			c.badf("activity of %s executed while its span was not open", k)
		}
		failed := x.e.Err != nil && x.e.O.K != "returnerr"
		msg := ""
		if failed {
			msg = x.e.Err.Msg
		}
		if f := o.flows[x.s.Flow]; f != nil && f.byID[x.s.Task] != nil {
			t := f.byID[x.s.Task]
			failed = failed || violated(t, t.OutSch, x.e.Data) != nil
		}
		if failed != s.HasErr {
			fi := o.insts[x.s.Inst]
			// the condition of a loop may fail the task after the activity succeeded
			after := !failed && last[k] == x.e && fi != nil && fi.f.byID[x.s.Task].Type != "" && fi.ts[x.s.Task] != nil && (fi.ts[x.s.Task].st == sFailed || fi.ts[x.s.Task].silent != nil || o.fuzzy(fi))
			if !after {
				c.badf("span of %s has error %q, the activity ended with %s", k, s.Err, js(x.e.Err))
			}
		} else if failed && !strings.Contains(s.Err, msg) {
			c.badf("span of %s has error %q, the activity failed with %q", k, s.Err, msg)
		}
		c.stat("execspans", 1)
	}
	// spans of tasks whose activity did not run a probe: calls of flows and failed mappings
	for _, s := range spans {
		if s.tag("task_name") == "" || used[s.ID] {
			continue
		}
		what := fmt.Sprintf("span of task %s of flow %s", s.tag("task_name"), s.tag("flow_id"))
		fi := o.insts[s.tag("flow_id")]
		if fi == nil {
			continue
		}
		var t *Task
		for _, x := range fi.f.byID {
			if x.Name == s.tag("task_name") {
				t = x
			}
		}
		switch {
		case t == nil:
			c.badf("%s: no such task", what)
		case t.Sub == "":
			if !s.HasErr {
				c.badf("%s has no error but the activity did not run", what)
			}
			c.stat("mapspans", 1)
		case t.Det:
		default:
			c.stat("callspans", 1)
			if l := kids[s.ID]; len(l) > 1 {
				c.badf("%s encloses %d flow spans", what, len(l))
			} else if len(l) == 0 && !s.HasErr {
				c.badf("%s has no error but the flow was not called", what)
			} else if len(l) == 1 && l[0].HasErr != s.HasErr {
				k := l[0]
				ki := o.insts[k.tag("flow_id")]
				abandoned := ki == nil || fi.status != 1 || fi.hasRet || fi.phase == 1 && !fi.f.isEH[t.ID]
				refused := ki != nil && s.HasErr && violated(t, t.OutSch, ki.result()) != nil && strings.Contains(s.Err, "vschema")
				if s.HasErr && t.Post != nil && strings.Contains(s.Err, "post:") {
					refused = true
				}
				if k.HasErr && !abandoned || !k.HasErr && t.Type == "" && !abandoned && !refused {
					c.badf("%s has error %q, the span of the called flow %q", what, s.Err, k.Err)
				}
			}
		}
	}
}

func traceOpt(c *Case) genOpt {
	o := mixOpt(c)
	o.Data = 1 + c.R.Intn(3)
	o.PDet = oneOf(c, 0, 0, 0.3)
	o.Depth = c.R.Intn(4)
	o.Trace = true
	if concMode() {
		calm(&o)
	}
	return o
}

func init() {
	fam := func(name string, refuse bool) {
		families[name] = func(c *Case) {
			g := newGen(c.Seed, fmt.Sprintf("%s%d", name, c.Idx), traceOpt(c))
			sc := g.scenario()
			n := 0
			if refuse {
				n = 1 + c.R.Intn(4)
			}
			opt := runOpts{}
			var cs *vspan
			if c.R.Intn(2) == 0 {
				cs = &vspan{ID: "ctxspan", Trace: "ctxtrace", Tags: map[string]interface{}{}}
				opt.ctx = trace.AppendTracingContext(context.Background(), &vctx{cs})
			}
			tr.take(n)
			var spans []*vspan
			var bad []string
			taken := false
			out := runScenario(c, sc, opt, func(o *oracle) {
				if !taken {
					spans, bad = tr.take(0)
					taken = true
				}
				o.noPrio = true
				m := map[string]*vspan{}
				for _, s := range spans {
					if s.tag("task_name") == "" {
						m[s.tag("flow_id")] = s
					}
				}
				o.spanOf = func(id string) (string, string) {
					if s := m[id]; s != nil {
						return s.Trace, s.ID
					}
					return "", ""
				}
			})
			if out == nil || out.hang {
				return
			}
			if m, ok := c.Detail.(map[string]interface{}); ok {
				m["spans"] = spans
			}
			c.Bad = append(c.Bad, bad...)
			if len(c.Bad) > 0 {
				return
			}
			c.NonTriv = out.o.execs >= 1
			if refuse {
				for _, s := range spans {
					c.stat("spans", 1)
					if s.Ends != 1 {
						c.badf("span %s of flow %s was closed %d times", s.Op, s.tag("flow_id"), s.Ends)
					}
				}
				return
			}
			checkSpans(c, out.o, out.evs, spans, cs)
			if len(c.Bad) > 6 {
				c.Bad = c.Bad[:6]
			}
		}
	}
	fam("trace", false)
	fam("tracerefuse", true)
	props["C19"] = &PropDef{ID: "C19", Rule: "random flows of all features run with a recording tracer; the spans are checked for balance, nesting and errors against the run the activities and the reference saw, and the span ids visible to the flow against the recorded ones; a tracer that refuses spans and fails to report them must not change the run; non-trivial if an activity ran, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "trace", N: size(q, 9000, 250000), Init: "trace"}, {Fam: "tracerefuse", N: size(q, 2000, 40000), Init: "trace"}}
		}}
}
