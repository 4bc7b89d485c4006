package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	coreevent "github.com/project-flogo/core/engine/event"
	fevent "github.com/project-flogo/flow/support/event"
)

// Lev is one delivered event of the engine.
type Lev struct {
	Task     bool                   `json:"task"`
	St       string                 `json:"st"`
	FlowName string                 `json:"flow"`
	FlowID   string                 `json:"id"`
	PName    string                 `json:"pname,omitempty"`
	PID      string                 `json:"pid,omitempty"`
	Host     string                 `json:"host,omitempty"` // host task name
	HostID   string                 `json:"hostId,omitempty"`
	Name     string                 `json:"name,omitempty"` // task
	TID      string                 `json:"tid,omitempty"`
	Type     string                 `json:"type,omitempty"`
	Ref      string                 `json:"ref,omitempty"`
	In       map[string]interface{} `json:"in,omitempty"`
	Out      map[string]interface{} `json:"out,omitempty"`
	Err      string                 `json:"err,omitempty"`
	HasErr   bool                   `json:"hasErr,omitempty"`
	T        int64                  `json:"t"`
}

type levRec struct {
	mu    sync.Mutex
	evs   []Lev
	flush chan struct{}
	n     int // deliveries to the failing listener
}

var lev = &levRec{}

const flushType = "veriflush"

type evListener struct{}

func copyNorm(m map[string]interface{}) map[string]interface{} {
	x, _ := norm(m).(map[string]interface{})
	return x
}

func (*evListener) HandleEvent(c *coreevent.Context) error {
	var e Lev
	switch t := c.GetEvent().(type) {
	case fevent.FlowEvent:
		h := t.HostTask()
		e = Lev{St: string(t.FlowStatus()), FlowName: t.FlowName(), FlowID: t.FlowID(), PName: t.ParentFlowName(), PID: t.ParentFlowID(),
			Host: h.TaskName, HostID: h.TaskInstanceId, In: copyNorm(t.FlowInput()), Out: copyNorm(t.FlowOutput()), T: int64(t.Time().Sub(base))}
		if err := t.FlowError(); err != nil {
			e.Err, e.HasErr = err.Error(), true
		}
	case fevent.TaskEvent:
		e = Lev{Task: true, St: string(t.TaskStatus()), FlowName: t.FlowName(), FlowID: t.FlowID(), Name: t.TaskName(), TID: t.TaskInstanceId(),
			Type: t.TaskType(), Ref: t.ActivityRef(), In: copyNorm(t.TaskInput()), Out: copyNorm(t.TaskOutput()), T: int64(t.Time().Sub(base))}
		if err := t.TaskError(); err != nil {
			e.Err, e.HasErr = err.Error(), true
		}
	case chan struct{}:
		close(t)
		return nil
	}
	lev.mu.Lock()
	lev.evs = append(lev.evs, e)
	lev.mu.Unlock()
	return nil
}

// badListener always fails.
type badListener struct{}

func (*badListener) HandleEvent(c *coreevent.Context) error {
	lev.mu.Lock()
	lev.n++
	lev.mu.Unlock()
	return errors.New("listener failed")
}

// panicListener panics, the event is then lost for the listeners that would come next.
type panicListener struct{}

func (*panicListener) HandleEvent(c *coreevent.Context) error { panic("listener panics") }

func init() {
	inits["events"] = func() {
		setupEngine(nil, nil)
		_ = coreevent.RegisterListener("verif", &evListener{}, []string{fevent.FlowEventType, fevent.TaskEventType, flushType})
		_ = coreevent.RegisterListener("verifbad", &badListener{}, []string{fevent.FlowEventType, fevent.TaskEventType})
		time.Sleep(time.Millisecond)
	}
	inits["panicevents"] = func() {
		inits["events"]()
		_ = coreevent.RegisterListener("verifpanic", &panicListener{}, []string{fevent.FlowEventType, fevent.TaskEventType})
	}
}

// takeLev returns the events delivered so far.
func takeLev() []Lev {
	ch := make(chan struct{})
	coreevent.Post(flushType, ch)
	select {
	case <-ch:
	case <-time.After(hangTimeout):
		return nil
	}
	lev.mu.Lock()
	defer lev.mu.Unlock()
	e := lev.evs
	lev.evs = nil
	return e
}

var levNext = map[string][]string{
	"":          {"Scheduled"},
	"Scheduled": {"Started", "Skipped"},
	"Started":   {"Waiting", "Completed", "Failed"},
	"Waiting":   {"Started", "Completed", "Failed"},
}

func inList(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// fuzzy: things the monitor cannot see may still have happened in fi.
func (o *oracle) fuzzy(fi *finst) bool {
	for _, ts := range fi.ts {
		if ts.silent != nil || ts.late {
			return true
		}
	}
	for _, k := range fi.kids {
		if o.fuzzy(k) {
			return true
		}
	}
	return false
}

// checkEvents compares the delivered events with what the run really did.
func checkEvents(c *Case, o *oracle, evs []Ev, ls []Lev, traced bool) {
	type fstate struct {
		started, over bool
		last          string
		n             int
		term          *Lev
		start         *Lev
	}
	type tkey struct{ id, name string }
	fs := map[string]*fstate{}
	tst := map[tkey]*Lev{}
	reps, hosts := map[tkey]int{}, map[string]string{}
	first := map[tkey]int64{} // first Started
	over := map[tkey]int64{}
	// what was observed by the activities
	type xrec struct {
		in       map[string]interface{}
		out      map[string]interface{}
		o        *Out
		from, to int64
	}
	lastX := map[tkey]*xrec{}
	firstX := map[tkey]int64{}
	for i := range evs {
		e := &evs[i]
		k := tkey{e.Inst, e.Name}
		switch e.K {
		case "start":
			lastX[k] = &xrec{in: e.In, from: e.T}
			if _, ok := firstX[k]; !ok {
				firstX[k] = e.T
			}
		case "end":
			if x := lastX[k]; x != nil {
				x.to, x.out, x.o = e.T, e.Data, e.O
			}
		}
	}
	prev := map[string]int64{}
	for i := range ls {
		e := &ls[i]
		f := fs[e.FlowID]
		if f == nil {
			f = &fstate{}
			fs[e.FlowID] = f
		}
		root := runOf(e.FlowID)
		if concMode() {
			root = e.FlowID + "/" + e.Name // others are dated at the same time
		}
		if e.T < prev[root] {
			c.badf("event %s of %s/%s is dated before the event delivered before it", e.St, e.FlowID, e.Name)
		}
		prev[root] = e.T
		fi := o.insts[e.FlowID]
		if fi != nil && fi.f.Name != e.FlowName {
			c.badf("event of %s names flow %q, expected %q", e.FlowID, e.FlowName, fi.f.Name)
		}
		if f.over {
			c.badf("event %s of %s/%s after the flow's %s event", e.St, e.FlowID, e.Name, f.last)
			continue
		}
		if !e.Task {
			c.stat("flowevents", 1)
			switch e.St {
			case "Started":
				if f.started {
					c.badf("flow %s has two started events", e.FlowID)
				}
				f.started = true
				f.start = e
			case "Completed", "Failed", "Cancelled":
				if !f.started {
					c.badf("flow %s has a %s event but no started event", e.FlowID, e.St)
				}
				f.over = true
				f.term = e
			default:
				c.badf("unexpected flow event %s of %s", e.St, e.FlowID)
			}
			f.last = e.St
			if e.HasErr != (e.St == "Failed") {
				c.badf("flow event %s of %s: error %q", e.St, e.FlowID, e.Err)
			}
			if e.St != "Completed" && len(e.Out) > 0 {
				c.badf("flow event %s of %s carries output %s", e.St, e.FlowID, js(e.Out))
			}
			if fi != nil {
				wantN, wantID, wantH, wantHID := "", "", "", ""
				if p := fi.parent; p != nil {
					wantN, wantID, wantH, wantHID = p.f.Name, p.id, p.f.byID[fi.host].Name, fi.host
				}
				if traced && wantHID != "" {
					// it is told which repetition of the task it is called by
					k, n, was := tkey{e.PID, e.Host}, 0, hosts[e.FlowID]
					if e.HostID != wantHID {
						n, _ = strconv.Atoi(strings.TrimPrefix(e.HostID, wantHID+"-"))
					}
					switch {
					case e.HostID != wantHID && e.HostID != fmt.Sprintf("%s-%d", wantHID, n):
						c.badf("flow event %s of %s names the calling task %s, it is %s", e.St, e.FlowID, e.HostID, wantHID)
					case e.St == "Started" && reps[k]-1 > n:
						c.badf("flow event %s of %s names the calling task %s, an earlier call was from %s-%d", e.St, e.FlowID, e.HostID, wantHID, reps[k]-1)
					case e.St == "Started":
						reps[k], hosts[e.FlowID] = n+1, e.HostID
						if n > 0 {
							c.stat("hostids", 1)
						}
					case e.HostID != was && !concMode():
						c.badf("flow event %s of %s names the calling task %s, it started with %s", e.St, e.FlowID, e.HostID, was)
					}
					wantHID = e.HostID
				}
				if e.PName != wantN || e.PID != wantID || e.Host != wantH || e.HostID != wantHID {
					c.badf("flow event %s of %s names parent %q (%s) and task %q (%s), expected %q (%s) and %q (%s)", e.St, e.FlowID, e.PName, e.PID, e.Host, e.HostID, wantN, wantID, wantH, wantHID)
				}
			}
			continue
		}
		c.stat("taskevents", 1)
		if !f.started {
			c.badf("task event %s of %s/%s before the flow's started event", e.St, e.FlowID, e.Name)
		}
		k := tkey{e.FlowID, e.Name}
		last := ""
		if l := tst[k]; l != nil {
			last = l.St
		}
		if !inList(e.St, levNext[last]) {
			c.badf("task %s/%s: event %s after %q", e.FlowID, e.Name, e.St, last)
		}
		if e.St == "Started" {
			if _, ok := first[k]; !ok {
				first[k] = e.T
			}
		}
		if e.St == "Completed" || e.St == "Failed" {
			over[k] = e.T
		}
		tst[k] = e
		if e.HasErr != (e.St == "Failed") {
			c.badf("task event %s of %s/%s: error %q", e.St, e.FlowID, e.Name, e.Err)
		}
		if e.St != "Completed" && len(e.Out) > 0 {
			c.badf("task event %s of %s/%s carries output %s", e.St, e.FlowID, e.Name, js(e.Out))
		}
		if fi == nil {
			continue
		}
		var t *Task
		for _, x := range fi.f.byID {
			if x.Name == e.Name {
				t = x
			}
		}
		if t == nil {
			c.badf("event of %s names unknown task %q", e.FlowID, e.Name)
			continue
		}
		ref := t.ref()
		if t.Sub != "" {
			ref = subRef
			if t.Post != nil {
				ref = acallRef
			}
		}
		if e.TID != t.ID && !(traced && strings.HasPrefix(e.TID, t.ID+"-")) || e.Type != t.typeID() || e.Ref != ref {
			c.badf("event %s of %s/%s has task id %q, type %q, activity %q", e.St, e.FlowID, e.Name, e.TID, e.Type, e.Ref)
		}
	}
	// final states
	for id, fi := range o.insts {
		f := fs[id]
		if f == nil || !f.started {
			c.badf("flow %s ran but has no started event", id)
			continue
		}
		want := []string{"", "Completed", "Failed", "Cancelled"}[fi.status]
		got := ""
		if f.term != nil {
			got = f.term.St
		}
		if got != want && !(fi.status == 3 && o.fuzzy(fi)) {
			c.badf("flow %s: final event %q, expected %q", id, got, want)
		} else {
			c.stat("final"+got, 1)
		}
		if got == "Failed" && want == "Failed" && !strings.Contains(f.term.Err, fi.err.Msg) {
			c.badf("failed event of %s has error %q, expected %q", id, f.term.Err, fi.err.Msg)
		}
		if got == "Completed" && want == "Completed" && !o.noData {
			if w := fi.result(); !match(w, mapOf(f.term.Out)) {
				c.badf("completed event of %s has output %s, expected %s", id, js(f.term.Out), jsw(w))
			}
		}
		if !o.noData {
			outs := map[string]bool{}
			for _, p := range fi.f.Out {
				outs[p.Name] = true
			}
			for _, p := range fi.f.In {
				if v, ok := fi.init[p.Name]; ok && !outs[p.Name] && !match(v, f.start.In[p.Name]) {
					c.badf("started event of %s: input %s is %s, expected %s", id, p.Name, js(f.start.In[p.Name]), jsw(v))
				}
			}
		}
		for tid, ts := range fi.ts {
			t := fi.f.byID[tid]
			k := tkey{id, t.Name}
			l := tst[k]
			st := ""
			if l != nil {
				st = l.St
			}
			ended := fi.status == 1 && !fi.hasRet && (fi.phase == 0 || fi.f.isEH[tid])
			wt := map[int]string{sDone: "Completed", sFailed: "Failed", sSkipped: "Skipped"}[ts.st]
			switch {
			case (ts.late || ts.silent != nil || ts.child != nil && o.fuzzy(ts.child)) && !ended:
				// the engine may have abandoned the flow before it came to this task
			case wt != "":
				if st != wt && !(ts.st == sSkipped && (st == "" || st == "Scheduled" && !ended)) {
					// skipped tasks the flow had not come to when it ended have no event
					c.badf("task %s/%s: last event %q, expected %q", id, t.Name, st, wt)
				}
			case ts.st == sNone && !ended && o.fuzzy(fi):
				// a task before it may have failed unseen
			case ts.st == sNone:
				if st != "" && st != "Scheduled" {
					c.badf("task %s/%s was not reached but has the event %q", id, t.Name, st)
				}
			default:
				if st == "Completed" || st == "Failed" || st == "Skipped" {
					c.badf("task %s/%s was abandoned but has the event %q", id, t.Name, st)
				}
			}
			if st == "Failed" && ts.err != nil && !strings.Contains(l.Err, ts.err.Msg) {
				c.badf("failed event of %s/%s has error %q, expected %q", id, t.Name, l.Err, ts.err.Msg)
			}
			x := lastX[k]
			if x == nil {
				if st == "Completed" && ts.st == sDone && t.Sub != "" && !t.Det && ts.out != nil {
					for n, v := range l.Out {
						if w, ok := ts.out[n]; ok && !match(w, v) {
							c.badf("completed event of %s/%s: output %s is %s, expected %s", id, t.Name, n, js(v), jsw(w))
						}
					}
					for n := range ts.out {
						if _, ok := l.Out[n]; !ok && !t.Accum {
							c.badf("completed event of %s/%s lacks output %s", id, t.Name, n)
						}
					}
				}
				continue
			}
			// bracketing of the executions
			if s, ok := first[k]; !ok || s > firstX[k] {
				c.badf("task %s/%s executed before its started event", id, t.Name)
			}
			if e, ok := over[k]; ok && x.to > e {
				c.badf("task %s/%s executed after its %s event", id, t.Name, st)
			}
			if ts.n > 0 && ts.st == sSkipped {
				c.badf("task %s/%s executed but is reported as skipped", id, t.Name)
			}
			if st == "Completed" {
				for n, v := range x.in {
					if w, ok := l.In[n]; ok && !match(v, w) {
						c.badf("completed event of %s/%s: input %s is %s, the activity saw %s", id, t.Name, n, js(w), js(v))
					} else if !ok {
						c.badf("completed event of %s/%s lacks input %s", id, t.Name, n)
					}
				}
				if x.o != nil && x.o.K != "return" && x.o.K != "returnerr" {
					for n, v := range x.out {
						if w, ok := l.Out[n]; !ok || !match(v, w) {
							c.badf("completed event of %s/%s: output %s is %s, the activity set %s", id, t.Name, n, js(w), js(v))
						}
					}
				}
			}
		}
		// a task starts only after the tasks before it are reported
		for _, t := range fi.f.byID {
			s, ok := firstX[tkey{id, t.Name}]
			if !ok {
				continue
			}
			for _, l := range fi.f.inl[t.ID] {
				if fi.lst[l] != 1 {
					continue
				}
				if e, ok := over[tkey{id, fi.f.byID[l.From].Name}]; !ok || e > s {
					c.badf("task %s/%s executed before the end of %s was reported", id, t.Name, l.From)
				}
			}
		}
	}
	for id, f := range fs {
		if o.insts[id] == nil && f.started && f.term == nil {
			c.badf("flow %s (%s) has no final event", id, f.start.FlowName)
		}
	}
}

func init() {
	opt := func(c *Case) genOpt {
		o := mixOpt(c)
		o.PNoMeta = oneOf(c, 0, 0.2)
		o.Data = 1 + c.R.Intn(3)
		o.PDet = oneOf(c, 0, 0, 0.3)
		o.Depth = c.R.Intn(4)
		if concMode() {
			calm(&o)
		}
		return o
	}
	fam := func(name string, lost, traced bool) {
		families[name] = func(c *Case) {
			g := newGen(c.Seed, fmt.Sprintf("%s%d", name, c.Idx), opt(c))
			sc := g.scenario()
			takeLev()
			lev.mu.Lock()
			n0 := lev.n
			lev.mu.Unlock()
			out := runScenario(c, sc, runOpts{}, func(o *oracle) { o.noPrio = true })
			if out == nil || out.hang {
				return
			}
			ls := takeLev()
			if c.Detail != nil {
				if m, ok := c.Detail.(map[string]interface{}); ok {
					m["lev"] = ls
				}
			}
			if len(c.Bad) > 0 || out.o.limit {
				return
			}
			c.NonTriv = out.o.execs >= 1
			c.stat("levs", len(ls))
			if lost {
				return
			}
			checkEvents(c, out.o, out.evs, ls, traced)
			lev.mu.Lock()
			if lev.n-n0 != len(ls) {
				c.badf("the other listener received %d events, this one %d", lev.n-n0, len(ls))
			}
			lev.mu.Unlock()
			if len(c.Bad) > 6 {
				c.Bad = c.Bad[:6]
			}
		}
	}
	fam("events", false, false)
	fam("eventslost", true, false)
	fam("eventstraced", false, true)
	props["C17"] = &PropDef{ID: "C17", Rule: "random flows of all features (subflows with and without metadata, nested, detached, abandoned; failures, returns, loops, retries, skips) run with listeners attached, one of them failing; the delivered events are checked against a protocol per flow run and task and against the run the activities and the reference saw; non-trivial if an activity ran, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "events", N: size(q, 8000, 220000), Init: "events"}, {Fam: "eventstraced", N: size(q, 1500, 40000), Init: "traceevents"}, {Fam: "eventslost", N: size(q, 1000, 20000), Init: "panicevents"}}
		}}
}
