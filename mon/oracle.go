package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
)

// The oracle replays the observed events of one run against the documented
// semantics of a flow, independently of the engine.

const (
	sNone = iota
	sReady
	sRunning
	sWaiting
	sDone
	sFailed
	sSkipped
)

type item struct{ k, v interface{} }

type tstate struct {
	posts     int // results of calls seen by an activity of our own
	st        int
	n         int // executions ended
	items     []item
	any       map[string]interface{} // object iteration: remaining entries
	loop      bool
	idx       int
	accum     []interface{}
	retries   int  // -1: not initialised
	again     bool // the next execution is a retry
	child     *finst
	before    []string
	silent    *EInfo
	entered   bool
	lastItem  item
	eag       bool
	err       *EInfo
	out       map[string]interface{} // of the last successful execution
	mocked    int
	late      bool  // the engine may come to this outcome later than the monitor does
	endT      int64 // when the last event of the task or of its subflow happened
	notBefore int64 // its next execution may not start earlier
}

type finst struct {
	id          string
	f           *Flow
	parent      *finst
	host        string
	tag         string
	attrs       map[string]interface{}
	lst         map[*Link]int
	ts          map[string]*tstate
	phase       int
	status      int
	ret         map[string]interface{}
	hasRet      bool
	rerr        *EInfo
	err         *EInfo
	reply       map[string]interface{}
	hasReply    bool
	kids        []*finst
	errN        int // errors seen
	curErr      string
	cur         *scopeT
	init        map[string]interface{} // values at the start
	mainRunning map[string]bool        // conc: main tasks running when the handler began
}

type detach struct {
	parent *finst
	host   string
	flow   string
	tag    string
	in     map[string]interface{}
	must   bool
	seen   int
}

type oracle struct {
	flows     map[string]*Flow
	conc      bool
	prio      bool // expression priority setting
	noData    bool
	noPrio    bool
	insts     map[string]*finst
	root      *finst
	det       []*detach
	detRoots  []*finst
	expReply  []map[string]interface{}
	results   []Ev
	dones     int
	execs     int
	bad       []string
	sub       int
	stats     map[string]int
	runID     string
	eventID   string
	evIDs     bool // the event id is checked
	limit     bool // run may end by the step limit
	mocked    func(fi *finst, t *Task) *mockSpec
	override  func(fi *finst, t *Task, in map[string]interface{})
	overlay   func(fi *finst, t *Task, out map[string]interface{}) map[string]interface{}
	onOK      func(fi *finst, t *Task) // an execution succeeded, its outputs are set
	onErr     func(fi *finst, t *Task) // an activity returned an error
	asserted  func() int               // failure of the run asserted: 0 no, 1 yes, 2 unknown
	onChild   func(parent *finst, host string, fi *finst)
	noFinal   bool
	extraAttr map[string]interface{}
	ext       interface{}
	linkErr   map[*finst]map[string]bool // task whose link could not be evaluated
	recs      []taskRec                  // completed executions (for derived monitors)
	spanOf    func(inst string) (traceID, spanID string)
	resumed   bool
	seen      string // conc: the inputs and errors observed
	plan      []int  // explanations to choose
	rnd       *rand.Rand
	made      [][2]int        // explanations chosen, of how many
	kinds     map[string]bool // kinds of links that left executed tasks
}

type taskRec struct {
	fi   *finst
	task string
	n    int
	ok   bool
}

type mockSpec struct {
	outputs map[string]interface{}
	exc     *EInfo
	note    func()
}

func newOracle(flows []*Flow, runID string) *oracle {
	o := &oracle{flows: map[string]*Flow{}, insts: map[string]*finst{}, stats: map[string]int{}, runID: runID}
	for _, f := range flows {
		if f.byID == nil {
			f.index()
		}
		o.flows[f.Name] = f
	}
	return o
}

func (o *oracle) badf(f string, a ...interface{}) { o.bad = append(o.bad, fmt.Sprintf(f, a...)) }

type scopeT struct {
	fi  *finst
	itn map[string]interface{}
}

func (s *scopeT) get(name string) (interface{}, bool) {
	if strings.HasPrefix(name, "_W.") {
		if s.itn == nil {
			return nil, false
		}
		return s.itn, true
	}
	v, ok := s.fi.attrs[name]
	return v, ok
}

func (o *oracle) newInst(id string, f *Flow, in map[string]interface{}, parent *finst, host, tag string) *finst {
	fi := &finst{id: id, f: f, parent: parent, host: host, tag: tag, attrs: map[string]interface{}{}, lst: map[*Link]int{}, ts: map[string]*tstate{}}
	fi.attrs["_fctx.FlowName"] = f.Name
	fi.attrs["_fctx.FlowId"] = id
	fi.attrs["_fctx.ParentFlowName"] = ""
	fi.attrs["_fctx.ParentFlowId"] = ""
	fi.attrs["_fctx.AppName"] = os.Getenv("FLOGO_APP_NAME")
	fi.attrs["_fctx.AppVersion"] = os.Getenv("FLOGO_APP_VERSION")
	fi.attrs["_fctx.TraceId"] = ""
	fi.attrs["_fctx.SpanId"] = ""
	if o.spanOf != nil {
		fi.attrs["_fctx.TraceId"], fi.attrs["_fctx.SpanId"] = o.spanOf(id)
	}
	if parent != nil {
		fi.attrs["_fctx.ParentFlowName"] = parent.f.Name
		fi.attrs["_fctx.ParentFlowId"] = parent.id
		parent.kids = append(parent.kids, fi)
	}
	for k, v := range o.extraAttr {
		fi.attrs[k] = v
	}
	for _, p := range f.In {
		fi.attrs[p.Name] = norm(p.Def)
	}
	for k, v := range in {
		fi.attrs[k] = norm(v)
	}
	fi.init = map[string]interface{}{}
	for k, v := range fi.attrs {
		fi.init[k] = v
	}
	for id := range f.byID {
		fi.ts[id] = &tstate{retries: -1}
	}
	o.insts[id] = fi
	o.stats["inst"]++
	return fi
}

// start makes the model of the root run.
func (o *oracle) start(f *Flow, in map[string]interface{}) {
	o.root = o.newInst(o.runID, f, in, nil, "", "")
	if o.eventID != "" {
		o.root.attrs["event.id"] = o.eventID
	}
	o.enterAll(o.root, &f.Main)
}

func (o *oracle) enterAll(fi *finst, g *Graph) {
	ph := fi.phase
	if len(g.Tasks) == 0 {
		o.stats["empty"]++
		o.complete(fi)
		return
	}
	for _, t := range g.Tasks {
		if fi.status != 0 || fi.phase != ph {
			return
		}
		if len(fi.f.inl[t.ID]) == 0 {
			o.ready(fi, t.ID)
		}
	}
}

func (fi *finst) scope(t *Task, ts *tstate) *scopeT {
	s := &scopeT{fi: fi}
	if ts.loop {
		if t.Type == "iterator" {
			s.itn = map[string]interface{}{"key": ts.lastItem.k, "value": ts.lastItem.v, "index": float64(ts.idx)}
		} else {
			s.itn = map[string]interface{}{"index": float64(ts.idx)}
		}
	}
	return s
}

func (o *oracle) mapIn(fi *finst, t *Task, sc *scopeT) (map[string]interface{}, error) {
	m := map[string]interface{}{}
	for k, e := range t.In {
		v, err := e.Eval(sc)
		if err != nil {
			return nil, err
		}
		m[k] = v
	}
	if o.override != nil {
		o.override(fi, t, m)
	}
	if e := violated(t, t.InSch, m); e != nil {
		return nil, e
	}
	return m, nil
}

// inErr describes why the inputs of a task are not available.
func inErr(t *Task, err error) *EInfo {
	if e, ok := err.(*schemaErr); ok {
		return e.info(t)
	}
	return &EInfo{Kind: "mapper", Msg: err.Error(), Act: t.Name}
}

// ready: all incoming links of the task are decided and one was taken.
func (o *oracle) ready(fi *finst, id string) {
	t, ts := fi.f.byID[id], fi.ts[id]
	ts.st = sReady
	o.stats["ready"]++
	if t.SetExpr != nil {
		if _, err := t.SetExpr.Eval(fi.scope(t, ts)); err != nil {
			o.silentFail(fi, id, &EInfo{Kind: "setting", Msg: err.Error()})
			return
		}
	}
	if t.Type == "doWhile" {
		ts.loop, ts.idx = true, 0
	}
	if t.Type == "iterator" {
		var v interface{}
		var err error
		if t.Iter != nil {
			v, err = t.Iter.Eval(&scopeT{fi: fi})
		} else {
			v = norm(t.IterLit)
		}
		if err != nil {
			o.silentFail(fi, id, &EInfo{Kind: "loop", Msg: err.Error()})
			return
		}
		switch c := v.(type) {
		case nil:
			o.silentOK(fi, id)
			return
		case float64:
			for i := 0; i < int(c); i++ {
				ts.items = append(ts.items, item{float64(i), float64(i)})
			}
		case string:
			n, err := strconv.Atoi(c)
			if err != nil {
				o.silentFail(fi, id, &EInfo{Kind: "loop", Msg: c})
				return
			}
			for i := 0; i < n; i++ {
				ts.items = append(ts.items, item{float64(i), float64(i)})
			}
		case []interface{}:
			for i, x := range c {
				ts.items = append(ts.items, item{float64(i), x})
			}
		case map[string]interface{}:
			ts.any = map[string]interface{}{}
			for k, x := range c {
				ts.any[k] = x
			}
		default:
			o.silentFail(fi, id, &EInfo{Kind: "loop", Msg: ""})
			return
		}
		ts.loop = true
		if len(ts.items)+len(ts.any) == 0 {
			o.silentOK(fi, id)
			return
		}
		if ts.any == nil {
			ts.lastItem = ts.items[0]
		}
	}
	o.prepare(fi, id)
}

// prepare looks at what the next execution of a ready task will do if it does
// not reach an instrumented activity.
func (o *oracle) prepare(fi *finst, id string) {
	t, ts := fi.f.byID[id], fi.ts[id]
	ts.st = sReady
	var mock *mockSpec
	if o.mocked != nil {
		mock = o.mocked(fi, t)
	}
	if ts.any != nil && !ts.again {
		k := sortedKeys(ts.any)[0]
		if mock == nil && !o.emptySub(t) {
			ts.lastItem = item{k, ts.any[k]}
			if _, err := o.mapIn(fi, t, fi.scope(t, ts)); err != nil {
				o.silentFail(fi, id, inErr(t, err))
			}
			return
		}
		ts.lastItem = item{k, ts.any[k]}
		delete(ts.any, k)
	}
	sc := fi.scope(t, ts)
	if _, err := o.mapIn(fi, t, sc); err != nil {
		o.silentFail(fi, id, inErr(t, err))
		return
	}
	if mock != nil {
		ts.mocked++
		if mock.note != nil {
			mock.note()
		}
		o.stats["mocked"]++
		if mock.exc != nil {
			e := *mock.exc
			o.silentFail(fi, id, &e)
		} else {
			ts.eag, ts.late = true, true
			o.taskOK(fi, id, mock.outputs)
		}
		return
	}
	if o.emptySub(t) && !t.Det {
		// nothing in it will be seen
		in, _ := o.mapIn(fi, t, sc)
		x := o.newInst(fmt.Sprintf("empty%d", len(o.insts)), o.flows[t.Sub], o.flows[t.Sub].passed(in), fi, id, "")
		x.status = 1
		o.stats["empty"]++
		ts.eag, ts.late = true, true
		if e := violated(t, t.OutSch, x.result()); e != nil {
			o.silentFail(fi, id, e.info(t))
			return
		}
		o.taskOK(fi, id, x.result())
		return
	}
	if t.Det {
		in, _ := o.mapIn(fi, t, sc)
		tag, _ := in["t"].(string)
		if o.emptySub(t) {
			ts.eag, ts.late = true, true
			o.taskOK(fi, id, nil)
			return
		}
		o.det = append(o.det, &detach{parent: fi, host: id, flow: t.Sub, tag: tag, in: in})
		ts.eag, ts.late = true, true
		o.taskOK(fi, id, nil)
	}
}

// emptySub: the task calls a flow that has no tasks.
func (o *oracle) emptySub(t *Task) bool {
	f := o.flows[t.Sub]
	return f != nil && len(f.Main.Tasks) == 0
}

// passed are the values a call with these inputs passes on to the flow.
func (f *Flow) passed(in map[string]interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for _, q := range f.In {
		if v, ok := in[q.Name]; ok {
			m[q.Name] = v
		}
	}
	return m
}

func (o *oracle) silentOK(fi *finst, id string) {
	o.stats["silentok"]++
	fi.ts[id].late = true
	o.finish(fi, id)
}

func hasErrLink(fi *finst, id string) bool {
	for _, l := range fi.f.outl[id] {
		if l.Type == "error" {
			return true
		}
	}
	return false
}

func (o *oracle) silentFail(fi *finst, id string, e *EInfo) {
	o.stats["silentfail"]++
	fi.ts[id].late = true
	fi.ts[id].err = e
	if hasErrLink(fi, id) {
		o.setErr(fi, id, e, false)
		o.failLinks(fi, id)
		return
	}
	if e.Act == "" {
		e.Act = id
	}
	fi.ts[id].silent = e
}

// errObj is what $error shows.
func errObj(t *Task, e *EInfo) map[string]interface{} {
	m := map[string]interface{}{"activity": t.ID, "message": e.Msg, "type": "unknown", "code": "", "data": nil}
	switch e.Kind {
	case "activity", "retriable":
		m["type"], m["code"], m["data"] = "activity", e.Code, e.Data
		if e.Act != "" {
			m["activity"] = e.Act
		}
		if e.AnyAct {
			m["activity"] = anyv{}
		}
	case "panic":
		m["type"], m["activity"] = "unhandled", e.Act
	case "mapper":
		m["type"], m["activity"] = "mapper", e.Act
		m["message"] = wild{e.Msg}
	case "schema":
		m["message"] = wild{e.Msg}
	case "loop", "setting", "link":
		m["message"] = wild{e.Msg}
		m["type"] = wild{""}
		m["activity"] = wild{""}
		if e.Act == t.ID {
			m["activity"] = wild{t.ID}
		}
	}
	return m
}

// wild matches any string that contains sub.
type wild struct{ sub string }

// anyv matches anything.
type anyv struct{}

func (o *oracle) setErr(fi *finst, id string, e *EInfo, global bool) {
	ob := errObj(fi.f.byID[id], e)
	fi.attrs["_E."+id] = ob
	if global && fi.phase == 0 {
		fi.attrs["_E"] = ob
	}
	fi.errN++
}

// failLinks routes a failure to the task's error links.
func (o *oracle) failLinks(fi *finst, id string) {
	fi.ts[id].st = sFailed
	for _, l := range fi.f.outl[id] {
		if l.Type == "error" {
			fi.lst[l] = 1
		} else {
			fi.lst[l] = 2
		}
	}
	o.propagate(fi, id)
}

func (o *oracle) taskFailed(fi *finst, id string, e *EInfo) {
	fi.ts[id].err = e
	if hasErrLink(fi, id) {
		o.setErr(fi, id, e, false)
		o.failLinks(fi, id)
		return
	}
	fi.ts[id].st = sFailed
	o.unhandled(fi, id, e)
}

func (o *oracle) unhandled(fi *finst, id string, e *EInfo) {
	if o.conc {
		// other tasks may go on until the engine comes to it
		fi.ts[id].st, fi.ts[id].silent = sReady, e
		return
	}
	o.fail(fi, id, e)
}

func (o *oracle) fail(fi *finst, id string, e *EInfo) {
	o.setErr(fi, id, e, true)
	if fi.phase == 0 && fi.f.EH != nil {
		fi.phase = 1
		o.stats["handler"]++
		fi.mainRunning = map[string]bool{}
		for _, k := range fi.kids {
			if k.status == 0 {
				o.kill(k)
			}
		}
		o.enterAll(fi, fi.f.EH)
		return
	}
	o.failFlow(fi, e)
}

func (o *oracle) kill(fi *finst) {
	if fi.status == 0 {
		fi.status = 3
	}
	for _, k := range fi.kids {
		o.kill(k)
	}
}

func (o *oracle) failFlow(fi *finst, e *EInfo) {
	fi.status = 2
	fi.err = e
	o.stats["flowfailed"]++
	for _, k := range fi.kids {
		o.kill(k)
	}
	if fi.parent == nil {
		return
	}
	p, id := fi.parent, fi.host
	t, ts := p.f.byID[id], p.ts[id]
	ts.child = nil
	o.recs = append(o.recs, taskRec{p, id, ts.n, false})
	ts.n++
	if pe := o.post(t, ts, nil); pe != nil {
		e = pe
	}
	if (e.Kind == "activity" || e.Kind == "retriable") && o.retry(p, t, ts) {
		return
	}
	o.taskFailed(p, id, e)
}

// retry consumes one retry if there is one left.
func (o *oracle) retry(fi *finst, t *Task, ts *tstate) bool {
	if t.Retry == nil {
		return false
	}
	if ts.retries < 0 {
		v, err := t.Retry.Eval(fi.scope(t, ts))
		if err != nil {
			return false
		}
		f, _ := v.(float64)
		ts.retries = int(f)
	}
	if ts.retries <= 0 {
		return false
	}
	ts.retries--
	o.stats["retry"]++
	o.pace(fi, t, ts, t.RetryIv)
	ts.again = true // the same element
	ts.st = sReady
	o.prepare(fi, t.ID)
	return true
}

// pace: the next execution of the task comes at least ms milliseconds after this one.
func (o *oracle) pace(fi *finst, t *Task, ts *tstate, ms int) {
	if ms > 0 && ts.endT > 0 && !(o.conc && t.Sub != "") {
		ts.notBefore = ts.endT + int64(ms)*1e6
		o.stats["paced"]++
	}
}

// paced: the start does not come too early.
func (o *oracle) paced(fi *finst, ev *Ev) {
	if ev.T == 0 {
		return
	}
	ts := fi.ts[ev.Task]
	if ev.T < ts.notBefore {
		o.badf("%s/%s: started %dus before the configured interval was over", fi.id, ev.Task, (ts.notBefore-ev.T)/1000)
	}
	if o.conc {
		return
	}
	for f := fi; f.parent != nil; f = f.parent {
		if h := f.parent.ts[f.host]; h != nil && ev.T < h.notBefore {
			o.badf("%s/%s: subflow started %dus before the configured interval was over", f.parent.id, f.host, (h.notBefore-ev.T)/1000)
		}
	}
}

// stamp remembers when the last event of a task, or of a subflow it called, happened.
func (fi *finst) stamp(ev *Ev) {
	if ev.T == 0 {
		return
	}
	fi.ts[ev.Task].endT = ev.T
	for f := fi; f.parent != nil; f = f.parent {
		if h := f.parent.ts[f.host]; h != nil {
			h.endT = ev.T
		}
	}
}

// taskOK: one execution of the task succeeded.
func (o *oracle) taskOK(fi *finst, id string, out map[string]interface{}) {
	t, ts := fi.f.byID[id], fi.ts[id]
	o.recs = append(o.recs, taskRec{fi, id, ts.n, true})
	ts.n++
	if o.overlay != nil {
		out = o.overlay(fi, t, out)
	}
	ts.out = out
	ts.again = false
	if t.Type != "" {
		o.stats[t.Type]++
	}
	if t.Accum && (t.Type == "iterator" || t.Type == "doWhile") {
		c := map[string]interface{}{}
		for k, v := range out {
			c[k] = v
		}
		ts.accum = append(ts.accum, c)
		fi.attrs["_A."+id] = append([]interface{}{}, ts.accum...)
	}
	if !t.Accum || t.Type == "doWhile" || t.Type == "" {
		for k, v := range out {
			fi.attrs["_A."+id+"."+k] = v
		}
	}
	if o.onOK != nil {
		o.onOK(fi, t)
	}
	switch t.Type {
	case "iterator":
		if ts.any != nil {
			if len(ts.any) > 0 {
				ts.idx++
				o.pace(fi, t, ts, t.Delay)
				o.prepare(fi, id)
				return
			}
		} else {
			ts.idx++
			if ts.idx < len(ts.items) {
				ts.lastItem = ts.items[ts.idx]
				o.pace(fi, t, ts, t.Delay)
				o.prepare(fi, id)
				return
			}
		}
	case "doWhile":
		if t.Cond != nil {
			v, err := t.Cond.Eval(fi.scope(t, ts))
			b, isb := v.(bool)
			if err != nil || !isb {
				msg := ""
				if err != nil {
					msg = err.Error()
				}
				if ts.late {
					o.silentFail(fi, id, &EInfo{Kind: "loop", Msg: msg})
				} else {
					o.taskFailed(fi, id, &EInfo{Kind: "loop", Msg: msg})
				}
				return
			}
			ts.idx++
			if b {
				o.stats["repeat"]++
				o.pace(fi, t, ts, t.Delay)
				o.prepare(fi, id)
				return
			}
		}
	}
	o.finish(fi, id)
}

// finish: the task is done, decide its links.
// truth is the meaning of the value of a link condition.
func truth(v interface{}) (bool, error) {
	switch v := v.(type) {
	case nil:
		return false, nil
	case bool:
		return v, nil
	case float64:
		return v != 0, nil
	case int:
		return v != 0, nil
	case string:
		return strconv.ParseBool(v)
	}
	return false, fmt.Errorf("not a condition: %v", v)
}

func (o *oracle) finish(fi *finst, id string) {
	ts := fi.ts[id]
	ts.st = sDone
	var other *Link
	hasExpr, taken := false, false
	cls := map[string]int{} // target -> class, for targets with exactly one link from here
	cnt := map[string]int{}
	for _, l := range fi.f.outl[id] {
		cnt[l.To]++
		fi.lst[l] = 2
		if !o.kinds[l.Type] {
			if o.kinds == nil {
				o.kinds = map[string]bool{}
			}
			o.kinds[l.Type] = true
			o.stats["linkkinds"]++
		}
		switch l.Type {
		case "dep":
			fi.lst[l] = 1
			cls[l.To] = 0
		case "label":
			fi.lst[l] = 1
			cls[l.To] = 3
			if o.prio {
				cls[l.To] = 1
			}
		case "otherwise":
			other = l
		case "expr":
			hasExpr = true
			v, err := l.Cond.Eval(&scopeT{fi: fi})
			b := false
			if err == nil {
				b, err = truth(v)
			}
			if err != nil {
				o.stats["linkerr"]++
				if o.linkErr == nil {
					o.linkErr = map[*finst]map[string]bool{}
				}
				if o.linkErr[fi] == nil {
					o.linkErr[fi] = map[string]bool{}
				}
				o.linkErr[fi][id] = true
				if ts.late || o.conc {
					// the engine may come to this later
					for _, m := range fi.f.outl[id] {
						fi.lst[m] = 0
					}
					ts.st = sReady
					ts.silent = &EInfo{Kind: "link", Msg: err.Error()}
					return
				}
				o.unhandled(fi, id, &EInfo{Kind: "link", Msg: err.Error()})
				return
			}
			if b {
				taken = true
				fi.lst[l] = 1
				cls[l.To] = 1
				if o.prio {
					cls[l.To] = 3
				}
			}
		}
	}
	if other != nil && hasExpr && !taken {
		fi.lst[other] = 1
		cls[other.To] = 2
	}
	if fi.hasRet {
		o.complete(fi)
		return
	}
	// a branch is started by this task alone if nothing else was pending for it
	direct := map[string]bool{}
	for to := range cls {
		direct[to] = true
		for _, l := range fi.f.inl[to] {
			if fi.lst[l] == 0 || l.From != id && fi.ts[l.From].late {
				direct[to] = false
			}
		}
	}
	o.propagate(fi, id)
	if o.conc || o.noPrio || fi.status != 0 {
		return
	}
	// order between the branches this task has just started
	type br struct {
		id string
		c  int
	}
	var brs []br
	for to, c := range cls {
		x := fi.ts[to]
		if cnt[to] == 1 && direct[to] && x.st == sReady && !x.entered && x.silent == nil {
			brs = append(brs, br{to, c})
		}
	}
	for _, b := range brs {
		x := fi.ts[b.id]
		x.entered = true
		for _, a := range brs {
			if a.c > b.c {
				x.before = append(x.before, a.id)
				o.stats["prio"]++
			}
		}
	}
}

func (o *oracle) propagate(fi *finst, id string) {
	ph := fi.phase
	for _, l := range fi.f.outl[id] {
		if fi.status != 0 || fi.phase != ph {
			return
		}
		to := fi.ts[l.To]
		if to.st != sNone {
			continue
		}
		dec, any := true, false
		for _, m := range fi.f.inl[l.To] {
			switch fi.lst[m] {
			case 0:
				dec = false
			case 1:
				any = true
			}
		}
		if !dec {
			continue
		}
		if any {
			o.ready(fi, l.To)
		} else {
			to.st = sSkipped
			for _, m := range fi.f.inl[l.To] {
				to.late = to.late || fi.ts[m.From].late
			}
			o.stats["skipped"]++
			for _, m := range fi.f.outl[l.To] {
				fi.lst[m] = 2
			}
			o.propagate(fi, l.To)
		}
	}
	if fi.status == 0 && fi.phase == ph {
		o.checkComplete(fi)
	}
}

func (fi *finst) graph() *Graph {
	if fi.phase == 1 {
		return fi.f.EH
	}
	return &fi.f.Main
}

func (o *oracle) checkComplete(fi *finst) {
	for _, t := range fi.graph().Tasks {
		if fi.ts[t.ID].st < sDone {
			return
		}
	}
	o.complete(fi)
}

func (fi *finst) result() map[string]interface{} {
	if fi.hasRet {
		return fi.ret
	}
	if fi.hasReply {
		return fi.reply
	}
	m := map[string]interface{}{}
	for _, p := range fi.f.Out {
		if v, ok := fi.attrs[p.Name]; ok {
			m[p.Name] = v
		}
		if p.Def != nil {
			m[p.Name] = norm(p.Def)
		} else if z, ok := zeroOf[p.Type]; ok {
			// the declared value of a typed output defaults to the zero value of its type
			m[p.Name] = z
		}
	}
	return m
}

var zeroOf = map[string]interface{}{"string": "", "integer": 0.0, "boolean": false, "number": 0.0}

func (o *oracle) complete(fi *finst) {
	if fi.status != 0 {
		return
	}
	fi.status = 1
	for _, k := range fi.kids {
		o.kill(k)
	}
	if fi.parent == nil {
		return
	}
	p, id := fi.parent, fi.host
	p.ts[id].child = nil
	res := fi.result()
	out := map[string]interface{}{}
	for _, x := range fi.f.Out {
		if v, ok := res[x.Name]; ok {
			out[x.Name] = v
		}
	}
	if p.f.byID[id].Accum {
		// all returned values are collected
		for k, v := range res {
			out[k] = v
		}
	}
	if o.onChild != nil {
		o.onChild(p, id, fi)
	}
	if e := o.post(p.f.byID[id], p.ts[id], out); e != nil {
		t, ts := p.f.byID[id], p.ts[id]
		o.recs = append(o.recs, taskRec{p, id, ts.n, false})
		ts.n++
		if (e.Kind == "activity" || e.Kind == "retriable") && o.retry(p, t, ts) {
			return
		}
		o.taskFailed(p, id, e)
		return
	}
	if o.outFailed(p, id, out) {
		return
	}
	o.taskOK(p, id, out)
}

// post is what the activity of our own does with the results of a call.
func (o *oracle) post(t *Task, ts *tstate, out map[string]interface{}) *EInfo {
	if t.Post == nil {
		return nil
	}
	k := t.Post.kind(ts.posts)
	ts.posts++
	o.stats["post"]++
	switch msg := t.Post.value(); k {
	case "set":
		if out != nil {
			out[t.Post.Out] = msg
			o.stats["postset"]++
		}
	case "err":
		o.stats["postfail"]++
		return &EInfo{Kind: "plain", Msg: msg}
	case "aerr", "retry":
		o.stats["postfail"]++
		return &EInfo{Kind: "activity", Msg: msg, Code: "p" + t.ID, Data: map[string]interface{}{"p": msg}, Act: t.Name}
	case "panic":
		o.stats["postfail"]++
		return &EInfo{Kind: "panic", Msg: msg, Act: t.Name}
	}
	return nil
}

// outFailed: an output of the execution violates its schema, which is a failure of the task.
func (o *oracle) outFailed(fi *finst, id string, out map[string]interface{}) bool {
	t, ts := fi.f.byID[id], fi.ts[id]
	e := violated(t, t.OutSch, out)
	if e == nil {
		return false
	}
	o.stats["badout"]++
	o.recs = append(o.recs, taskRec{fi, id, ts.n, false})
	ts.n++
	ts.st = sReady
	o.taskFailed(fi, id, e.info(t))
	return true
}

// match compares a model value (which may contain wildcards) with an observed one.
func match(want, got interface{}) bool {
	switch w := want.(type) {
	case anyv:
		return true
	case wild:
		s, ok := got.(string)
		return ok && strings.Contains(s, w.sub)
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			x, ok := g[k]
			if !ok || !match(v, x) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !match(w[i], g[i]) {
				return false
			}
		}
		return true
	}
	return eq(want, got)
}

func hasWild(v interface{}) bool {
	switch t := v.(type) {
	case wild, anyv:
		return true
	case map[string]interface{}:
		for _, x := range t {
			if hasWild(x) {
				return true
			}
		}
	case []interface{}:
		for _, x := range t {
			if hasWild(x) {
				return true
			}
		}
	}
	return false
}

type cand struct {
	fi *finst
	id string
}

// cands lists the silent failures of fi and of the subflows it waits for.
func (o *oracle) cands(fi *finst, ownFirst bool) (l []cand) {
	if fi.status != 0 {
		return nil
	}
	var own []cand
	for _, t := range fi.graph().Tasks {
		if ts := fi.ts[t.ID]; ts.st == sReady && ts.silent != nil {
			own = append(own, cand{fi, t.ID})
		}
	}
	if ownFirst {
		l = own
	}
	for _, k := range fi.kids {
		l = append(l, o.cands(k, false)...)
	}
	if !ownFirst {
		l = append(l, own...)
	}
	if o.seen == "" || len(l) < 2 {
		return
	}
	// those that were observed later on are more likely
	sort.SliceStable(l, func(i, j int) bool { return o.observed(l[i]) && !o.observed(l[j]) })
	return
}

func (o *oracle) observed(c cand) bool {
	e := c.fi.ts[c.id].silent
	return e.Msg != "" && strings.Contains(o.seen, e.Msg)
}

// choose picks one of several explanations; explain tries the others.
func (o *oracle) choose(n int) int {
	if n == 1 {
		return 0
	}
	c := 0
	if len(o.made) < len(o.plan) {
		c = o.plan[len(o.made)]
	} else if o.rnd != nil {
		c = o.rnd.Intn(n)
	}
	o.made = append(o.made, [2]int{c, n})
	return c
}

// explain checks the events, trying every order in which the failures that
// the monitor cannot see may have happened.
func explain(mk func() *oracle, evs []Ev) (*oracle, []string) {
	o := mk()
	bad := o.check(evs)
	made, ways, all := o.made, 1, false
	for _, m := range made {
		if ways < 1e6 {
			ways *= m[1]
		}
	}
	for try := 0; len(bad) > 0 && try < 300; try++ {
		for len(made) > 0 && made[len(made)-1][0]+1 >= made[len(made)-1][1] {
			made = made[:len(made)-1]
		}
		if len(made) == 0 {
			all = true
			break
		}
		var plan []int
		for _, m := range made {
			plan = append(plan, m[0])
		}
		plan[len(plan)-1]++
		o2 := mk()
		o2.plan = plan
		if len(o2.check(evs)) == 0 {
			o2.stats["reexplained"]++
			return o2, nil
		}
		made = o2.made
	}
	for try := int64(0); len(bad) > 0 && len(o.made) > 0 && !all && try < 3000; try++ {
		o2 := mk()
		o2.rnd = rand.New(rand.NewSource(try))
		if len(o2.check(evs)) == 0 {
			o2.stats["reexplained"]++
			return o2, nil
		}
	}
	if len(bad) > 0 && !all && ways > 2000 {
		o.stats["unexplained"]++ // too many possibilities to tell
		return o, nil
	}
	return o, bad
}

// firePending fires a silent failure that can explain an event.
func (o *oracle) firePending(fi *finst, ownFirst bool) bool {
	l := o.cands(fi, ownFirst)
	if len(l) == 0 {
		return false
	}
	c := l[o.choose(len(l))]
	ts := c.fi.ts[c.id]
	e := ts.silent
	ts.silent = nil
	ts.st = sFailed
	o.stats["fired"]++
	if e.Kind == "return" {
		ts.st = sDone
		c.fi.hasRet, c.fi.ret, c.fi.rerr = true, e.Data.(map[string]interface{}), e.ret
		o.complete(c.fi)
		return true
	}
	o.fail(c.fi, c.id, e)
	return true
}

func (o *oracle) roots() []*finst { return append([]*finst{o.root}, o.detRoots...) }

// locate finds (or creates) the flow instance of a start event.
func (o *oracle) locate(ev *Ev) *finst {
	if fi := o.insts[ev.Inst]; fi != nil {
		return fi
	}
	tag, _ := ev.In["t"].(string)
	pid, _ := ev.In["e"].(string)
	f := o.flows[ev.Flow]
	if f == nil {
		return nil
	}
	if p := o.insts[pid]; p != nil {
		if fi := o.child(p, f, tag, ev); fi != nil {
			return fi
		}
		if fi := o.detached(p, f, tag, ev); fi != nil {
			return fi
		}
		// a silent failure may have started the handler that holds the host
		for i := 0; i < 8 && o.firePending(p, false); i++ {
			if fi := o.child(p, f, tag, ev); fi != nil {
				return fi
			}
			if fi := o.detached(p, f, tag, ev); fi != nil {
				return fi
			}
		}
	}
	return nil
}

func (o *oracle) child(p *finst, f *Flow, tag string, ev *Ev) *finst {
	if p.status != 0 && !o.conc || !strings.HasPrefix(ev.Inst, runOf(p.id)+"-") {
		return nil
	}
	for id, ts := range p.ts {
		t := p.f.byID[id]
		if t.Sub != f.Name || t.Det || ts.st != sReady || ts.silent != nil {
			continue
		}
		if (p.phase == 1) != p.f.isEH[id] && !o.conc {
			continue
		}
		if ts.any != nil && !o.pickEntry(p, t, ts, func(in map[string]interface{}) bool { x, _ := in["t"].(string); return x == tag }) {
			continue
		}
		in, err := o.mapIn(p, t, p.scope(t, ts))
		if err != nil {
			continue
		}
		x, _ := in["t"].(string)
		if x != tag {
			continue
		}
		o.orderCheck(p, id)
		ts.st = sWaiting
		fi := o.newInst(ev.Inst, f, f.passed(in), p, id, tag)
		ts.child = fi
		o.stats["sub"]++
		o.enterAll(fi, &f.Main)
		if p.status != 0 || (p.phase == 1) != p.f.isEH[id] {
			o.kill(fi) // it was on its way
		}
		return fi
	}
	return nil
}

func (o *oracle) detached(p *finst, f *Flow, tag string, ev *Ev) *finst {
	for _, d := range o.det {
		if d.parent == p && d.flow == f.Name && d.tag == tag && d.seen == 0 {
			d.seen++
			fi := o.newInst(ev.Inst, f, f.passed(d.in), nil, "", tag)
			if o.eventID != "" {
				fi.attrs["event.id"] = o.eventID
			}
			o.detRoots = append(o.detRoots, fi)
			o.stats["detached"]++
			o.enterAll(fi, &f.Main)
			return fi
		}
	}
	return nil
}

// pickEntry chooses the entry of an object iteration an observed execution stands for.
func (o *oracle) pickEntry(fi *finst, t *Task, ts *tstate, ok func(map[string]interface{}) bool) bool {
	keys := sortedKeys(ts.any)
	for _, k := range keys {
		ts.lastItem = item{k, ts.any[k]}
		in, err := o.mapIn(fi, t, fi.scope(t, ts))
		if err == nil && ok(in) {
			delete(ts.any, k)
			return true
		}
	}
	return false
}

func (o *oracle) orderCheck(fi *finst, id string) {
	ts := fi.ts[id]
	if o.conc || o.noPrio {
		return
	}
	for _, b := range ts.before {
		if x := fi.ts[b]; x.st == sReady && x.silent == nil {
			o.badf("order: %s/%s started before the higher-priority branch %s", fi.id, id, b)
		}
	}
	ts.before = nil
}

func (o *oracle) event(ev *Ev) {
	switch ev.K {
	case "start":
		o.execs++
		fi := o.locate(ev)
		if fi == nil {
			o.badf("unexpected start of %s/%s (flow %s): no enabled call of this flow", ev.Inst, ev.Task, ev.Flow)
			return
		}
		if fi.f.Name != ev.Flow {
			o.badf("instance %s runs flow %s, not %s", ev.Inst, fi.f.Name, ev.Flow)
			return
		}
		if ev.Odd != "" {
			o.badf("the activity of %s/%s %s", ev.Inst, ev.Task, ev.Odd)
		}
		if o.evIDs && fi.parent == nil {
			// detached runs are runs of the same event
			if ev.EvID != o.eventID {
				o.badf("run %s of %s finds %q as its event, not %q", ev.Inst, fi.f.Name, ev.EvID, o.eventID)
			}
			if o.eventID != "" && fi != o.root {
				o.stats["detachedEvents"]++
			}
		}
		t := fi.f.byID[ev.Task]
		if t == nil {
			o.badf("unknown task %s", ev.Task)
			return
		}
		if o.dones > 0 && !fi.isDetached(o) {
			o.badf("%s/%s started after the completion signal", ev.Inst, ev.Task)
		}
		ts := fi.ts[ev.Task]
		if !o.enabled(fi, ev.Task) {
			for i := 0; i < 8 && !o.enabled(fi, ev.Task); i++ {
				if !o.firePending(fi, fi.isEHTask(ev.Task) && fi.phase == 0) {
					break
				}
			}
		}
		if !o.enabled(fi, ev.Task) {
			o.badf("%s", o.whyNot(fi, ev.Task))
			return
		}
		o.orderCheck(fi, ev.Task)
		o.paced(fi, ev)
		fi.stamp(ev)
		ts.entered = true
		if ts.any != nil && !ts.again {
			if !o.pickEntry(fi, t, ts, func(in map[string]interface{}) bool { return match(in, mapOf(ev.In)) }) {
				o.badf("%s/%s: inputs %s match no remaining entry of the collection", fi.id, ev.Task, js(ev.In))
				return
			}
		}
		ts.again = false
		ts.st = sRunning
		if ev.N != ts.n {
			o.badf("%s/%s: execution %d, expected %d", fi.id, ev.Task, ev.N, ts.n)
		}
		if ev.Name != t.Name {
			o.badf("%s/%s: task name %q, expected %q", fi.id, ev.Task, ev.Name, t.Name)
		}
		if !o.noData {
			want, err := o.mapIn(fi, t, fi.scope(t, ts))
			if err != nil {
				o.badf("%s/%s started although its inputs cannot be resolved", fi.id, ev.Task)
			} else if !match(want, mapOf(ev.In)) {
				o.badf("%s/%s: inputs %s, expected %s", fi.id, ev.Task, js(ev.In), jsw(want))
			} else {
				o.stats["inputs"] += len(want)
			}
		}
	case "end":
		fi := o.insts[ev.Inst]
		if fi == nil || fi.ts[ev.Task] == nil || fi.ts[ev.Task].st != sRunning {
			return // already reported at its start
		}
		if o.dones > 0 && !fi.isDetached(o) {
			o.badf("%s/%s ended after the completion signal", ev.Inst, ev.Task)
		}
		fi.stamp(ev)
		o.ended(fi, ev)
	case "attrs":
		// values given to the run when it was continued
		for k, v := range ev.Data {
			o.root.attrs[k] = v
		}
	case "reply":
		fi := o.insts[ev.Inst]
		if fi != nil && fi.parent == nil {
			fi.reply, fi.hasReply = ev.Data, true
			if fi == o.root {
				o.expReply = append(o.expReply, ev.Data)
			}
		}
	case "result":
		o.results = append(o.results, *ev)
		if o.dones > 0 {
			o.badf("result delivered after the completion signal")
		}
	case "done":
		o.dones++
		if o.dones > 1 {
			o.badf("completion signalled %d times", o.dones)
		}
	}
}

func mapOf(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return map[string]interface{}{}
	}
	return m
}

func jsw(v interface{}) string {
	var cv func(v interface{}) interface{}
	cv = func(v interface{}) interface{} {
		switch t := v.(type) {
		case wild:
			return "*" + t.sub + "*"
		case anyv:
			return "*"
		case map[string]interface{}:
			m := map[string]interface{}{}
			for k, x := range t {
				m[k] = cv(x)
			}
			return m
		case []interface{}:
			l := []interface{}{}
			for _, x := range t {
				l = append(l, cv(x))
			}
			return l
		}
		return v
	}
	return js(cv(v))
}

func (fi *finst) isEHTask(id string) bool { return fi.f.isEH[id] }

func (fi *finst) isDetached(o *oracle) bool {
	r := fi
	for r.parent != nil {
		r = r.parent
	}
	return r != o.root
}

func (o *oracle) enabled(fi *finst, id string) bool {
	ts := fi.ts[id]
	if fi.status != 0 {
		// concurrently executing tasks may just have been on their way
		return o.conc && ts.st == sReady && ts.silent == nil
	}
	if ts.st != sReady || ts.silent != nil {
		return false
	}
	if (fi.phase == 1) != fi.f.isEH[id] {
		return o.conc
	}
	return true
}

func (o *oracle) whyNot(fi *finst, id string) string {
	ts := fi.ts[id]
	st := []string{"not reached (its links are not decided or not taken)", "ready", "already running", "waiting", "already done", "already failed", "skipped"}[ts.st]
	w := fmt.Sprintf("%s/%s started although it is %s", fi.id, id, st)
	if fi.status != 0 {
		w += fmt.Sprintf(" and its flow run has ended (%s)", []string{"", "completed", "failed", "abandoned"}[fi.status])
	}
	if fi.phase == 1 && !fi.f.isEH[id] {
		w += "; the error handler is running"
	}
	if fi.phase == 0 && fi.f.isEH[id] {
		w += "; nothing failed"
	}
	return w
}

func (o *oracle) ended(fi *finst, ev *Ev) {
	t, ts := fi.f.byID[ev.Task], fi.ts[ev.Task]
	for k, v := range ev.Set {
		fi.attrs[k] = v
	}
	dead := fi.status != 0 || (fi.phase == 1) != fi.f.isEH[ev.Task]
	if dead { // concurrent mode only
		ts.st = sDone
		if ev.Err != nil {
			ts.st = sFailed
			ts.n++
			if ev.Err.Kind == "retriable" {
				o.retry(fi, t, ts) // still belongs to the same execution of the task
			}
		}
		return
	}
	switch ev.O.K {
	case "err", "aerr", "retry", "panic":
		e := ev.Err
		o.stats["err"]++
		o.recs = append(o.recs, taskRec{fi, ev.Task, ts.n, false})
		ts.n++
		ts.st = sReady
		if e.Kind != "panic" {
			if fi.phase == 0 {
				fi.attrs["_E"] = errObj(t, e)
			}
			fi.attrs["_E."+ev.Task] = errObj(t, e)
			if o.onErr != nil {
				o.onErr(fi, t)
			}
		}
		if e.Kind == "retriable" && o.retry(fi, t, ts) {
			return
		}
		o.taskFailed(fi, ev.Task, e)
	case "return", "returnerr":
		if o.conc {
			// other tasks may go on until the engine comes to it
			o.stats["return"]++
			ts.st, ts.silent = sReady, &EInfo{Kind: "return", Data: ev.Data, ret: ev.Err}
			return
		}
		fi.hasRet, fi.ret = true, ev.Data
		fi.rerr = ev.Err
		o.stats["return"]++
		out, _ := norm(outputsFor(fmt.Sprintf("%s/%s/%d", ev.Inst, ev.Task, ev.N), ev.O)).(map[string]interface{})
		o.taskOK(fi, ev.Task, out)
	default:
		if o.outFailed(fi, ev.Task, ev.Data) {
			return
		}
		o.taskOK(fi, ev.Task, ev.Data)
	}
}

// end checks the final state of the run.
func (o *oracle) end() {
	for i := 0; i < 8 && o.root.status == 0 && o.quiescent(o.root); i++ {
		if !o.firePending(o.root, false) {
			break
		}
	}
	for _, d := range o.detRoots {
		for i := 0; i < 8 && d.status == 0; i++ {
			if !o.firePending(d, false) {
				break
			}
		}
		if d.status == 0 && len(o.bad) == 0 {
			o.badf("detached run %s of %s did not finish: %s", d.id, d.f.Name, o.pendingOf(d))
		}
	}
	// a pending silent failure may have ended the run while other tasks were still waiting
	if o.root.status == 0 && len(o.results) > len(o.expReply) {
		for i := 0; i < 8 && o.root.status == 0; i++ {
			if !o.firePending(o.root, false) {
				break
			}
		}
	}
	for _, d := range o.det {
		if o.root.status == 1 && !o.root.hasRet && d.parent.status == 1 && !d.parent.hasRet && d.parent.phase == 0 && d.seen == 0 {
			o.badf("detached flow %s called by %s/%s did not run", d.flow, d.parent.id, d.host)
		}
	}
	if o.noFinal {
		return
	}
	res := o.results
	if o.conc && len(o.expReply) > 1 {
		o.matchReplies()
	}
	for i, r := range o.expReply {
		if i >= len(res) {
			o.badf("reply %s was not delivered", js(r))
			continue
		}
		if !match(r, mapOf(res[i].Data)) || res[i].Err != nil {
			o.badf("reply delivered %s, expected %s", js(res[i].Data), js(r))
		}
	}
	if len(res) > len(o.expReply) {
		res = res[len(o.expReply):]
	} else {
		res = nil
	}
	if o.limit && len(res) == 1 && res[0].Err != nil && strings.Contains(res[0].Err.Msg, "max step count") {
		if o.dones != 1 {
			o.badf("completion signalled %d times", o.dones)
		}
		return
	}
	if o.root.status == 0 {
		if len(o.bad) == 0 || o.dones == 0 {
			o.badf("run ended but work is left: %s (results: %s)", o.pendingOf(o.root), js(res))
		}
	}
	if len(res) == 0 {
		o.badf("run ended without a final result")
	}
	if len(res) > 1 {
		o.badf("%d final results delivered: %s", len(res), js(res))
	}
	if o.dones != 1 {
		o.badf("completion signalled %d times", o.dones)
	}
	if len(res) == 1 && o.root.status != 0 {
		r := res[0]
		switch o.root.status {
		case 1:
			want := o.root.result()
			if o.root.rerr != nil {
				if r.Err == nil || r.Err.Msg != o.root.rerr.Msg {
					o.badf("final error %s, expected the returned error %s", js(r.Err), js(o.root.rerr))
				}
			} else if r.Err != nil {
				o.badf("final result is error %s, expected completion with %s", js(r.Err), jsw(want))
			}
			if !o.noData && (r.Err == nil || o.root.rerr != nil) && !match(want, mapOf(r.Data)) {
				o.badf("final result %s, expected %s", js(r.Data), jsw(want))
			}
		case 2:
			e := o.root.err
			if o.asserted != nil {
				if a := o.asserted(); r.Err == nil && a > 0 {
					if len(r.Data) > 0 {
						o.badf("final result %s of a failed run", js(r.Data))
					}
					break
				} else if a == 1 {
					o.badf("final result of a run whose failure is asserted is the error %s", js(r.Err))
				}
			}
			if r.Err == nil {
				o.badf("final result %s without an error, expected the error %s", js(r.Data), js(e))
			} else if !strings.Contains(r.Err.Msg, e.Msg) {
				o.badf("final error %q, expected %q", r.Err.Msg, e.Msg)
			} else if e.Kind != "activity" && e.Kind != "retriable" {
				if r.Err.Kind == "activity" {
					o.badf("final error %s, expected %s", js(r.Err), js(e))
				}
			} else {
				if r.Err.Kind != "activity" || r.Err.Code != e.Code || !match(e.Data, r.Err.Data) || r.Err.Act != e.Act && !e.AnyAct {
					o.badf("final error %s, expected %s", js(r.Err), js(e))
				}
			}
		}
	}
}

// matchReplies puts the replies in the order of their delivery, several tasks may have replied at the same time.
func (o *oracle) matchReplies() {
	var in []map[string]interface{}
	left := append([]map[string]interface{}{}, o.expReply...)
	for _, r := range o.results {
		for i, x := range left {
			if r.Err == nil && match(x, mapOf(r.Data)) {
				in = append(in, x)
				left = append(left[:i:i], left[i+1:]...)
				break
			}
		}
	}
	o.expReply = append(in, left...)
	// any of them may be the last one
	if o.root.status == 1 && !o.root.hasRet && len(o.results) > len(o.expReply) {
		for _, x := range o.expReply {
			if match(x, mapOf(o.results[len(o.results)-1].Data)) {
				o.root.reply = x
			}
		}
	}
}

// quiescent: no task can start by itself any more.
func (o *oracle) quiescent(fi *finst) bool {
	for _, t := range fi.graph().Tasks {
		ts := fi.ts[t.ID]
		if ts.st == sRunning || (ts.st == sReady && ts.silent == nil) {
			return false
		}
		if ts.child != nil && ts.child.status == 0 && !o.quiescent(ts.child) {
			return false
		}
	}
	return true
}

func (o *oracle) pendingOf(fi *finst) string {
	var s []string
	for _, t := range fi.graph().Tasks {
		ts := fi.ts[t.ID]
		if ts.st < sDone {
			s = append(s, fi.id+"/"+t.ID+":"+[]string{"not reached", "ready", "running", "waiting"}[ts.st])
		}
		if ts.child != nil && ts.child.status == 0 {
			s = append(s, o.pendingOf(ts.child))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (o *oracle) check(evs []Ev) []string {
	if o.conc {
		var b strings.Builder
		for i := range evs {
			if e := &evs[i]; e.K == "start" && len(e.In) > 0 || e.K == "result" {
				b.WriteString(js(e.In))
				b.WriteString(js(e.Err))
			}
		}
		o.seen = b.String()
	}
	for i := range evs {
		o.event(&evs[i])
		if len(o.bad) > 3 {
			return o.bad
		}
	}
	o.end()
	return o.bad
}
