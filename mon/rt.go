package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data/expression/function"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	flow "github.com/project-flogo/flow"
	_ "github.com/project-flogo/flow/activity/subflow"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/model/simple"
	flowsupport "github.com/project-flogo/flow/support"

	"verifmon/acall"
	_ "verifmon/lprobe"
	"verifmon/probe"
	_ "verifmon/rprobe"
	_ "verifmon/vf"
	_ "verifmon/yprobe"
	_ "verifmon/zprobe"
)

// Ev is one observed event.
type Ev struct {
	K    string                 `json:"k"` // start end result done reply
	Run  string                 `json:"run,omitempty"`
	Inst string                 `json:"inst,omitempty"`
	Flow string                 `json:"flow,omitempty"`
	Task string                 `json:"task,omitempty"`
	Name string                 `json:"name,omitempty"`
	N    int                    `json:"n"`
	In   map[string]interface{} `json:"in,omitempty"`
	O    *Out                   `json:"o,omitempty"`
	Data map[string]interface{} `json:"data,omitempty"` // outputs, returned data, result
	Set  map[string]interface{} `json:"set,omitempty"`
	Err  *EInfo                 `json:"err,omitempty"`
	Nil  bool                   `json:"nil,omitempty"`
	T    int64                  `json:"t,omitempty"`
	Cfg  string                 `json:"cfg,omitempty"`
	Span string                 `json:"span,omitempty"`
	Odd  string                 `json:"odd,omitempty"`  // the activity is not what it should be
	EvID string                 `json:"evid,omitempty"` // the originating event, as the flow run knows it
}

// EInfo describes an error as the specification sees it.
type EInfo struct {
	Kind string      `json:"kind"` // plain activity retriable panic mapper link loop
	Msg  string      `json:"msg"`
	Code string      `json:"code,omitempty"`
	Data interface{} `json:"data,omitempty"`
	Act  string      `json:"act,omitempty"` // originating activity
	// AnyAct: the name of the originating activity is not specified
	AnyAct bool   `json:"-"`
	ret    *EInfo // the error returned explicitly
}

type recorder struct {
	mu       sync.Mutex
	evs      []Ev
	cnt      map[string]int
	inst     map[string]int
	asked    map[string]string
	meet     map[string]chan struct{}
	meetc    map[string]int
	meetFail []string
}

var rec = &recorder{}

var base = time.Now()

// now is monotonic.
func now() int64 { return int64(time.Since(base)) }

func (r *recorder) reset() {
	r.mu.Lock()
	r.evs = nil
	r.cnt = map[string]int{}
	r.inst = map[string]int{}
	r.asked = map[string]string{}
	r.meet = map[string]chan struct{}{}
	r.meetc = map[string]int{}
	r.meetFail = nil
	r.mu.Unlock()
}

func (r *recorder) take() []Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	e := r.evs
	r.evs = nil
	return e
}

func (r *recorder) add(e Ev) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

var quiet bool // race mode: probes do not log
var quietCtr int64

func getCfg(a *probe.Act) *TaskCfg {
	if c, ok := a.Data.Load().(*TaskCfg); ok && c.src == a.Cfg {
		return c
	}
	c := &TaskCfg{src: a.Cfg}
	_ = json.Unmarshal([]byte(a.Cfg), c)
	a.Data.Store(c)
	return c
}

func spanOf(ctx activity.Context) string {
	if tc := ctx.GetTracingContext(); tc != nil {
		return tc.SpanID()
	}
	return ""
}

func runOf(inst string) string {
	if i := strings.IndexByte(inst, '-'); i >= 0 {
		return inst[:i]
	}
	return inst
}

var meetTimeout = 20 * time.Second

func outputsFor(prov string, o *Out) map[string]interface{} {
	m := map[string]interface{}{
		"out": prov,
		"n":   o.N,
		"b":   o.B,
		"s":   "s:" + prov,
		"m":   map[string]interface{}{"id": prov, "v": map[string]interface{}{"w": "w:" + prov, "n": o.N}, "list": []interface{}{"e0:" + prov, "e1:" + prov}},
		"x":   []interface{}{prov, o.N, o.B, nil},
		"nul": nil,
	}
	l := make([]interface{}, o.L)
	for i := range l {
		l[i] = map[string]interface{}{"id": fmt.Sprintf("l%d:%s", i, prov), "i": i}
	}
	m["l"] = l
	return m
}

// inAct counts the activities that are running.
var inAct atomic.Int64

func hook(ctx activity.Context, a *probe.Act) (bool, error) {
	var cfg *TaskCfg
	if quiet {
		cfg = &TaskCfg{}
		_ = json.Unmarshal([]byte(a.Cfg), cfg)
	} else {
		cfg = getCfg(a)
	}
	c := &probe.Capture{}
	if err := ctx.GetInputObject(c); err != nil {
		return false, err
	}
	host := ctx.ActivityHost()
	inst := host.ID()
	tag, _ := c.M["t"].(string)
	script := cfg.Scripts[tag]
	if script == nil {
		script = cfg.Scripts[""]
	}
	if quiet {
		return hookQuiet(ctx, cfg, script, host)
	}
	inAct.Add(1)
	defer inAct.Add(-1)
	in, _ := norm(c.M).(map[string]interface{})
	evid := ""
	if v, ok := host.Scope().GetValue("event.id"); ok {
		evid, _ = v.(string)
	}
	key := runOf(inst) + "|" + host.Name() + "|" + cfg.ID + "|" + tag
	ikey := inst + "|" + cfg.ID
	rec.mu.Lock()
	k := rec.cnt[key]
	rec.cnt[key]++
	n := rec.inst[ikey]
	rec.inst[ikey]++
	o := Out{K: "ok"}
	if len(script) > 0 {
		if k >= len(script) {
			k = len(script) - 1
		}
		o = script[k]
	}
	if len(rec.evs) > 100000 {
		// runaway run: stop here, the monitor reports a run that does not end
		rec.mu.Unlock()
		select {}
	}
	odd := ""
	if a.TaskName != ctx.Name() || a.FlowName != host.Name() {
		odd = fmt.Sprintf("was created for task %q of flow %q", a.TaskName, a.FlowName)
	}
	if l, ok := ctx.(activity.LegacyCtx); ok && odd == "" && n == 0 {
		var want interface{}
		if cfg.Decl {
			want = "declared by " + cfg.ID
		}
		if v := l.GetOutput("out"); v != want {
			odd = fmt.Sprintf("finds %v as its declared output, not %v", v, want)
		}
	}
	if odd == "" && cfg.Sch {
		odd = schemasSeen(ctx, cfg)
	}
	rec.evs = append(rec.evs, Ev{K: "start", Odd: odd, Inst: inst, Flow: host.Name(), Task: cfg.ID, Name: ctx.Name(), N: n, In: in, T: now(), Cfg: a.Cfg, Span: spanOf(ctx), EvID: evid})
	rec.mu.Unlock()
	prov := fmt.Sprintf("%s/%s/%d", inst, cfg.ID, n)
	end := Ev{K: "end", Inst: inst, Flow: host.Name(), Task: cfg.ID, Name: ctx.Name(), N: n, O: &o}
	if atomic.LoadInt32(&jitter) != 0 {
		yield()
	}
	if o.Sleep > 0 {
		time.Sleep(time.Duration(o.Sleep) * time.Millisecond)
	}
	if o.Gate != "" {
		if g, ok := gates.Load(o.Gate); ok {
			g.(*gate).pass()
		}
	}
	if o.Meet != "" {
		meet(runOf(inst)+o.Meet, o.MeetN)
	}
	for name, v := range o.Set {
		if end.Set == nil {
			end.Set = map[string]interface{}{}
		}
		end.Set[name] = v + ":" + prov
		_ = host.Scope().SetValue(name, v+":"+prov)
	}
	data := func() map[string]interface{} {
		d := map[string]interface{}{}
		for i, x := range o.Ret {
			if o.RetV && (inst[len(inst)-1]+byte(i))%3 != 0 {
				continue
			}
			d[x] = o.K + ":" + prov + "/" + x
		}
		return d
	}
	fin := func() {
		end.T = now()
		rec.add(end)
	}
	msg := "msg:" + o.K + ":" + prov
	var edata interface{} = map[string]interface{}{"d": prov}
	ecode := o.K[:1]
	if o.K == "aerr" {
		ecode = "c"
	}
	ecode += cfg.ID
	switch o.EV {
	case "bare":
		ecode, edata = "", nil
	case "nocode":
		ecode = ""
	case "nodata":
		edata = nil
	case "text":
		edata = prov
	case "list":
		edata = []interface{}{prov, 1, nil}
	case "fmt":
		msg += " 100% %d %s %!"
	case "lines":
		msg += "\nmore: \"ünï\" <b>\t"
	case "long":
		msg += strings.Repeat(" and so on", 500)
	case "same":
		msg, edata = "", ""
	case "index", "nilmap", "nilptr":
		if o.K == "panic" {
			err := runtimeError(o.EV)
			end.Err = &EInfo{Kind: "panic", Msg: err.Error(), Act: ctx.Name()}
			fin()
			panic(err)
		}
	case "errval":
		if o.K == "panic" {
			end.Err = &EInfo{Kind: "panic", Msg: msg, Act: ctx.Name()}
			fin()
			panic(activity.NewRetriableError(msg, "c", nil))
		}
	}
	switch o.K {
	case "err":
		end.Err = &EInfo{Kind: "plain", Msg: msg}
		fin()
		return false, errors.New(msg)
	case "aerr":
		end.Err = &EInfo{Kind: "activity", Msg: msg, Code: ecode, Data: norm(edata), Act: ctx.Name()}
		fin()
		return false, activity.NewError(msg, ecode, edata)
	case "retry":
		end.Err = &EInfo{Kind: "retriable", Msg: msg, Code: ecode, Data: norm(edata), Act: ctx.Name()}
		fin()
		return false, activity.NewRetriableError(msg, ecode, edata)
	case "panic":
		end.Err = &EInfo{Kind: "panic", Msg: msg, Act: ctx.Name()}
		fin()
		panic(msg)
	case "return", "returnerr":
		d := data()
		end.Data = norm(d).(map[string]interface{})
		setOutputs(ctx, prov, &o)
		var rerr error
		if o.K == "returnerr" {
			end.Err = &EInfo{Kind: "plain", Msg: msg}
			rerr = errors.New(msg)
		}
		fin() // from here on other tasks can see it
		host.Return(d, rerr)
		return true, nil
	case "reply":
		d := data()
		rec.add(Ev{K: "reply", Inst: inst, Flow: host.Name(), Task: cfg.ID, N: n, Data: norm(d).(map[string]interface{})})
		host.Reply(d, nil)
	}
	end.Data = norm(setOutputs(ctx, prov, &o)).(map[string]interface{})
	fin()
	return true, nil
}

func init() {
	acall.EvalHook = func(ctx activity.Context, a *acall.Act) {
		t, _ := ctx.GetInput("t").(string)
		rec.mu.Lock()
		if rec.asked == nil {
			rec.asked = map[string]string{}
		}
		rec.asked[ctx.ActivityHost().ID()+"|"+a.Post] = t
		rec.mu.Unlock()
	}
	acall.Hook = func(ctx activity.Context, a *acall.Act) (bool, error) {
		p := &Post{}
		_ = json.Unmarshal([]byte(a.Post), p)
		t, _ := ctx.GetInput("t").(string)
		id := ctx.ActivityHost().ID()
		rec.mu.Lock()
		if rec.inst == nil {
			rec.inst = map[string]int{}
		}
		n := rec.inst[id+"|post|"+p.ID]
		rec.inst[id+"|post|"+p.ID]++
		asked := rec.asked[id+"|"+a.Post]
		rec.mu.Unlock()
		if asked != t || ctx.Name() != a.Name {
			return false, fmt.Errorf("task %s sees itself as %s and %q as its input, not %q, after the call", a.Name, ctx.Name(), t, asked)
		}
		msg := p.value()
		switch p.kind(n) {
		case "set":
			_ = ctx.SetOutput(p.Out, msg)
		case "err":
			return false, errors.New(msg)
		case "aerr":
			return false, activity.NewError(msg, "p"+p.ID, map[string]interface{}{"p": msg})
		case "retry":
			return false, activity.NewRetriableError(msg, "p"+p.ID, map[string]interface{}{"p": msg})
		case "panic":
			panic(msg)
		}
		return true, nil
	}
}

func setOutputs(ctx activity.Context, prov string, o *Out) map[string]interface{} {
	m := outputsFor(prov, o)
	for k, v := range m {
		_ = ctx.SetOutput(k, v)
		if l, ok := ctx.(activity.LegacyCtx); ok && js(l.GetOutput(k)) != js(v) {
			m[k] = fmt.Sprintf("(output %s, set to %s, reads %s)", k, js(v), js(l.GetOutput(k)))
		}
	}
	return m
}

// hookQuiet executes a script without any synchronisation of the harness.
func hookQuiet(ctx activity.Context, cfg *TaskCfg, script []Out, host activity.Host) (bool, error) {
	o := Out{K: "ok"}
	if len(script) > 0 {
		o = script[0]
	}
	if o.Sleep > 0 {
		time.Sleep(time.Duration(o.Sleep) * time.Millisecond)
	}
	prov := host.ID() + "/" + cfg.ID
	switch o.K {
	case "err":
		return false, errors.New("msg:" + prov)
	case "aerr":
		return false, activity.NewError("msg:"+prov, "c", map[string]interface{}{"d": prov})
	case "panic":
		panic("msg:" + prov)
	}
	for name, v := range o.Set {
		_ = host.Scope().SetValue(name, v+":"+prov)
	}
	if o.K == "return" {
		d := map[string]interface{}{}
		for _, x := range o.Ret {
			d[x] = "return:" + prov + "/" + x
		}
		host.Return(d, nil)
	}
	setOutputs(ctx, prov, &o)
	return true, nil
}

func meet(key string, n int) {
	rec.mu.Lock()
	ch := rec.meet[key]
	if ch == nil {
		ch = make(chan struct{})
		rec.meet[key] = ch
	}
	rec.meetc[key]++
	if rec.meetc[key] == n {
		close(ch)
	}
	rec.mu.Unlock()
	select {
	case <-ch:
	case <-time.After(meetTimeout):
		rec.mu.Lock()
		rec.meetFail = append(rec.meetFail, key)
		rec.mu.Unlock()
	}
}

// ---------- engine ----------

var resMgr *resource.Manager
var factory *flow.ActionFactory

type initCtx struct {
	sm *service.Manager
	rs map[string]interface{}
}

func (c *initCtx) ResourceManager() *resource.Manager      { return resMgr }
func (c *initCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{} { return c.rs }

// ownModel is a flow model of ours.
const ownModel = "mon-model"

func setupEngine(services []service.Service, settings map[string]interface{}) {
	lvl := log.ErrorLevel
	if os.Getenv("MON_LOG") == "" {
		lvl = log.ErrorLevel + 1
	}
	_ = lvl
	probe.Hook = hook
	m := model.New(ownModel)
	m.RegisterFlowBehavior(&simple.FlowBehavior{})
	m.RegisterDefaultTaskBehavior("basic", &simple.TaskBehavior{})
	m.RegisterTaskBehavior("iterator", &simple.IteratorTaskBehavior{})
	m.RegisterTaskBehavior("doWhile", &simple.DoWhileTaskBehavior{})
	model.Register(m)
	function.ResolveAliases()
	resMgr = resource.NewManager(nil)
	sm := service.NewServiceManager()
	for _, s := range services {
		if err := sm.RegisterService(s); err != nil {
			panic(err)
		}
	}
	factory = action.GetFactory("github.com/project-flogo/flow").(*flow.ActionFactory)
	if err := factory.Initialize(&initCtx{sm: sm, rs: settings}); err != nil {
		panic(err)
	}
}

func loadFlow(f *Flow) error {
	return loadRaw(f.Name, f.JSON())
}

func loadRaw(name string, b []byte) error {
	return flowsupport.SetResource([]*resource.Config{{ID: "flow:" + name, Data: b}})
}

func newAction(name string) (action.Action, error) {
	return factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": flowURI(name)}})
}

type handler struct {
	run  string
	once chan struct{}
	n    int32
}

func newHandler(run string) *handler { return &handler{run: run, once: make(chan struct{})} }

// runtimeError is what the Go runtime panics with.
func runtimeError(kind string) (err error) {
	defer func() { err = recover().(error) }()
	switch kind {
	case "index":
		var l []int
		_ = l[len(kind)]
	case "nilmap":
		var m map[string]int
		m[kind] = 1
	}
	var p *Ev
	_ = p.K
	return nil
}

func errInfo(err error) *EInfo {
	if err == nil {
		return nil
	}
	if ae, ok := err.(*activity.Error); ok {
		return &EInfo{Kind: "activity", Msg: ae.Error(), Code: ae.Code(), Data: norm(ae.Data()), Act: ae.ActivityName()}
	}
	return &EInfo{Kind: "plain", Msg: err.Error()}
}

func (h *handler) HandleResult(results map[string]interface{}, err error) {
	e := Ev{K: "result", Run: h.run, Err: errInfo(err), Nil: results == nil}
	if results != nil {
		e.Data = norm(results).(map[string]interface{})
	}
	rec.add(e)
}

func (h *handler) Done() {
	rec.add(Ev{K: "done", Run: h.run, T: now()})
	if atomic.AddInt32(&h.n, 1) == 1 {
		close(h.once)
	}
}

type Scenario struct {
	Flows   []*Flow                `json:"flows"`
	Inputs  map[string]interface{} `json:"inputs"` // of the first flow
	Note    string                 `json:"note,omitempty"`
	EventID string                 `json:"eventId,omitempty"`
}

var hangTimeout = 30 * time.Second

type runOpts struct {
	id    string
	exec  *instance.ExecOptions
	ctx   context.Context
	retID bool
	rerun bool
}

// startRun starts one run of the action.
// goTyped makes lists of strings and of integers what a trigger written in Go
// may pass: slices of that type, with room to grow; and numbers int64.
func goTyped(v interface{}) interface{} {
	if n, ok := norm(v).(float64); ok {
		return int64(n)
	}
	l, ok := v.([]interface{})
	if !ok || len(l) == 0 {
		return v
	}
	ss, is := make([]string, 0, len(l)+3), make([]int, 0, len(l)+3)
	for _, x := range l {
		switch t := norm(x).(type) {
		case string:
			ss = append(ss, t)
		case float64:
			is = append(is, int(t))
		}
	}
	if len(ss) == len(l) {
		return ss
	}
	if len(is) == len(l) {
		return is
	}
	return v
}

func startRun(act action.Action, in map[string]interface{}, o runOpts) (*handler, error) {
	h := newHandler(o.id)
	inputs := map[string]interface{}{}
	for k, v := range in {
		inputs[k] = v
	}
	if x, ok := inputs["x1"]; ok {
		inputs["x1"] = goTyped(x)
	}
	inputs["_run_options"] = &instance.RunOptions{Op: instance.OpStart, PreservedInstanceId: o.id, ExecOptions: o.exec, ReturnID: o.retID, Rerun: o.rerun}
	ctx := o.ctx
	if ctx == nil {
		ctx = context.Background()
	}
	err := act.(action.AsyncAction).Run(ctx, inputs, h)
	return h, err
}

func (h *handler) wait(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-h.once:
		return true
	case <-t.C:
		return false
	}
}
