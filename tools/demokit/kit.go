package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data/expression/function"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/support/service"
	flow "github.com/project-flogo/flow"
	_ "github.com/project-flogo/flow/activity/subflow"
	"github.com/project-flogo/flow/instance"
	flowsupport "github.com/project-flogo/flow/support"

	"demo/act"
)

type M = map[string]interface{}
type L = []interface{}

var factory *flow.ActionFactory

type ictx struct {
	rm *resource.Manager
	sm *service.Manager
	rs map[string]interface{}
}

func (c *ictx) ResourceManager() *resource.Manager      { return c.rm }
func (c *ictx) ServiceManager() *service.Manager        { return c.sm }
func (c *ictx) RuntimeSettings() map[string]interface{} { return c.rs }

func setup(settings map[string]interface{}, svcs ...service.Service) {
	function.ResolveAliases()
	sm := service.NewServiceManager()
	for _, s := range svcs {
		must(sm.RegisterService(s))
	}
	factory = action.GetFactory("github.com/project-flogo/flow").(*flow.ActionFactory)
	must(factory.Initialize(&ictx{resource.NewManager(nil), sm, settings}))
	act.F = eval
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fail(f, a...)
	}
}

func eq(what string, got, want interface{}) {
	if !reflect.DeepEqual(norm(got), norm(want)) {
		fail("%s: got %s, want %s", what, js(got), js(want))
	}
}

func norm(v interface{}) interface{} {
	var r interface{}
	b, err := json.Marshal(v)
	must(err)
	_ = json.Unmarshal(b, &r)
	return r
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

const ref = "demo/act"

// task describes a task; in are its input mappings.
func task(id string, in M) M {
	t := M{"id": id, "name": id, "activity": M{"ref": ref}}
	if in != nil {
		t["activity"].(M)["input"] = in
	}
	return t
}

// call describes a task that calls a subflow.
func call(id, sub string, in M) M {
	return M{"id": id, "name": id, "activity": M{"ref": "github.com/project-flogo/flow/activity/subflow", "settings": M{"flowURI": "res://flow:" + sub}, "input": in}}
}

// link: "a>b", "a>b error", "a>b expression <cond>", "a>b exprOtherwise", "a>b label x"
func link(id int, s string) M {
	p := strings.SplitN(s, " ", 3)
	ft := strings.Split(p[0], ">")
	l := M{"id": id, "from": ft[0], "to": ft[1]}
	if len(p) > 1 {
		l["type"] = p[1]
	}
	if len(p) > 2 {
		if p[1] == "label" {
			l["label"] = p[2]
		} else {
			l["value"] = p[2]
		}
	}
	return l
}

type def struct {
	name    string
	in, out L
	tasks   L
	links   []string
	eht     L
	ehl     []string
}

func (d def) json() []byte {
	f := M{"name": d.name, "tasks": d.tasks, "metadata": M{"input": d.in, "output": d.out}}
	n := 0
	mk := func(ls []string) L {
		r := L{}
		for _, s := range ls {
			r = append(r, link(n, s))
			n++
		}
		return r
	}
	f["links"] = mk(d.links)
	if d.eht != nil {
		f["errorHandler"] = M{"tasks": d.eht, "links": mk(d.ehl)}
	}
	b, _ := json.Marshal(f)
	return b
}

func load(ds ...def) {
	for _, d := range ds {
		must(loadRaw(d.name, d.json()))
	}
}

func loadRaw(name string, b []byte) error {
	return flowsupport.SetResource([]*resource.Config{{ID: "flow:" + name, Data: b}})
}

func param(name, typ string, val ...interface{}) M {
	p := M{"name": name, "type": typ}
	if len(val) > 0 {
		p["value"] = val[0]
	}
	return p
}

// ---- execution ----

type ex struct {
	flow, inst, task string
	in               M
}

var (
	mu    sync.Mutex
	log   []ex
	hooks = map[string]func(ctx activity.Context, in M, n int) error{}
	count = map[string]int{}
)

// on defines what the task does (default: nothing, successfully); n counts executions from 0.
func on(t string, f func(ctx activity.Context, in M, n int) error) { hooks[t] = f }

func eval(ctx activity.Context, a *act.Act, in map[string]interface{}) error {
	mu.Lock()
	h := ctx.ActivityHost()
	log = append(log, ex{h.Name(), h.ID(), ctx.Name(), in})
	n := count[ctx.Name()]
	count[ctx.Name()]++
	f := hooks[ctx.Name()]
	mu.Unlock()
	if f != nil {
		return f(ctx, in, n)
	}
	return nil
}

// order returns the names of the executed tasks.
func order() string {
	mu.Lock()
	defer mu.Unlock()
	var s []string
	for _, e := range log {
		s = append(s, e.task)
	}
	return strings.Join(s, " ")
}

// inputs returns the inputs of the executions of a task.
func inputs(t string) []M {
	mu.Lock()
	defer mu.Unlock()
	var r []M
	for _, e := range log {
		if e.task == t {
			r = append(r, e.in)
		}
	}
	return r
}

func reset() {
	mu.Lock()
	log, count = nil, map[string]int{}
	mu.Unlock()
}

type res struct {
	mu      sync.Mutex
	results []M
	errs    []error
	dones   int32
	ch      chan struct{}
}

func (r *res) HandleResult(m map[string]interface{}, err error) {
	r.mu.Lock()
	r.results = append(r.results, m)
	r.errs = append(r.errs, err)
	r.mu.Unlock()
}

func (r *res) Done() {
	if atomic.AddInt32(&r.dones, 1) == 1 {
		close(r.ch)
	}
}

func (r *res) last() (M, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.results) == 0 {
		return nil, nil
	}
	return r.results[len(r.results)-1], r.errs[len(r.errs)-1]
}

func newAction(name string) action.AsyncAction {
	a, err := factory.New(&action.Config{Settings: M{"flowURI": "res://flow:" + name}})
	must(err)
	return a.(action.AsyncAction)
}

func start(a action.AsyncAction, in M, ro *instance.RunOptions) *res {
	r := &res{ch: make(chan struct{})}
	x := M{}
	for k, v := range in {
		x[k] = v
	}
	if ro != nil {
		x["_run_options"] = ro
	}
	must(a.Run(context.Background(), x, r))
	return r
}

func (r *res) wait() *res {
	select {
	case <-r.ch:
	case <-time.After(20 * time.Second):
		fail("the run does not end")
	}
	time.Sleep(20 * time.Millisecond)
	return r
}

func run(name string, in M) *res { return start(newAction(name), in, nil).wait() }

func main() {
	demo()
	fmt.Println("OK")
}
