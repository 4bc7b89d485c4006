package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	flowsupport "github.com/project-flogo/flow/support"
)

// Instances saved between two steps and restored from the saved state.

type savedDoc struct {
	ID        string                 `json:"id"`
	Status    int                    `json:"status"`
	FlowURI   string                 `json:"flowUri"`
	Attrs     map[string]interface{} `json:"attrs"`
	WorkQueue []struct {
		ID        int    `json:"id"`
		TaskID    string `json:"taskID"`
		SubFlowID int    `json:"subFlowId"`
	} `json:"workQueue"`
	Tasks []struct {
		ID     string `json:"id"`
		Status int    `json:"status"`
	} `json:"tasks"`
	Links []struct {
		ID     int `json:"linkId"`
		Status int `json:"status"`
	} `json:"links"`
	SubFlows []interface{} `json:"subFlows"`
}

type savePoint struct {
	step  int
	n     int // events before
	raw   []byte
	doc   savedDoc
	cnt   map[string]int
	inst  map[string]int
	plain bool // no subflow call and no loop in progress
}

func copyCnt(m map[string]int) map[string]int {
	r := make(map[string]int, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// restoreAt lets the probes continue as they were at the save point.
func (r *recorder) restoreAt(p *savePoint) {
	r.reset()
	r.mu.Lock()
	r.cnt, r.inst = copyCnt(p.cnt), copyCnt(p.inst)
	r.mu.Unlock()
}

func savePointOf(inst *instance.IndependentInstance, f *Flow, step int) (*savePoint, error) {
	if f.byID == nil {
		f.index()
	}
	b, err := json.Marshal(inst)
	if err != nil {
		return nil, err
	}
	p := &savePoint{step: step, raw: b}
	if err := json.Unmarshal(b, &p.doc); err != nil {
		return nil, err
	}
	rec.mu.Lock()
	p.n, p.cnt, p.inst = len(rec.evs), copyCnt(rec.cnt), copyCnt(rec.inst)
	rec.mu.Unlock()
	p.plain = p.doc.Status == int(model.FlowStatusActive) && len(p.doc.SubFlows) == 0
	for _, ti := range p.doc.Tasks {
		if ti.Status == int(model.TaskStatusWaiting) {
			p.plain = false
		}
		if t := f.byID[ti.ID]; t != nil && t.Type != "" {
			// any of its executions would be repeated
			for k, n := range p.inst {
				if n > 0 && strings.HasSuffix(k, "|"+ti.ID) && strings.HasPrefix(k, p.doc.ID+"|") {
					p.plain = false
				}
			}
			if t.Sub != "" {
				p.plain = false
			}
		}
	}
	return p, nil
}

// sortSaved makes the lists whose order is not specified comparable.
func sortSaved(raw []byte) map[string]interface{} {
	var m map[string]interface{}
	_ = json.Unmarshal(raw, &m)
	var srt func(m map[string]interface{})
	srt = func(m map[string]interface{}) {
		for _, k := range []string{"subFlows", "tasks", "links"} {
			l, _ := m[k].([]interface{})
			for _, x := range l {
				if x, ok := x.(map[string]interface{}); ok {
					srt(x)
				}
			}
			sort.Slice(l, func(i, j int) bool { return js(l[i]) < js(l[j]) })
		}
	}
	srt(m)
	return m
}

func saveDef(c *Case, name string) *instanceDef {
	def, _, err := flowsupport.GetDefinition(flowURI(name))
	if err != nil || def == nil {
		c.badf("flow not found: %v", err)
		return nil
	}
	return &instanceDef{name: name, mk: func(id string) (*instance.IndependentInstance, error) {
		return instance.NewIndependentInstance(id, flowURI(name), def, instance.NewStateInstanceRecorder(nil, state.RecordingModeOff, false), log.RootLogger())
	}}
}

type instanceDef struct {
	name string
	mk   func(id string) (*instance.IndependentInstance, error)
}

// finishRun reports the outcome like the action does.
func finishRun(inst *instance.IndependentInstance, h *handler) {
	switch inst.Status() {
	case model.FlowStatusCompleted:
		d, err := inst.GetReturnData()
		h.HandleResult(d, err)
	case model.FlowStatusFailed:
		h.HandleResult(nil, inst.GetError())
	}
	h.Done()
}

// reload restores an instance from its saved state.
func reload(c *Case, p *savePoint) *instance.IndependentInstance {
	inst := &instance.IndependentInstance{}
	if err := json.Unmarshal(p.raw, inst); err != nil {
		c.badf("the saved state cannot be read: %v\n%s", err, p.raw)
		return nil
	}
	b, err := json.Marshal(inst)
	if err != nil {
		c.badf("the restored instance cannot be saved: %v", err)
		return nil
	}
	if a, x := sortSaved(p.raw), sortSaved(b); !reflect.DeepEqual(a, x) {
		c.badf("the restored instance is saved as %s, it was read from %s", js(x), js(a))
	}
	if inst.Status() != model.FlowStatus(p.doc.Status) || inst.FlowURI() != p.doc.FlowURI {
		c.badf("the restored instance has status %d and flow %s", inst.Status(), inst.FlowURI())
	}
	c.stat("reloaded", 1)
	return inst
}

// stepRun runs an instance step by step and saves it before every step. With hop it
// goes on with an instance restored from the last state.
func stepRun(c *Case, sc *Scenario, id string, hop func() bool) (points []*savePoint, ok bool) {
	d := saveDef(c, sc.Flows[0].Name)
	if d == nil {
		return nil, false
	}
	inst, err := d.mk(id)
	if err != nil {
		c.badf("instance refused: %v", err)
		return nil, false
	}
	rec.reset()
	h := newHandler(id)
	inst.SetResultHandler(h)
	in := map[string]interface{}{}
	for k, v := range sc.Inputs {
		in[k] = v
	}
	inst.Start(in)
	for step := 0; ; step++ {
		p, err := savePointOf(inst, sc.Flows[0], step)
		if err != nil {
			c.badf("the instance cannot be saved: %v", err)
			return points, false
		}
		points = append(points, p)
		if inst.Status() != model.FlowStatusActive {
			break
		}
		if step > 5000 {
			c.badf("the run does not end")
			return points, false
		}
		if hop != nil && p.plain && hop() {
			x := reload(c, p)
			if x == nil {
				return points, false
			}
			if err := x.Restart(log.RootLogger(), id, -1+c.R.Intn(3)); err != nil {
				c.badf("restart refused: %v\n%s", err, p.raw)
				return points, false
			}
			c.stat("hops", 1)
			inst = x
			inst.SetResultHandler(h)
		}
		if !inst.DoStep() {
			break
		}
	}
	finishRun(inst, h)
	return points, true
}

func saveOracle(sc *Scenario, id string) func() *oracle {
	return func() *oracle {
		o := saveOracle0(sc, id)
		o.start(sc.Flows[0], sc.Inputs)
		return o
	}
}

func saveOracle0(sc *Scenario, id string) *oracle {
	o := newOracle(sc.Flows, id)
	o.conc = concMode()
	o.prio = os.Getenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK") == "true"
	return o
}

func saveOpt(c *Case) genOpt {
	o := mixOpt(c)
	o.BigMax = 40
	o.MaxT = imin(o.MaxT, 10)
	o.PReply, o.PEmpty, o.PDet, o.PSleep = 0, 0, 0, 0
	o.PStart = oneOf(c, 0.05, 0.3)
	o.PJoin = oneOf(c, 0.2, 0.5)
	o.Kinds = oneOf(c, 0.2, 0.6)
	if c.R.Intn(3) == 0 {
		o.PSub = 0
	}
	if c.R.Intn(3) == 0 {
		o.PErr, o.PEH, o.PErrLink = 0.3, 0.8, 0.5
		o.EHMax = 6
	}
	if concMode() {
		calm(&o)
	}
	return o
}

// stable: the order of what follows the save point is settled.
func stable(sc *Scenario, id string, suffix []Ev) bool {
	if concMode() {
		return false
	}
	for _, f := range sc.Flows {
		for _, g := range f.graphs() {
			for _, t := range g.Tasks {
				if t.Type == "iterator" {
					return false
				}
			}
		}
	}
	eh := sc.Flows[0].EH
	for _, e := range suffix {
		if e.Inst != "" && e.Inst != id {
			return false
		}
		if eh != nil && len(eh.Tasks) > 1 && (e.Err != nil || sc.Flows[0].isEH[e.Task]) {
			// the tasks of the handler start in any order
			return false
		}
	}
	return len(suffix) > 0
}

func evLine(e *Ev) string {
	return js([]interface{}{e.K, e.Inst, e.Task, e.N, e.In, e.Data, e.Err, e.Set})
}

func sameRun(a, b []Ev) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = evLine(&a[i])
		}
		if i < len(b) {
			y = evLine(&b[i])
		}
		if x != y {
			return fmt.Sprintf("event %d is %s, without the interruption it is %s", i, y, x)
		}
	}
	return ""
}

// bump returns another value of the same type.
func bump(v interface{}) (interface{}, bool) {
	switch x := v.(type) {
	case string:
		return x + "'", true
	case int:
		return x + 7, true
	case bool:
		return !x, true
	}
	return nil, false
}

func runState(act action.Action, inst *instance.IndependentInstance, ro *instance.RunOptions, in map[string]interface{}, id string) (h *handler, err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	h = newHandler(id)
	ro.InitialState = inst
	inputs := map[string]interface{}{"_run_options": ro}
	for k, v := range in {
		inputs[k] = v
	}
	err = act.(action.AsyncAction).Run(context.Background(), inputs, h)
	return
}

func init() {
	families["save"] = func(c *Case) {
		g := newGen(c.Seed, fmt.Sprintf("save%d", c.Idx), saveOpt(c))
		sc := g.scenario()
		if !loadScenario(c, sc) {
			return
		}
		id := fmt.Sprintf("s%d", c.Idx)
		var detail []interface{}
		c.Detail = &detail
		fail := func(what string, p *savePoint, evs []Ev) {
			detail = append(detail, map[string]interface{}{"what": what, "point": p, "raw": rawJSON(p.raw), "scenario": sc, "flow": flowJSONs(sc), "events": evs, "pretty": pretty(sc, evs)})
		}
		points, ok := stepRun(c, sc, id, nil)
		evs := rec.take()
		if !ok {
			return
		}
		mk := saveOracle(sc, id)
		o, bad := explain(mk, evs)
		if len(bad) > 0 {
			c.Bad = append(c.Bad, bad...)
			fail("uninterrupted", points[0], evs)
			return
		}
		c.stat("steps", len(points))
		c.stat("events", len(evs))
		c.Sig = hashOf(shape(sc, evs, id))
		act, err := newAction(sc.Flows[0].Name)
		if err != nil {
			c.badf("action refused: %v", err)
			return
		}
		eager := false
		for _, f := range sc.Flows {
			for _, gr := range f.graphs() {
				for _, t := range gr.Tasks {
					if t.Type == "iterator" || t.SetExpr != nil {
						eager = true
					}
				}
			}
		}
		judge := func(what string, p *savePoint, suffix []Ev, mk func() *oracle, same bool) bool {
			all := append(append([]Ev{}, evs[:p.n]...), suffix...)
			_, bad := explain(mk, all)
			if len(bad) == 0 && same && stable(sc, id, evs[p.n:]) {
				c.stat("same", 1)
				if d := sameRun(evs[p.n:], suffix); d != "" {
					bad = append(bad, d)
				}
			}
			if len(bad) > 0 {
				for _, b := range bad {
					c.badf("%s from the state saved before step %d: %s", what, p.step, b)
				}
				fail(what, p, all)
			}
			return len(bad) == 0
		}
		_ = o
		// save points
		var pick []*savePoint
		for _, p := range points {
			if p.doc.Status == int(model.FlowStatusActive) {
				pick = append(pick, p)
			}
		}
		c.R.Shuffle(len(pick), func(i, j int) { pick[i], pick[j] = pick[j], pick[i] })
		max := 4
		if c.Tier != "quick" {
			max = 12
		}
		for _, p := range pick {
			if max--; max < 0 || len(c.Bad) > 0 {
				break
			}
			inst := reload(c, p)
			if inst == nil {
				fail("reload", p, evs)
				return
			}
			ro := &instance.RunOptions{Op: instance.OpRestart, PreservedInstanceId: id}
			what := "restart"
			switch c.R.Intn(3) {
			case 0:
				ro.InitStepId = p.step + 1
				what = "restart at a step"
			case 1:
				if p.plain {
					ro = &instance.RunOptions{Op: instance.OpResume}
					what = "resume"
				}
			}
			ro.FlowURI = []string{"", flowURI(sc.Flows[0].Name)}[c.R.Intn(2)]
			var upd map[string]interface{}
			if !eager && c.R.Intn(4) == 0 {
				for k, v := range sc.Inputs {
					if x, ok := bump(v); ok && k != "t" && k != "p" && k != "e" && c.R.Intn(2) == 0 {
						if upd == nil {
							upd = map[string]interface{}{}
						}
						upd[k] = x
					}
				}
			}
			rec.restoreAt(p)
			h, err, pan := runState(act, inst, ro, upd, id)
			if pan != nil {
				c.badf("%s panicked: %v", what, pan)
				fail(what, p, evs)
				return
			}
			if err != nil {
				if p.plain {
					c.badf("%s from the state saved before step %d was refused: %v", what, p.step, err)
					fail(what, p, evs)
					return
				}
				quietDown()
				if x := rec.take(); len(x) > 0 {
					c.badf("the refused %s executed %s", what, js(x))
					fail(what, p, x)
				}
				c.stat("refused", 1)
				continue
			}
			if !h.wait(hangTimeout) {
				c.Hang = true
				c.badf("%s from the state saved before step %d did not end", what, p.step)
				fail(what, p, rec.take())
				return
			}
			quietDown()
			suffix := rec.take()
			if !p.plain {
				c.stat("partial", 1)
				continue
			}
			mk1 := mk
			if upd != nil {
				suffix = append([]Ev{{K: "attrs", Inst: id, Data: norm(upd).(map[string]interface{})}}, suffix...)
				c.stat("updated", 1)
			}
			c.stat(strings.ReplaceAll(what, " ", ""), 1)
			if p.n > 0 && p.n < len(evs) {
				c.NonTriv = true
			}
			if sortSaved(p.raw)["handlingError"] == true {
				c.stat("inhandler", 1)
			}
			if len(p.doc.WorkQueue) > 1 {
				c.stat("queued", 1)
			}
			if !judge(what, p, suffix, mk1, upd == nil) {
				return
			}
		}
		if c.R.Intn(2) == 0 && len(c.Bad) == 0 {
			// a live instance that is continued by the action
			n := c.R.Intn(len(points))
			d := saveDef(c, sc.Flows[0].Name)
			inst, _ := d.mk(id)
			rec.reset()
			in := map[string]interface{}{}
			for k, v := range sc.Inputs {
				in[k] = v
			}
			inst.Start(in)
			for i := 0; i < n && inst.Status() == model.FlowStatusActive; i++ {
				inst.DoStep()
			}
			if inst.Status() == model.FlowStatusActive {
				h, err, pan := runState(act, inst, &instance.RunOptions{Op: instance.OpResume}, nil, id)
				if err != nil || pan != nil {
					c.badf("resume of a live instance: %v %v", err, pan)
					return
				}
				if !h.wait(hangTimeout) {
					c.Hang = true
					c.badf("resumed live instance did not end")
					return
				}
				quietDown()
				all := rec.take()
				if _, bad := explain(mk, all); len(bad) > 0 {
					for _, b := range bad {
						c.badf("resume of a live instance after %d steps: %s", n, b)
					}
					fail("live", points[0], all)
				}
				c.stat("live", 1)
			}
		}
		if len(c.Bad) > 0 {
			return
		}
		// restored again and again
		p := oneOf(c, 1, 0.4)
		_, ok = stepRun(c, sc, id, func() bool { return c.R.Float64() < p })
		all := rec.take()
		if !ok {
			fail("hops", points[0], all)
			return
		}
		if _, bad := explain(mk, all); len(bad) > 0 {
			for _, b := range bad {
				c.badf("restored repeatedly: %s", b)
			}
			fail("hops", points[0], all)
		}
	}
	families["savebad"] = saveBad
	props["C16"] = &PropDef{ID: "C16", Rule: "random flows run step by step and saved before every step; the run is continued from the saved states (restart, restart at a step, resume, restored again before every step) and the prefix and the continuation are judged as one run; non-trivial if a state with work before and after it was continued, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "save", N: size(q, 5000, 80000)}, {Fam: "savebad", N: size(q, 3000, 60000)},
				{Fam: "save", N: size(q, 800, 8000), Arg: "prio", Env: []string{"FLOGO_TASK_PRIORITIZE_EXPR_LINK=true", "FLOGO_LOG_CTX=true"}},
				{Fam: "savebad", N: size(q, 500, 4000), Arg: "ctx", Env: []string{"FLOGO_LOG_CTX=true"}}}
		}}
}

// saveBad damages saved states. The damages that leave nothing to continue must be
// refused, with the others nothing may panic and the caller is told about the end.
func saveBad(c *Case) {
	pre := fmt.Sprintf("sbad%s%d", c.Arg, c.Idx)
	o := saveOpt(c)
	o.PSub = 0.3
	sc := newGen(c.Seed, pre, o).scenario()
	other := newGen(c.Seed+1, pre+"o", genOpt{MinT: 1, MaxT: 2}).scenario()
	if !loadScenario(c, sc) || !loadScenario(c, other) {
		return
	}
	id := fmt.Sprintf("s%d", c.Idx)
	points, ok := stepRun(c, sc, id, nil)
	rec.take()
	if !ok {
		return
	}
	act, err := newAction(sc.Flows[0].Name)
	if err != nil {
		c.badf("action refused: %v", err)
		return
	}
	r := c.R
	var sig []string
	for k := 0; k < 12 && len(c.Bad) == 0; k++ {
		p := points[r.Intn(len(points))]
		var m map[string]interface{}
		_ = json.Unmarshal(p.raw, &m)
		list := func(k string) []interface{} { l, _ := m[k].([]interface{}); return l }
		must := true // it has to be refused
		raw := []byte(nil)
		what := ""
		pickOf := func(k string) (int, bool) {
			l := list(k)
			if len(l) == 0 {
				m[k] = append(l, nil)
				return 0, false
			}
			return r.Intn(len(l)), true
		}
		switch kind := r.Intn(14); kind {
		case 0:
			what = oneOfS(c, "tasks", "links", "workQueue", "subFlows")
			i, ok := pickOf(what)
			if ok {
				list(what)[i] = nil
			}
			what = "null in " + what
		case 1:
			what = "work item of an unknown task"
			if i, ok := pickOf("workQueue"); ok {
				list("workQueue")[i].(map[string]interface{})["taskID"] = oneOfS(c, "nope", "", "T0")
			} else {
				list("workQueue")[i] = map[string]interface{}{"id": 3, "taskID": "nope"}
			}
		case 2:
			what = "work item of an unknown subflow"
			x := map[string]interface{}{"id": 3, "taskID": "t0", "subFlowId": 1000 + r.Intn(3)}
			m["workQueue"] = append(list("workQueue"), x)
		case 3:
			what = "unknown task"
			m["tasks"] = append(list("tasks"), map[string]interface{}{"id": oneOfS(c, "nope", ""), "status": 10 * r.Intn(5)})
		case 4:
			what = "unknown link"
			m["links"] = append(list("links"), map[string]interface{}{"linkId": []int{-1, 9999}[r.Intn(2)], "status": r.Intn(3)})
		case 5:
			what = "unknown flow"
			m["flowUri"] = oneOfS(c, "res://flow:"+pre+"nope", "", "bogus", "res://", "file:///nonexistent/x.json")
		case 6:
			what = "no flow"
			delete(m, "flowUri")
		case 7:
			what = "state of another flow"
			m["flowUri"] = flowURI(other.Flows[0].Name)
			of := other.Flows[0]
			of.index()
			must = false
			for _, t := range p.doc.Tasks {
				if of.byID[t.ID] == nil {
					must = true
				}
			}
		case 8:
			f := oneOfS(c, "tasks", "links", "workQueue", "attrs", "status", "id", "subFlows")
			what = "wrong type of " + f
			m[f] = []interface{}{true, 1.5, []interface{}{1}, "x", map[string]interface{}{"a": []interface{}{}}}[r.Intn(4)]
			switch m[f].(type) {
			case string:
				must = f != "id"
			}
			if f == "attrs" {
				if _, ok := m[f].(map[string]interface{}); ok {
					must = false
				}
			}
		case 9:
			what = "cut off"
			raw = p.raw[:r.Intn(len(p.raw))]
		case 10:
			what = "not an object"
			raw = []byte(oneOfS(c, "null", "{}", "[]", "5", "\"x\"", ""))
		default:
			// anything goes, as long as nothing panics
			must = false
			for n := 1 + r.Intn(3); n > 0; n-- {
				what += " " + mangle(c, m)
			}
		}
		if raw == nil {
			raw, _ = json.Marshal(m)
		}
		ro := &instance.RunOptions{Op: instance.OpRestart, PreservedInstanceId: id, InitStepId: r.Intn(3)}
		if r.Intn(3) == 0 {
			ro = &instance.RunOptions{Op: instance.OpResume}
		}
		rec.restoreAt(p)
		sig = append(sig, strings.Fields(what + " x")[0])
		bad := func(f string, a ...interface{}) {
			c.badf("%s (%s): %s", what, raw, fmt.Sprintf(f, a...))
			c.Detail = map[string]interface{}{"raw": string(raw), "flow": flowJSONs(sc)}
		}
		inst := &instance.IndependentInstance{}
		uerr, pan := func() (err error, pan interface{}) {
			defer func() { pan = recover() }()
			return json.Unmarshal(raw, inst), nil
		}()
		if pan != nil {
			bad("reading it panics: %v", pan)
			return
		}
		if uerr != nil {
			c.stat("unreadable", 1)
			continue
		}
		if string(raw) == "null" {
			// what a request without a state leaves
			inst = nil
		}
		h, err, pan := runState(act, inst, ro, nil, id)
		if pan != nil {
			bad("running it panics: %v", pan)
			return
		}
		if err != nil {
			quietDown()
			if x := rec.take(); len(x) > 0 {
				bad("it is refused (%v), but executes %s", err, js(x))
				return
			}
			c.stat("refused", 1)
			continue
		}
		if !h.wait(hangTimeout) {
			c.Hang = true
			bad("the run does not end")
			return
		}
		quietDown()
		x := rec.take()
		if must {
			bad("it is not refused: %s", js(x))
			return
		}
		c.stat("accepted", 1)
		done := 0
		for _, e := range x {
			if e.K == "done" {
				done++
			}
		}
		if done != 1 {
			bad("completion signalled %d times", done)
		}
	}
	c.Sig = hashOf(shape(sc, nil, id) + strings.Join(sig, ","))
	c.NonTriv = true
}

func oneOfS(c *Case, s ...string) string { return s[c.R.Intn(len(s))] }

// mangle changes one value somewhere in the document.
func mangle(c *Case, m map[string]interface{}) string {
	r := c.R
	k := sortedKeys(m)
	if len(k) == 0 {
		return ""
	}
	key := k[r.Intn(len(k))]
	switch x := m[key].(type) {
	case map[string]interface{}:
		if r.Intn(3) > 0 {
			return key + "." + mangle(c, x)
		}
	case []interface{}:
		if len(x) > 0 && r.Intn(4) > 0 {
			i := r.Intn(len(x))
			if y, ok := x[i].(map[string]interface{}); ok && r.Intn(3) > 0 {
				return key + "." + mangle(c, y)
			}
			if r.Intn(2) == 0 {
				m[key] = append(x, x[i])
				return key + " twice"
			}
			m[key] = append(append([]interface{}{}, x[:i]...), x[i+1:]...)
			return key + " without one"
		}
	case float64:
		m[key] = []interface{}{0, 10, 20, 30, 40, 50, 100, -1, 1, 2}[r.Intn(10)]
		return key + "=" + js(m[key])
	}
	if r.Intn(2) == 0 {
		delete(m, key)
		return "no " + key
	}
	m[key] = []interface{}{nil, 1, "t1", false}[r.Intn(4)]
	return key + "=" + js(m[key])
}
