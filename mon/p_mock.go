package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/coerce"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support"
)

// Interceptors: mocks, input overrides, assertions and coverage.

// icept is what one case plans for a task.
type icept struct {
	Flow   string                 `json:"flow,omitempty"` // empty: applies to the task of every flow
	Task   string                 `json:"task"`
	Type   int                    `json:"type,omitempty"`
	Skip   bool                   `json:"skip,omitempty"` // execution is skipped
	In     map[string]interface{} `json:"in,omitempty"`
	Out    map[string]interface{} `json:"out,omitempty"`
	WantI  map[string]interface{} `json:"wantIn,omitempty"`
	WantO  map[string]interface{} `json:"wantOut,omitempty"`
	BadO   string                 `json:"badOut,omitempty"` // why an output cannot be what it should be
	Assert []*Expr                `json:"assert,omitempty"` // nil entry: empty expression
	Bad    map[int]string         `json:"bad,omitempty"`    // expressions that are no expressions
}

type mockPlan struct {
	Tasks    []*icept `json:"tasks"`
	Coverage bool     `json:"coverage,omitempty"`
	IO       bool     `json:"io,omitempty"`
}

func (p *mockPlan) find(flow, task string) *icept {
	for _, t := range p.Tasks {
		if t.Flow == flow && t.Task == task {
			return t
		}
	}
	return nil
}

// interceptor builds what the engine gets.
func (p *mockPlan) interceptor() *support.Interceptor {
	i := &support.Interceptor{CollectIO: p.IO}
	if p.Coverage {
		i.Coverage = &support.Coverage{}
	}
	for _, t := range p.Tasks {
		x := &support.TaskInterceptor{ID: t.Task, Type: t.Type}
		if t.Flow != "" {
			x.ID = t.Flow + "-" + t.Task
			x.SkipExecution = t.Skip
		} else {
			x.Skip = t.Skip
		}
		cp := func(m map[string]interface{}) map[string]interface{} {
			if m == nil {
				return nil
			}
			b, _ := json.Marshal(m)
			var r map[string]interface{}
			_ = json.Unmarshal(b, &r)
			return r
		}
		x.Inputs, x.Outputs = cp(t.In), cp(t.Out)
		for k, e := range t.Assert {
			a := support.Assertion{ID: fmt.Sprint(k), Name: fmt.Sprintf("a%d", k), Type: support.Primitive, Expression: ""}
			if e != nil {
				a.Expression = e.src()
			}
			if b, ok := t.Bad[k]; ok {
				a.Expression = b
			}
			x.Assertions = append(x.Assertions, a)
		}
		i.TaskInterceptors = append(i.TaskInterceptors, x)
	}
	return i
}

// mockVal returns a value for an output or input and what it becomes there.
func (g *gen) mockVal(name, u string) (give, want interface{}, ok bool) {
	switch name {
	case "out", "s", "t":
		if g.p(0.1) {
			return 12, "12", true
		}
		return u, u, true
	case "n", "i":
		if g.p(0.2) {
			return "7", 7.0, true
		}
		v := g.n(0, 9)
		return v, float64(v), true
	case "b!", "f":
		if g.p(0.2) {
			return "true", true, true
		}
		v := g.p(0.5)
		return v, v, true
	case "g":
		return 2.5, 2.5, true
	case "m":
		m := map[string]interface{}{"id": u, "v": map[string]interface{}{"w": "w" + u, "n": 1}, "list": []interface{}{"a" + u, "b" + u}}
		return m, norm(m), true
	case "l":
		l := []interface{}{map[string]interface{}{"id": u, "i": 0}, map[string]interface{}{"id": u + "x", "i": 1}}
		return l, norm(l), true
	case "x", "a", "b", "c", "d":
		l := []interface{}{u, g.n(0, 9), g.p(0.5), nil}
		if g.p(0.3) && name != "x" {
			return u, u, true
		}
		return l, norm(l), true
	case "nul":
		return nil, nil, true
	}
	return nil, nil, false
}

func selfRef(t *Task) bool {
	bad := false
	t.Cond.refs(func(e *Expr) {
		if e.K == "act" {
			bad = true
		}
	})
	return bad
}

// identifies reports whether the monitor needs to see this task start.
func identifies(t *Task) bool {
	e := t.In["e"]
	return e != nil && (e.K == "flow" && e.Name == "p" || e.K == "ctx" && e.Name == "ParentFlowId")
}

func mockable(t *Task) bool { return !identifies(t) && !(t.Type == "doWhile" && selfRef(t)) }

type taskAt struct {
	f  *Flow
	t  *Task
	gr *Graph
}

// ancestors of a task within its graph.
func ancestors(gr *Graph, id string) map[string]bool {
	a := map[string]bool{}
	var up func(string)
	up = func(x string) {
		for _, l := range gr.Links {
			if l.To == x && !a[l.From] {
				a[l.From] = true
				up(l.From)
			}
		}
	}
	up(id)
	return a
}

// plan chooses interceptors for the flows of a scenario.
func (g *gen) plan(sc *Scenario, dens float64, assert float64) *mockPlan {
	p := &mockPlan{Coverage: g.p(0.8), IO: g.p(0.5)}
	fl := map[string]*Flow{}
	var all []taskAt
	byTask := map[string][]*Task{}
	for _, f := range sc.Flows {
		fl[f.Name] = f
		for _, gr := range f.graphs() {
			for _, t := range gr.Tasks {
				all = append(all, taskAt{f, t, gr})
				byTask[t.ID] = append(byTask[t.ID], t)
			}
		}
	}
	outs := func(ic *icept, x taskAt) {
		ic.Out, ic.WantO = map[string]interface{}{}, map[string]interface{}{}
		u := fmt.Sprintf("mock:%s/%s#%d", x.f.Name, x.t.ID, g.r.Intn(100000))
		part := !x.t.Accum && g.p(0.15)
		if x.t.Sub != "" {
			for _, o := range fl[x.t.Sub].Out {
				if part && g.p(0.5) || x.t.Det {
					continue
				}
				ic.Out[o.Name], ic.WantO[o.Name] = u+"/"+o.Name, u+"/"+o.Name
			}
			return
		}
		for _, n := range []string{"out", "n", "b!", "s", "m", "l", "x", "nul"} {
			if part && g.p(0.5) {
				continue
			}
			if give, want, ok := g.mockVal(n, u); ok {
				n = strings.TrimSuffix(n, "!")
				ic.Out[n], ic.WantO[n] = give, want
			}
		}
	}
	for _, x := range all {
		if g.p(assert) {
			ic := &icept{Flow: x.f.Name, Task: x.t.ID, Type: support.AssertionActivity}
			if willFail(x.t) != g.p(0.1) {
				ic.Type = support.AssertionException
			}
			g.assertions(ic, x)
			p.Tasks = append(p.Tasks, ic)
			continue
		}
		if !g.p(dens) {
			continue
		}
		ic := &icept{Flow: x.f.Name, Task: x.t.ID, Type: support.MockActivity}
		switch g.n(0, 5) {
		case 0:
			if !mockable(x.t) {
				continue
			}
			ic.Type, ic.Skip = support.MockException, true
			ic.Out = map[string]interface{}{"message": fmt.Sprintf("mocked failure of %s/%s", x.f.Name, x.t.ID)}
			if g.p(0.6) {
				ic.Out["data"] = map[string]interface{}{"why": x.t.ID, "n": g.n(0, 9)}
			}
		case 1:
			if x.t.Type == "doWhile" && selfRef(x.t) {
				continue
			}
			outs(ic, x)
		default:
			if !mockable(x.t) {
				continue
			}
			ic.Skip = true
			outs(ic, x)
			if x.t.Sub == "" && g.p(0.15) {
				ic.Out["n"] = "no number"
				_, err := coerce.ToType("no number", data.TypeInt)
				ic.BadO = err.Error()
			}
		}
		p.Tasks = append(p.Tasks, ic)
	}
	for id, ts := range byTask {
		if !g.p(dens * 0.7) {
			continue
		}
		ic := &icept{Task: id, In: map[string]interface{}{}, WantI: map[string]interface{}{}}
		sub, probe := false, false
		ok := true
		for _, t := range ts {
			sub, probe = sub || t.Sub != "", probe || t.Sub == ""
			ok = ok && mockable(t) && !t.Accum
		}
		for _, q := range p.Tasks {
			ok = ok && !(q.Task == id && (q.Type == support.MockException || q.BadO != ""))
		}
		if ok && g.p(0.2) {
			ic.Skip = true
		}
		u := fmt.Sprintf("over:%s#%d", id, g.r.Intn(100000))
		if probe {
			for i := 0; i < g.n(1, 3); i++ {
				n := g.pick("a", "b", "c", "d", "s", "i", "f", "g", "m", "l")
				if give, want, ok := g.mockVal(n, u); ok {
					ic.In[n], ic.WantI[n] = give, want
				}
			}
		}
		if sub && g.p(0.7) {
			n := g.pick("i1", "d1")
			ic.In[n], ic.WantI[n] = u+n, u+n
		}
		if ic.Skip && g.p(0.5) {
			ic.In, ic.WantI = nil, nil
		}
		p.Tasks = append(p.Tasks, ic)
	}
	// the result of the run
	main := sc.Flows[0]
	if g.p(assert * 2) {
		ic := &icept{Flow: main.Name, Task: "_flowOutput", Type: support.AssertionActivity}
		if g.p(0.4) {
			ic.Type = support.AssertionException
		}
		g.assertions(ic, taskAt{main, nil, &main.Main})
		p.Tasks = append(p.Tasks, ic)
	}
	// interceptors of tasks that do not exist
	if g.p(0.5) {
		x := all[g.r.Intn(len(all))]
		p.Tasks = append(p.Tasks,
			&icept{Flow: "no" + x.f.Name, Task: x.t.ID, Type: support.MockActivity, Skip: true, Out: map[string]interface{}{"out": "decoy"}},
			&icept{Flow: x.f.Name, Task: x.t.ID + "9", Type: support.MockException, Skip: true, Out: map[string]interface{}{"message": "decoy"}},
			&icept{Task: x.f.Name, Skip: true, In: map[string]interface{}{"a": "decoy"}})
	}
	g.r.Shuffle(len(p.Tasks), func(i, j int) { p.Tasks[i], p.Tasks[j] = p.Tasks[j], p.Tasks[i] })
	return p
}

func willFail(t *Task) bool {
	for _, s := range t.Scripts {
		for _, o := range s {
			if o.K == "err" || o.K == "aerr" || o.K == "retry" {
				return true
			}
		}
	}
	return false
}

// assertions chooses expressions about values that are settled when they are evaluated.
func (g *gen) assertions(ic *icept, x taskAt) {
	var rs []ref
	for _, q := range x.f.In {
		if q.Name != "v1" && q.Name != "v2" {
			rs = append(rs, ref{FlowE(q.Name), kindOf(q.Type)})
		}
	}
	own := func(f *Flow, t *Task) []ref {
		if t.Sub == "" {
			return probeOuts(t.ID, 0)
		}
		return []ref{{ActE(t.ID, "i1"), "str"}, {ActE(t.ID, "r1"), "str"}}
	}
	if x.t != nil {
		o := own(x.f, x.t)
		rs = append(append(append(rs, o...), o...), o...)
		an := ancestors(x.gr, x.t.ID)
		for _, t := range x.gr.Tasks {
			if an[t.ID] {
				rs = append(rs, own(x.f, t)...)
			}
		}
	} else {
		for _, q := range x.f.Out {
			rs = append(rs, ref{FlowE(q.Name), "str"}, ref{FlowE(q.Name), "str"})
		}
		for _, t := range x.gr.Tasks {
			rs = append(rs, own(x.f, t)...)
		}
	}
	if ic.Type == support.AssertionException {
		for i := 0; i < 6; i++ {
			rs = append(rs, ref{ErrE("", g.pick("message", "type", "activity", "code")), "str"})
			if x.t != nil {
				rs = append(rs, ref{ErrE(x.t.ID, g.pick("message", "type", "activity", "code")), "str"})
			}
		}
	}
	for i := 0; i < g.n(1, 4); i++ {
		switch g.n(0, 9) {
		case 0:
			ic.Assert = append(ic.Assert, nil)
		case 1:
			if ic.Bad == nil {
				ic.Bad = map[int]string{}
			}
			ic.Bad[len(ic.Assert)] = g.pick("$flow.i1 == ", "((", "1 +* 2")
			ic.Assert = append(ic.Assert, Lit(true))
		case 2:
			ic.Assert = append(ic.Assert, VErr("assert"))
		case 3:
			ic.Assert = append(ic.Assert, Op("==", FlowE("nosuchvalue"), Lit(1)))
		default:
			x := (&fgen{gen: g})
			k := g.pick("str", "str", "num", "bool")
			e := x.some(rs, k)
			switch {
			case g.p(0.5):
				e = x.boolExpr(rs, 1)
			case e != nil:
				// filled in with the real value half of the time by the caller
				e = Op(g.pick("==", "!="), e, &Expr{K: "hole", Name: k})
			default:
				e = Lit(true)
			}
			ic.Assert = append(ic.Assert, e)
		}
	}
}

// fill gives the open comparisons of assertions a value.
func (g *gen) fill(p *mockPlan, vals []interface{}) {
	for _, t := range p.Tasks {
		for _, e := range t.Assert {
			if e != nil && e.K == "op" && len(e.A) == 2 && e.A[1].K == "hole" {
				var v interface{} = "no such value"
				for i := 0; i < 50; i++ {
					x := vals[g.r.Intn(len(vals))]
					if s, ok := x.(string); ok && strings.ContainsAny(s, "\"\\\n\t") {
						continue // not to be written as a literal
					}
					k := "num"
					switch x.(type) {
					case string:
						k = "str"
					case bool:
						k = "bool"
					}
					if k == e.A[1].Name {
						v = x
						break
					}
				}
				e.A[1] = Lit(v)
			}
		}
	}
}

// mocker applies the plan to the reference.
type mocker struct {
	p   *mockPlan
	o   *oracle
	res map[string][]int // expected assertion results
	unk map[string][]bool
	st  map[string]int // expected activity status
}

func (m *mocker) inRun(fi *finst) bool {
	for fi.parent != nil {
		fi = fi.parent
	}
	return fi.id == m.o.runID
}

func (m *mocker) attach(o *oracle) {
	m.o = o
	m.res, m.unk, m.st = map[string][]int{}, map[string][]bool{}, map[string]int{}
	o.noPrio = true
	o.override = func(fi *finst, t *Task, in map[string]interface{}) {
		if q := m.p.find("", t.ID); q != nil && m.inRun(fi) {
			for k, v := range q.WantI {
				in[k] = v
			}
		}
	}
	o.mocked = func(fi *finst, t *Task) *mockSpec {
		if !m.inRun(fi) {
			return nil
		}
		q := m.p.find(fi.f.Name, t.ID)
		s := m.p.find("", t.ID)
		note := func() { m.st[fi.f.Name+"-"+t.ID] = support.Mocked }
		if q != nil && q.Skip && q.Type == support.MockException && (s == nil || !s.Skip) {
			e := &EInfo{Kind: "activity", Msg: q.Out["message"].(string), AnyAct: true, Data: anyv{}}
			if d := q.Out["data"]; d != nil {
				e.Data = norm(d)
			}
			return &mockSpec{exc: e, note: note}
		}
		if s != nil && s.Skip {
			return &mockSpec{}
		}
		if q != nil && q.BadO != "" {
			return &mockSpec{exc: &EInfo{Kind: "plain", Msg: q.BadO}, note: note}
		}
		if q != nil && q.Skip && q.Type == support.MockActivity {
			return &mockSpec{note: note}
		}
		return nil
	}
	o.overlay = func(fi *finst, t *Task, out map[string]interface{}) map[string]interface{} {
		q := m.p.find(fi.f.Name, t.ID)
		if q == nil || q.Type != support.MockActivity || !m.inRun(fi) {
			return out
		}
		r := map[string]interface{}{}
		for k, v := range out {
			r[k] = v
		}
		for k, v := range q.WantO {
			r[k] = v
		}
		return r
	}
	o.onOK = func(fi *finst, t *Task) { m.eval(fi, t, support.AssertionActivity) }
	o.onErr = func(fi *finst, t *Task) { m.eval(fi, t, support.AssertionException) }
	for _, q := range m.p.Tasks {
		if q.Task == "_flowOutput" && q.Type == support.AssertionException {
			q := q
			o.asserted = func() int {
				r := 0
				for k, e := range q.Assert {
					if _, bad := q.Bad[k]; bad || e == nil {
						continue
					}
					v, known := evalAssert(e, o.root)
					act := false
					e.refs(func(x *Expr) { act = act || x.K == "act" })
					if !known || act && o.fuzzy(o.root) {
						r = 2
					} else if v != nil {
						return 1
					}
				}
				return r
			}
		}
	}
}

// evalAssert returns nil if the expression cannot be evaluated.
func evalAssert(e *Expr, fi *finst) (v interface{}, known bool) {
	known = true
	e.refs(func(x *Expr) {
		if w, err := x.Eval(&scopeT{fi: fi}); x.K == "err" && err == nil && hasWild(w) {
			known = false
		}
		if x.K == "act" {
			// orders of null and other values are not specified
			if w, err := x.Eval(&scopeT{fi: fi}); err == nil && w == nil {
				known = false
			}
		}
	})
	if !known {
		return nil, false
	}
	v, err := e.safeEval(&scopeT{fi: fi})
	if err != nil {
		return nil, true
	}
	return v, true
}

// safeEval also reports operands of unexpected types.
func (e *Expr) safeEval(sc scope) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return e.Eval(sc)
}

func (m *mocker) eval(fi *finst, t *Task, typ int) {
	if !m.inRun(fi) {
		return
	}
	id := fi.f.Name + "-" + t.ID
	q := m.p.find(fi.f.Name, t.ID)
	if q == nil {
		return
	}
	s := m.p.find("", t.ID)
	if skipped := s != nil && s.Skip; !skipped && !(q.Skip && q.Type >= support.MockActivity) {
		m.st[id] = support.Pass
		if typ == support.AssertionException {
			m.st[id] = support.Fail
		}
	}
	if len(q.Assert) > 0 {
		m.res[id], m.unk[id] = results(q, fi, typ)
	}
}

func results(q *icept, fi *finst, typ int) ([]int, []bool) {
	res, unk := make([]int, len(q.Assert)), make([]bool, len(q.Assert))
	for k, e := range q.Assert {
		_, bad := q.Bad[k]
		switch {
		case q.Type != typ:
			res[k] = support.AssertionNotExecuted
		case bad:
			res[k] = support.Fail
		case e == nil:
			res[k] = support.NotExecuted
		default:
			v, known := evalAssert(e, fi)
			unk[k] = !known
			res[k] = support.Fail
			if b, ok := v.(bool); ok && b {
				res[k] = support.Pass
			} else if !ok && v != nil {
				unk[k] = true
			}
		}
	}
	return res, unk
}

// settled: the flow came to its normal end, so that everything in it was done.
func settled(fi *finst) bool { return fi.status == 1 && !fi.hasRet && fi.phase == 0 }

func settledUp(fi *finst) bool {
	for ; fi != nil; fi = fi.parent {
		if !settled(fi) {
			return false
		}
	}
	return true
}

func (m *mocker) kids(fi *finst, f func(fi *finst)) {
	f(fi)
	for _, k := range fi.kids {
		m.kids(k, f)
	}
}

// loose: the engine may have ended before it came to some of the things the reference did.
func (m *mocker) loose() bool {
	all := true
	m.kids(m.o.root, func(fi *finst) { all = all && settled(fi) })
	return !all && m.o.fuzzy(m.o.root)
}

// late: the engine may not have come to this task.
func (m *mocker) late(fi *finst, id string) bool {
	ts := fi.ts[id]
	if ts.late || ts.silent != nil {
		return true
	}
	for _, k := range fi.kids {
		if k.host == id && m.o.fuzzy(k) {
			return true
		}
	}
	return false
}

type counted struct{ min, max int }

func (m *mocker) check(c *Case, ic *support.Interceptor, evs []Ev) {
	o := m.o
	loose := m.loose()
	for i, q := range m.p.Tasks {
		x := ic.TaskInterceptors[i]
		id := x.ID
		if q.Flow == "" {
			continue
		}
		want, unk := m.res[id], m.unk[id]
		if q.Task == "_flowOutput" {
			typ := support.AssertionActivity
			if o.root.status == 2 {
				typ = support.AssertionException
			} else {
				for k, v := range o.root.result() {
					o.root.attrs[k] = v
				}
			}
			want, unk = results(q, o.root, typ)
		}
		if !loose {
			for k := range q.Assert {
				w := support.NotExecuted
				if k < len(want) {
					w = want[k]
					if unk[k] {
						c.stat("assertunknown", 1)
						continue
					}
				}
				c.stat(fmt.Sprintf("assert%d", w), 1)
				if g := x.Assertions[k].Result; g != w {
					src := fmt.Sprint(x.Assertions[k].Expression)
					c.badf("assertion %s of %s: result %d, expected %d", src, id, g, w)
				}
			}
			f := o.flows[q.Flow]
			if f != nil && f.byID[q.Task] != nil && (f.byID[q.Task].Sub == "" || m.st[id] == support.Mocked) {
				if x.Result != m.st[id] {
					c.badf("status of %s is %d, expected %d", id, x.Result, m.st[id])
				}
			}
		}
	}
	if ic.Coverage == nil {
		return
	}
	pend := false
	m.kids(o.root, func(fi *finst) {
		for _, ts := range fi.ts {
			pend = pend || ts.silent != nil
		}
	})
	if len(o.made) > 0 || pend {
		// several failures nobody can see explain the run
		c.stat("ambiguous", 1)
		return
	}
	// coverage
	exp := map[string]*counted{}
	add := func(min bool, f string, a ...interface{}) {
		k := fmt.Sprintf(f, a...)
		if exp[k] == nil {
			exp[k] = &counted{}
		}
		if min {
			exp[k].min++
		}
		exp[k].max++
	}
	m.kids(o.root, func(fi *finst) {
		ok := settledUp(fi)
		for id, t := range fi.f.byID {
			ts := fi.ts[id]
			sure := ok || !m.late(fi, id)
			if ts.st == sDone || ts.st == sFailed {
				// tasks that failed or ended before anything was executed may be listed
				ran := ts.n > 0 || ts.mocked > 0 || t.Sub != ""
				if ts.st == sFailed && ts.n == 0 && ts.mocked == 0 {
					ran = false
				}
				add(sure && ran, "task %s/%s main=%v", fi.f.Name, id, !fi.f.isEH[id])
			}
			lerr := o.linkErr[fi][id]
			for _, l := range fi.f.outl[id] {
				if fi.lst[l] == 1 || lerr {
					k := map[string]string{"expr": "Expression", "label": "Label", "error": "Error", "otherwise": "Otherwise"}[l.Type]
					add(sure && !lerr, "link %s/%s>%s %s main=%v", fi.f.Name, l.From, l.To, k, !fi.f.isEH[id])
				}
			}
		}
		if fi.parent != nil {
			add(true, "call %s by %s/%s", fi.f.Name, fi.parent.f.Name, fi.parent.f.byID[fi.host].Name)
		}
	})
	got := map[string]int{}
	for _, a := range ic.Coverage.ActivityCoverage {
		got[fmt.Sprintf("task %s/%s main=%v", a.FlowName, a.ActivityName, a.IsMainFlow)]++
	}
	for _, a := range ic.Coverage.TransitionCoverage {
		got[fmt.Sprintf("link %s/%s>%s %s main=%v", a.FlowName, a.TransitionFrom, a.TransitionTo, a.TransitionType, a.IsMainFlow)]++
	}
	for _, a := range ic.Coverage.SubFlowCoverage {
		got[fmt.Sprintf("call %s by %s/%s", a.SubFlowName, a.HostFlow, a.SubFlowActivity)]++
	}
	for k, e := range exp {
		c.stat("coverage", 1)
		if e.min == e.max {
			c.stat("coveragesure", 1)
		}
		if g := got[k]; g < e.min || g > e.max {
			c.badf("coverage lists %s %d times, expected %d to %d", k, g, e.min, e.max)
		}
	}
	for k, n := range got {
		if exp[k] == nil {
			c.badf("coverage lists %s (%d times) which did not happen", k, n)
		}
	}
	if !m.p.IO {
		return
	}
	// inputs and outputs of executed activities
	last := map[string]*Ev{}
	type io struct{ in, out map[string]interface{} }
	ios := map[string][]io{}
	for i := range evs {
		e := &evs[i]
		k := e.Inst + "/" + e.Task
		if e.K == "start" {
			last[k] = e
		}
		if e.K == "end" && last[k] != nil {
			fi := o.insts[e.Inst]
			if fi == nil || !m.inRun(fi) || fi.ts[e.Task] == nil || fi.ts[e.Task].n-1 != e.N || fi.ts[e.Task].mocked > 0 {
				continue
			}
			x := io{in: mapOf(last[k].In)}
			if e.Err == nil && fi.ts[e.Task].st == sDone && e.O.K != "return" {
				x.out = map[string]interface{}{}
				for k, v := range e.Data {
					x.out[k] = v
				}
				x.out = o.overlay(fi, fi.f.byID[e.Task], x.out)
			}
			ios[fi.f.Name+"/"+e.Task] = append(ios[fi.f.Name+"/"+e.Task], x)
		}
	}
	// iterators without iterations have no inputs
	for _, fi := range o.insts {
		for _, t := range fi.f.byID {
			if ts := fi.ts[t.ID]; m.inRun(fi) && ts != nil && ts.st == sDone && ts.n == 0 && ts.mocked == 0 && t.Type == "iterator" && t.Sub == "" {
				k := fi.f.Name + "/" + t.ID
				ios[k] = append(ios[k], io{in: M{}})
			}
		}
	}
	for _, a := range ic.Coverage.ActivityCoverage {
		k := a.FlowName + "/" + a.ActivityName
		f := o.flows[a.FlowName]
		if f == nil || f.byID[a.ActivityName] == nil || f.byID[a.ActivityName].Sub != "" || len(ios[k]) == 0 {
			continue
		}
		found := -1
		for j, x := range ios[k] {
			if !eq(norm(x.in), mapOf2(norm(a.Inputs))) {
				continue
			}
			// an execution with unspecified outputs matches only what no other does
			if x.out != nil && eq(norm(x.out), mapOf2(norm(a.Outputs))) {
				found = j
				break
			}
			if x.out == nil && found < 0 {
				found = j
			}
		}
		c.stat("coverageio", 1)
		if found < 0 {
			c.badf("coverage of %s: inputs %s outputs %s, expected one of %s", k, js(norm(a.Inputs)), js(norm(a.Outputs)), jsIO(ios[k][0].in, ios[k][0].out))
			continue
		}
		ios[k] = append(ios[k][:found], ios[k][found+1:]...)
	}
}

func mapOf2(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok {
		return mapOf(m)
	}
	return map[string]interface{}{}
}

func jsIO(a, b map[string]interface{}) string { return js(a) + " " + js(b) }

func mockFamily(name string, opt func(c *Case) genOpt, dens, assert float64) {
	families[name] = func(c *Case) {
		g := newGen(c.Seed, fmt.Sprintf("%s%d", name, c.Idx), opt(c))
		sc := g.scenario()
		p := g.plan(sc, dens, assert)
		if dens == 0 && assert == 0 {
			p.Coverage = true
		}
		var vals []interface{}
		for _, v := range sc.Inputs {
			switch v.(type) {
			case string, int, bool:
				vals = append(vals, v)
			}
		}
		vals = append(vals, 0, 1, true, "activity", "unknown", "")
		for _, f := range sc.Flows {
			for id := range f.byID {
				vals = append(vals, "r"+f.Name+"/"+id, "N "+id, fmt.Sprintf("r%d/%s/0", c.Idx, id), fmt.Sprintf("r%d/%s/0", c.Idx, id))
			}
		}
		g.fill(p, vals)
		ic := p.interceptor()
		out := runScenario(c, sc, runOpts{exec: &instance.ExecOptions{Interceptor: ic}}, func(o *oracle) {
			x := &mocker{p: p}
			x.attach(o)
			o.ext = x
		})
		if d, ok := c.Detail.(map[string]interface{}); ok {
			d["plan"] = p
			d["interceptor"] = norm(ic)
		}
		if out == nil || out.hang || len(c.Bad) > 0 {
			return
		}
		m := out.o.ext.(*mocker)
		c.NonTriv = out.o.stats["mocked"] > 0 || out.o.execs > 0 && (p.Coverage || len(p.Tasks) > 0)
		m.check(c, ic, out.evs)
		if len(c.Bad) > 6 {
			c.Bad = c.Bad[:6]
		}
	}
}

func mockOpt(c *Case) genOpt {
	o := mixOpt(c)
	o.Data = 1 + c.R.Intn(3)
	o.PDet = oneOf(c, 0, 0, 0.3)
	o.PSilent, o.PLinkErr = 0.02, 0.02
	if concMode() {
		calm(&o)
	}
	return o
}

func init() {
	mockFamily("mocks", mockOpt, 0.2, 0.1)
	mockFamily("asserts", func(c *Case) genOpt {
		o := mockOpt(c)
		o.PDet, o.PSilent, o.PLinkErr = 0, 0, 0
		return o
	}, 0.05, 0.5)
	mockFamily("coverage", func(c *Case) genOpt {
		o := mockOpt(c)
		o.PSilent = 0
		return o
	}, 0, 0)
	props["C18"] = &PropDef{ID: "C18", Rule: "random flows of all features (nested subflows, handlers, loops, retries, detached calls) run with interceptors of randomly chosen tasks; executions, data and outcome are checked against a reference that applies the same mocks and overrides, assertion results and coverage against what the run really did; non-trivial if a task was mocked or an activity ran under interceptors or coverage, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "mocks", N: size(q, 9000, 250000)}, {Fam: "asserts", N: size(q, 5000, 120000)}, {Fam: "coverage", N: size(q, 4000, 100000)}}
		}}
}
