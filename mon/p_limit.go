package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/project-flogo/flow/instance"
)

// limGen builds flows whose number of steps is known: lo is the number of
// activity executions, hi an upper bound of the steps the engine may need.
type limGen struct {
	c     *Case
	flows []*Flow
	tag   int
}

func (g *limGen) ok() map[string][]Out { return map[string][]Out{"": {{K: "ok", N: 1, L: 1}}} }

func (g *limGen) flow(n, depth int, plain bool) (f *Flow, lo, hi int) {
	r := g.c.R
	f = &Flow{Name: fmt.Sprintf("lim%s%df%d", g.c.Arg, g.c.Idx, len(g.flows))}
	g.flows = append(g.flows, f)
	f.In = []Param{{Name: "t", Type: "string"}, {Name: "p", Type: "string"}}
	f.Out = []Param{{Name: "r1", Type: "string", Def: "done"}}
	for i := 0; i < n; i++ {
		t := &Task{ID: fmt.Sprintf("t%d", i), In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}}
		t.Name = "N " + t.ID
		f.Main.Tasks = append(f.Main.Tasks, t)
		start := !(i > 0 && r.Intn(4) > 0)
		if !start {
			used := map[int]bool{}
			for k := 0; k < 1+r.Intn(2); k++ {
				j := r.Intn(i)
				if used[j] {
					continue
				}
				used[j] = true
				l := &Link{From: f.Main.Tasks[j].ID, To: t.ID, Type: "dep"}
				switch r.Intn(4) {
				case 0:
					l.Type, l.Lbl = "label", "l"
				case 1:
					l.Type, l.Cond = "expr", Lit(true)
				}
				f.Main.Links = append(f.Main.Links, l)
			}
		}
		kind := r.Intn(7)
		if plain && kind > 4 {
			kind = 0
		}
		t.Scripts = g.ok()
		switch kind {
		case 3:
			k := r.Intn(4)
			t.Retry = Lit(k)
			s := []Out{}
			for j := 0; j < k; j++ {
				s = append(s, Out{K: "retry"})
			}
			t.Scripts[""] = append(s, Out{K: "ok", N: 1, L: 1})
			lo, hi = lo+1, hi+1 // retries are part of the step
		case 4:
			k := r.Intn(4)
			t.Type = "doWhile"
			t.Cond = Op("<", IterE("index"), Lit(k))
			lo, hi = lo+k+1, hi+k+1
		case 5:
			k := r.Intn(4)
			if k == 0 && start && f != g.flows[0] {
				k = 1 // the start of a subflow has to be observable
			}
			t.Type = "iterator"
			t.IterLit = k
			lo, hi = lo+k, hi+k+1
		case 6:
			if depth > 0 && !(start && len(g.flows) > 1 && f != g.flows[0]) {
				s, l2, h2 := g.flow(1+r.Intn(3), depth-1, plain)
				g.tag++
				t.Scripts = nil
				t.Sub = s.Name
				t.In = map[string]*Expr{"t": {K: "raw", V: fmt.Sprintf("g%d", g.tag)}, "p": CtxE("FlowId")}
				lo, hi = lo+l2, hi+h2+2
				break
			}
			fallthrough
		default:
			lo, hi = lo+1, hi+1
		}
	}
	return
}

func limit() int { n, _ := strconv.Atoi(os.Getenv("FLOGO_MAX_STEP_COUNT")); return n }

func init() {
	judge := func(c *Case, out *runOut, lo, hi int, plain bool) {
		if out == nil || out.hang {
			return
		}
		L := limit()
		n := 0
		for i := range out.evs {
			if out.evs[i].K == "end" && out.evs[i].O.K != "retry" {
				n++
			}
		}
		if n > L {
			c.badf("%d activity executions with a limit of %d steps", n, L)
		}
		lim := false
		for _, r := range out.o.results {
			if r.Err != nil && r.Err.Kind == "plain" && strings.Contains(r.Err.Msg, strconv.Itoa(L)) && !strings.Contains(r.Err.Msg, "msg:") {
				lim = true
			}
		}
		switch {
		case lim && hi >= 0 && hi <= L:
			c.badf("a run that needs %d steps was stopped by the limit of %d", hi, L)
		case !lim && (lo > L || hi < 0):
			c.badf("a run that needs at least %d steps was not stopped by the limit of %d (results %s)", lo, L, js(out.o.results))
		}
		if lim {
			c.stat("limited", 1)
			if plain && n != L {
				c.badf("stopped by the limit of %d after %d executions", L, n)
			}
			if len(out.o.results) != 1 {
				c.badf("%d results for a limited run", len(out.o.results))
			}
		} else {
			c.stat("unlimited", 1)
			if lo == L {
				c.stat("exact", 1)
			}
		}
		c.NonTriv = lim || lo == L || lo == L-1
	}
	families["limit"] = func(c *Case) {
		g := &limGen{c: c}
		plain := c.R.Intn(3) > 0
		n := 1 + c.R.Intn(imin(limit()+3, 40))
		f, lo, hi := g.flow(n, 2, plain)
		if c.R.Intn(3) == 0 && plain {
			// make it need exactly the limit, or fail at the end
			for lo < limit() {
				t := &Task{ID: fmt.Sprintf("x%d", lo), In: map[string]*Expr{}, Scripts: g.ok()}
				t.Name = t.ID
				f.Main.Tasks = append(f.Main.Tasks, t)
				lo, hi = lo+1, hi+1
			}
		}
		if c.R.Intn(4) == 0 && plain {
			// fails with its last execution
			t := &Task{ID: "last", Name: "last", In: map[string]*Expr{}, Scripts: map[string][]Out{"": {{K: "aerr"}}}}
			for _, x := range f.Main.Tasks {
				f.Main.Links = append(f.Main.Links, &Link{From: x.ID, To: "last", Type: "dep"})
			}
			f.Main.Tasks = append(f.Main.Tasks, t)
			lo, hi = lo+1, hi+1
		}
		for i := range g.flows {
			g.flows[i].index()
		}
		sc := &Scenario{Flows: g.flows, Inputs: map[string]interface{}{"t": "", "p": ""}}
		out := runScenario(c, sc, runOpts{id: "lim"}, func(o *oracle) { o.limit, o.noPrio = true, true })
		judge(c, out, lo, hi, plain)
	}
	families["runaway"] = func(c *Case) {
		// runs that never end by themselves
		g := &limGen{c: c}
		f, _, _ := g.flow(1+c.R.Intn(4), 1, true)
		forever := func(f *Flow) {
			t := &Task{ID: "loop", Name: "loop", In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}, Scripts: map[string][]Out{"": {{K: "retry"}}}}
			switch c.R.Intn(2) {
			case 0:
				t.Type, t.Cond, t.Scripts = "doWhile", Lit(true), g.ok()
			case 1:
				t.Type, t.IterLit, t.Scripts = "iterator", 20000, g.ok()
			}
			f.Main.Tasks = append(f.Main.Tasks, t)
		}
		plain := false
		switch c.R.Intn(4) {
		case 0:
			forever(f)
			plain = true
		case 1: // an endless subflow
			s := &Flow{Name: fmt.Sprintf("lim%s%dend", c.Arg, c.Idx), In: f.In}
			forever(s)
			g.flows = append(g.flows, s)
			f.Main.Tasks = append(f.Main.Tasks, &Task{ID: "call", Name: "call", Sub: s.Name, In: map[string]*Expr{"t": {K: "raw", V: "end"}, "p": CtxE("FlowId")}})
		case 2: // a loop around a subflow
			s := &Flow{Name: fmt.Sprintf("lim%s%dend", c.Arg, c.Idx), In: f.In}
			s.Main.Tasks = []*Task{{ID: "a", Name: "a", In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}, Scripts: g.ok()}}
			g.flows = append(g.flows, s)
			t := &Task{ID: "call", Name: "call", Sub: s.Name, Type: "doWhile", Cond: Lit(true), In: map[string]*Expr{"t": CatE(Lit("end"), IterE("index")), "p": CtxE("FlowId")}}
			f.Main.Tasks = append(f.Main.Tasks, t)
		case 3: // a flow that calls itself
			f.Main.Tasks = []*Task{{ID: "a", Name: "a", In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}, Scripts: g.ok()},
				{ID: "call", Name: "call", Sub: f.Name, In: map[string]*Expr{"t": {K: "raw", V: "end"}, "p": CtxE("FlowId")}}}
			f.Main.Links = []*Link{{From: "a", To: "call", Type: "dep"}}
			g.flows = g.flows[:1]
		}
		for i := range g.flows {
			g.flows[i].index()
		}
		sc := &Scenario{Flows: g.flows, Inputs: map[string]interface{}{"t": "", "p": ""}}
		out := runScenario(c, sc, runOpts{id: "lim"}, func(o *oracle) { o.limit, o.noPrio = true, true })
		judge(c, out, 1<<30, -1, plain)
	}
	// restarts at a later step of a run: the steps before it count
	families["relimit"] = func(c *Case) {
		L := limit()
		n := imax(1, L+c.R.Intn(6)-3)
		if c.R.Intn(4) == 0 {
			n = 1 + c.R.Intn(L+4)
		}
		f := &Flow{Name: fmt.Sprintf("relim%s%df", c.Arg, c.Idx)}
		f.In = []Param{{Name: "t", Type: "string"}, {Name: "p", Type: "string"}}
		for i := 1; i <= n; i++ {
			t := &Task{ID: fmt.Sprintf("t%d", i), In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}}
			t.Name, t.Scripts = "N "+t.ID, map[string][]Out{"": {{K: "ok", N: 1, L: 1}}}
			f.Main.Tasks = append(f.Main.Tasks, t)
			if i > 1 {
				f.Main.Links = append(f.Main.Links, &Link{From: fmt.Sprintf("t%d", i-1), To: t.ID, Type: "dep"})
			}
		}
		f.index()
		sc := &Scenario{Flows: []*Flow{f}, Inputs: map[string]interface{}{"t": "", "p": ""}}
		if !loadScenario(c, sc) {
			return
		}
		act, err := newAction(f.Name)
		if err != nil {
			c.badf("action of a valid flow refused: %v", err)
			return
		}
		k := 1 + c.R.Intn(n)
		links := ""
		if k > 1 {
			links = fmt.Sprintf(`{"linkId":%d,"status":2}`, k-2)
		}
		st := &instance.IndependentInstance{}
		doc := fmt.Sprintf(`{"id":"x","status":100,"flowUri":%q,"attrs":{"t":"","p":""},"workQueue":[{"id":%d,"taskID":"t%d"}],"tasks":[{"id":"t%d","status":20}],"links":[%s]}`, flowURI(f.Name), k, k, k, links)
		if err := json.Unmarshal([]byte(doc), st); err != nil {
			c.badf("state refused: %v", err)
			return
		}
		id := fmt.Sprintf("rl%d", c.Idx)
		rec.reset()
		h, err, pan := runState(act, st, &instance.RunOptions{Op: instance.OpRestart, PreservedInstanceId: id, InitStepId: k}, nil, id)
		if pan != nil || err != nil {
			c.badf("restart at step %d failed: %v %v", k, err, pan)
			return
		}
		if !h.wait(hangTimeout) {
			c.Hang = true
			c.badf("restart at step %d did not end", k)
			return
		}
		quietDown()
		evs := rec.take()
		c.Detail = map[string]interface{}{"state": doc, "events": evs, "limit": L, "tasks": n, "step": k}
		var done []string
		var res []Ev
		for _, e := range evs {
			switch e.K {
			case "end":
				done = append(done, e.Task)
			case "result":
				res = append(res, e)
			}
		}
		for i, t := range done {
			if want := fmt.Sprintf("t%d", k+i); t != want {
				c.badf("%s executed after the restart at t%d, expected %s", t, k, want)
				return
			}
		}
		if len(res) != 1 {
			c.badf("%d results for a run restarted at step %d of %d with a limit of %d", len(res), k, n, L)
			return
		}
		lim := res[0].Err != nil && strings.Contains(res[0].Err.Msg, strconv.Itoa(L))
		switch {
		case res[0].Err != nil && !lim:
			c.badf("the restarted run failed: %s", res[0].Err.Msg)
		case lim && n <= L:
			c.badf("a run of %d steps that was restarted at step %d was stopped by the limit of %d", n, k, L)
		case !lim && len(done) != n-k+1:
			c.badf("%d of %d tasks executed after the restart", len(done), n-k+1)
		case len(done) > L:
			c.badf("%d activity executions with a limit of %d steps", len(done), L)
		case !concMode() && n > L && (!lim || len(done) != imax(0, L-k+1)):
			c.badf("a run of %d steps that was restarted at step %d went on for %d steps with a limit of %d", n, k, len(done), L)
		}
		c.stat("restarted", 1)
		if lim {
			c.stat("limited", 1)
		}
		c.NonTriv = k > 1
		c.Sig = hashOf(fmt.Sprint(n, k))
	}
	props["C20"] = &PropDef{
		ID:   "C20",
		Rule: "a run counts when it was stopped by the limit or needed exactly the limit or one step less",
		Batches: func(quick bool) []Batch {
			var b []Batch
			for _, l := range []int{1, 2, 3, 5, 8, 13, 30, 100} {
				a := strconv.Itoa(l)
				b = append(b, Batch{Fam: "limit", Arg: a, N: size(quick, 400, 6000), Env: []string{"FLOGO_MAX_STEP_COUNT=" + a}},
					Batch{Fam: "runaway", Arg: a, N: size(quick, 60, 600), Env: []string{"FLOGO_MAX_STEP_COUNT=" + a}},
					Batch{Fam: "relimit", Arg: a, N: size(quick, 60, 600), Env: []string{"FLOGO_MAX_STEP_COUNT=" + a}},
					Batch{Fam: "relimit", Arg: "c" + a, N: size(quick, 30, 300), Env: append([]string{"FLOGO_MAX_STEP_COUNT=" + a}, concEnv...)},
					Batch{Fam: "limit", Arg: "c" + a, N: size(quick, 150, 3000), Env: append([]string{"FLOGO_MAX_STEP_COUNT=" + a}, concEnv...)},
					Batch{Fam: "runaway", Arg: "c" + a, N: size(quick, 30, 300), Env: append([]string{"FLOGO_MAX_STEP_COUNT=" + a}, concEnv...)})
			}
			return append(b, Batch{Fam: "limit", Arg: "700", N: size(quick, 100, 1000), Env: []string{"FLOGO_MAX_STEP_COUNT=700"}}, Batch{Fam: "runaway", Arg: "700", N: size(quick, 40, 400), Env: []string{"FLOGO_MAX_STEP_COUNT=700"}})
		},
	}
}
