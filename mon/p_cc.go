package main

import (
	"fmt"
	"sort"
)

var concEnv = []string{"FLOGO_FLOW_CONCURRENT_TASK_EXECUTION=true"}

// overlap counts the executions that began while others were in progress.
func overlap(evs []Ev) (n, most int) {
	cur := 0
	for _, e := range evs {
		switch e.K {
		case "start":
			if cur > 0 {
				n++
			}
			cur++
			if cur > most {
				most = cur
			}
		case "end":
			cur--
		}
	}
	return
}

func ccOpt(c *Case) genOpt {
	o := baseOpt(c)
	o.PStart = oneOf(c, 0.1, 0.4, 0.7)
	o.PJoin = oneOf(c, 0.2, 0.5)
	o.PPost = oneOf(c, 0, 0.3)
	o.PSub, o.Depth = oneOf(c, 0.1, 0.35), c.R.Intn(3)
	o.PIter, o.PDoW, o.PAccum = 0.08, 0.08, 0.4
	o.PRetry, o.RetrySub = 0.06, 0.3
	o.PWatch = oneOf(c, 0, 0.2)
	o.PSleep = oneOf(c, 0, 0.3)
	o.Data = c.R.Intn(4)
	o.PErrLinkOK = 0.08
	o.PNoMeta = oneOf(c, 0, 0.1)
	return o
}

// calm leaves out what makes the outcome depend on the timing.
func calm(o *genOpt) {
	o.PErr, o.PRetry, o.PRet, o.PReply, o.PBadCond, o.PLinkErr, o.PSilent, o.PSet, o.SubFail, o.PLoopErr = 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	o.Calm = true
}

func init() {
	concFamily := func(name string, opt func(c *Case) genOpt) {
		families[name] = func(c *Case) {
			sc := newGen(c.Seed, fmt.Sprintf("%s%d", name, c.Idx), opt(c)).scenario()
			if c.R.Intn(3) > 0 {
				setJitter(true)
				defer setJitter(false)
			}
			out := runScenario(c, sc, runOpts{}, nil)
			if out == nil || out.hang {
				return
			}
			n, most := overlap(out.evs)
			c.stat("overlaps", n)
			if most > 1 {
				c.stat("overlapping runs", 1)
			}
			c.NonTriv = n > 0
		}
	}
	concFamily("cc", func(c *Case) genOpt {
		o := ccOpt(c)
		o.PErr, o.PErrLink = oneOf(c, 0, 0.1), 1
		return o
	})
	concFamily("ccfail", func(c *Case) genOpt {
		o := ccOpt(c)
		o.PErr, o.PErrLink, o.PEH = oneOf(c, 0.1, 0.3), oneOf(c, 0.3, 0.7), oneOf(c, 0.3, 0.8)
		o.SubFail = 0.3
		o.PLinkErr, o.PSilent, o.PBadCond = 0.04, 0.05, 0.05
		return o
	})
	concFamily("ccret", func(c *Case) genOpt {
		o := ccOpt(c)
		o.PRet, o.PReply = oneOf(c, 0.04, 0.15), oneOf(c, 0, 0.1)
		return o
	})

	// failures, returns and calls that happen at the same moment
	families["ccclash"] = func(c *Case) {
		r := c.R
		name := fmt.Sprintf("clash%d", c.Idx)
		in := []Param{{Name: "t", Type: "string"}, {Name: "p", Type: "string"}}
		main := &Flow{Name: name, In: in, Out: []Param{{Name: "r1", Type: "string", Def: "done"}}}
		sub := &Flow{Name: name + "s", In: in, Out: main.Out}
		sc := &Scenario{Flows: []*Flow{main, sub}, Inputs: map[string]interface{}{"t": "", "p": ""}}
		ok := func() []Out { return []Out{{K: "ok", N: 1, L: 1}} }
		probe := func(f *Flow, g *Graph, id string, s []Out, from string) *Task {
			t := &Task{ID: id, Name: "N " + id, In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}, Scripts: map[string][]Out{"": s}}
			g.Tasks = append(g.Tasks, t)
			if from != "" {
				g.Links = append(g.Links, &Link{From: from, To: id, Type: "dep"})
			}
			return t
		}
		prev := ""
		for i := 0; i < 4; i++ {
			id := fmt.Sprintf("s%d", i)
			probe(sub, &sub.Main, id, ok(), prev)
			prev = id
		}
		fails, calls, rets := 1+r.Intn(2), r.Intn(4), 0
		if r.Intn(2) == 0 {
			rets = 1 + r.Intn(2)
		}
		if rets == 0 && r.Intn(2) == 0 {
			main.EH = &Graph{}
			probe(main, main.EH, "h0", ok(), "")
			probe(main, main.EH, "h1", ok(), "h0")
		}
		root := ""
		if r.Intn(2) == 0 {
			root = "root"
			probe(main, &main.Main, root, ok(), "")
		}
		n := 0
		meet := []Out{{K: "ok", N: 1, L: 1, Meet: "m", MeetN: fails + calls + rets}}
		branch := func(last func(id, from string)) {
			id := fmt.Sprintf("b%d", n)
			n++
			probe(main, &main.Main, id+"x", meet, root)
			last(id, id+"x")
		}
		for i := 0; i < fails; i++ {
			branch(func(id, from string) {
				probe(main, &main.Main, id, []Out{{K: "aerr"}}, from)
			})
		}
		for i := 0; i < calls; i++ {
			branch(func(id, from string) {
				t := probe(main, &main.Main, id, nil, from)
				t.Scripts = nil
				t.Sub = sub.Name
				t.In = map[string]*Expr{"t": {K: "raw", V: "g" + id}, "p": CtxE("FlowId")}
			})
		}
		for i := 0; i < rets; i++ {
			branch(func(id, from string) {
				probe(main, &main.Main, id, []Out{{K: "return", Ret: []string{"r1"}}}, from)
			})
		}
		r.Shuffle(len(main.Main.Tasks), func(i, j int) {
			main.Main.Tasks[i], main.Main.Tasks[j] = main.Main.Tasks[j], main.Main.Tasks[i]
		})
		for _, f := range sc.Flows {
			f.index()
		}
		if r.Intn(2) == 0 {
			setJitter(true)
			defer setJitter(false)
		}
		out := runScenario(c, sc, runOpts{}, nil)
		if out == nil || out.hang {
			return
		}
		_, most := overlap(out.evs)
		c.stat("clashes", 1)
		c.NonTriv = most > 1
	}

	// independent branches have to make progress at the same time
	families["overlap"] = func(c *Case) {
		r := c.R
		name := fmt.Sprintf("ovl%d", c.Idx)
		main := &Flow{Name: name, In: []Param{{Name: "t", Type: "string"}, {Name: "p", Type: "string"}}, Out: []Param{{Name: "r1", Type: "string", Def: "done"}}}
		sc := &Scenario{Flows: []*Flow{main}, Inputs: map[string]interface{}{"t": "", "p": ""}}
		width := 2 + r.Intn(5)
		depth := 1 + r.Intn(3)
		ok := func() []Out { return []Out{{K: "ok", N: 1, L: 1}} }
		probe := func(f *Flow, id string, s []Out, from ...string) *Task {
			t := &Task{ID: id, Name: "N " + id, In: map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}, Scripts: map[string][]Out{"": s}}
			f.Main.Tasks = append(f.Main.Tasks, t)
			for _, x := range from {
				f.Main.Links = append(f.Main.Links, &Link{From: x, To: id, Type: "dep"})
			}
			return t
		}
		fan := r.Intn(2) == 0
		if fan {
			probe(main, "root", ok())
		}
		var ends []string
		var kinds []string
		for b := 0; b < width; b++ {
			prev := []string{}
			if fan {
				prev = []string{"root"}
			}
			k := r.Intn(4)
			kinds = append(kinds, fmt.Sprint(k))
			for d := 0; d < depth; d++ {
				id := fmt.Sprintf("b%dd%d", b, d)
				key := fmt.Sprintf("m%d", d)
				m := []Out{{K: "ok", N: 1, L: 1, Meet: key, MeetN: width}}
				switch {
				case k == 1: // in a subflow
					s := &Flow{Name: fmt.Sprintf("%ss%s", name, id), In: main.In, Out: main.Out}
					probe(s, "a", ok())
					probe(s, "b", m, "a")
					sc.Flows = append(sc.Flows, s)
					t := probe(main, id, nil, prev...)
					t.Scripts = nil
					t.Sub = s.Name
					t.In = map[string]*Expr{"t": {K: "raw", V: "g" + id}, "p": CtxE("FlowId")}
				case k == 2: // in a loop
					t := probe(main, id, append(m, ok()...), prev...)
					t.Type, t.IterLit = "iterator", 2
					if r.Intn(2) == 0 {
						t.Type, t.IterLit = "doWhile", nil
						t.Cond = Op("<", IterE("index"), Lit(1))
					}
				case k == 3: // when repeated after a failure
					t := probe(main, id, append([]Out{{K: "retry"}}, m...), prev...)
					t.Retry = Lit(1)
				default:
					probe(main, id, m, prev...)
				}
				prev = []string{id}
			}
			ends = append(ends, prev...)
		}
		if r.Intn(2) == 0 {
			probe(main, "join", ok(), ends...)
		}
		for _, f := range sc.Flows {
			f.index()
		}
		out := runScenario(c, sc, runOpts{}, nil)
		if out == nil || out.hang {
			return
		}
		if len(rec.meetFail) > 0 {
			sort.Strings(rec.meetFail)
			c.badf("%d independent branches do not execute at the same time: only some of them reached %v", width, rec.meetFail)
		}
		_, most := overlap(out.evs)
		c.stat("branches", width)
		c.NonTriv = most >= width
		c.Sig = hashOf(fmt.Sprint(width, depth, fan, kinds))
	}

	props["C13"] = &PropDef{ID: "C13", Rule: "random flows executed with concurrent task execution, with failures, returns, loops, retries, subflows, restarts, and with observers under the race detector; non-trivial if activities really overlapped (event logs), all branches met (overlap), or several runs were made (race detector), distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			b := []Batch{
				{Fam: "cc", N: size(q, 4000, 100000), Env: concEnv},
				{Fam: "ccfail", N: size(q, 4000, 100000), Env: concEnv},
				{Fam: "cc", Arg: "debug", N: size(q, 400, 5000), Env: append(debugLog, concEnv...)},
				{Fam: "ccret", N: size(q, 2000, 50000), Env: concEnv},
				{Fam: "ccclash", N: size(q, 4000, 100000), Env: concEnv},
				{Fam: "overlap", N: size(q, 400, 6000), Env: concEnv},
				{Fam: "events", Arg: "c", N: size(q, 1200, 30000), Env: concEnv, Init: "events"},
				{Fam: "trace", Arg: "c", N: size(q, 1200, 30000), Env: concEnv, Init: "trace"},
				{Fam: "coverage", Arg: "c", N: size(q, 1200, 30000), Env: concEnv},
				{Fam: "save", Arg: "c", N: size(q, 500, 10000), Env: concEnv},
				{Fam: "parrace", Arg: "c", N: size(q, 300, 8000), Race: true, Chunk: 20, Env: concEnv},
				{Fam: "parrace", Arg: "ctrack", N: size(q, 200, 4000), Race: true, Chunk: 20, Env: append([]string{"FLOGO_FLOW_SM_ENDPOINT=x"}, concEnv...)},
				{Fam: "parrace", Arg: "cmock", N: size(q, 200, 4000), Race: true, Chunk: 20, Env: concEnv},
				{Fam: "parrace", Arg: "cobs", N: size(q, 200, 4000), Race: true, Chunk: 20, Init: "quietobs", Env: concEnv},
				{Fam: "parrace", Arg: "ctrace", N: size(q, 200, 4000), Race: true, Chunk: 20, Init: "quiettrace", Env: concEnv},
			}
			return b
		}}
}
