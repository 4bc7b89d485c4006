package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/ondemand"
)

// Flow packages executed on demand.

type odPkg struct {
	sc       *Scenario
	pre      string // of the names of its flows
	explicit bool
	doc      M // the package
	req      M // the request without the package
	h        *handler
	note     []string
}

func plainKey(k string) bool { return k != "" && !strings.ContainsAny(k, ".[= ") && k[0] < 128 }

// odInput maps a flow input to v and returns the mapping.
func odInput(c *Case, p *odPkg, name string, v interface{}) interface{} {
	r := c.R
	payload := p.req["payload"].(M)
	kind := 1 + r.Intn(5)
	if kind > 2 && strings.Contains(js(v), "\"=") {
		kind = 1 // that would be an expression
	}
	p.note = append(p.note, fmt.Sprint(kind))
	switch kind {
	case 1:
		p.req["q_"+name] = v
		return "=$.q_" + name
	case 2:
		if s, ok := v.(string); ok && s != "" {
			n := r.Intn(len(s) + 1)
			for n < len(s) && !utf8.RuneStart(s[n]) {
				n++
			}
			payload["l_"+name], payload["r_"+name] = s[:n], s[n:]
			p.sc.Inputs[name] = s[:n] + "+" + s[n:]
			return "=vf.cat($.payload.l_" + name + ", $.payload.r_" + name + ")"
		}
		if n, ok := v.(int); ok {
			payload["n_"+name] = n - 3
			return "=$.payload.n_" + name + " + 3"
		}
		if b, ok := v.(bool); ok {
			payload["b_"+name] = !b
			return "=!$.payload.b_" + name
		}
	case 3:
		if m, ok := v.(map[string]interface{}); ok {
			o := M{}
			for k, x := range m {
				if plainKey(k) && (x == nil || r.Intn(2) == 0) {
					payload["m_"+name+k] = x
					o[k] = "=$.payload.m_" + name + k
				} else {
					o[k] = x
				}
			}
			return M{"mapping": o}
		}
		return v
	case 4:
		return v
	}
	payload[name] = v
	return "=$.payload." + name
}

func odPackage(c *Case, k int) *odPkg {
	p := &odPkg{pre: fmt.Sprintf("od%s%dx%d", c.Arg, c.Idx, k)}
	p.req = M{"payload": M{"other": 1}, "x": nil}
	if c.Arg == "" {
		o := mixOpt(c)
		o.PEmpty = oneOf(c, 0, 0.04)
		o.PNoMeta = oneOf(c, 0, 0.2)
		o.Data = 1 + c.R.Intn(3)
		o.PDet = oneOf(c, 0, 0.3)
		o.NoNil = true // a mapping that yields null is left out
		if concMode() {
			calm(&o)
		}
		p.sc = newGen(c.R.Int63(), p.pre, o).scenario()
	} else {
		g := &limGen{c: c, tag: k * 1000}
		g.flow(1+c.R.Intn(12), 1, c.R.Intn(2) == 0)
		for i, f := range g.flows {
			f.Name = fmt.Sprintf("%sf%d", p.pre, i)
		}
		p.sc = &Scenario{Flows: g.flows, Inputs: map[string]interface{}{"t": "", "p": ""}}
		for _, f := range g.flows {
			for _, t := range f.Main.Tasks {
				if t.Sub != "" {
					t.Sub = p.pre + t.Sub[strings.LastIndexByte(t.Sub, 'f'):]
				}
			}
			f.index()
		}
	}
	f := p.sc.Flows[0]
	if c.R.Intn(8) == 0 {
		// nothing is mapped, every input has its default
		for i := range f.In {
			if v, ok := p.sc.Inputs[f.In[i].Name]; ok && v != nil {
				f.In[i].Def = v
				delete(p.sc.Inputs, f.In[i].Name)
			}
		}
	}
	for _, q := range f.In {
		// what the caller has isn't what the flow gets
		if c.R.Intn(2) == 0 {
			p.req[q.Name] = map[string]interface{}{"string": "leak", "integer": -99, "boolean": true, "object": M{"leak": 1}, "array": []interface{}{"leak"}}[q.Type]
		}
	}
	def := asDoc(f.JSON())
	if c.R.Intn(5) == 0 {
		def["explicitReply"] = true
		p.explicit = true
	}
	for _, g := range f.graphs() {
		for _, t := range g.Tasks {
			p.explicit = p.explicit || t.Ret && t.Sub == ""
		}
	}
	in := M{}
	for _, n := range sortedKeys(p.sc.Inputs) {
		in[n] = odInput(c, p, n, p.sc.Inputs[n])
	}
	p.doc = M{"flow": def}
	if len(in) > 0 {
		p.doc["inputs"] = in
	} else {
		switch c.R.Intn(3) {
		case 0:
			p.doc["inputs"] = M{}
		case 1:
			p.doc["inputs"] = nil
		}
	}
	switch c.R.Intn(3) {
	case 0:
		p.doc["outputs"] = M{}
	case 1:
		p.doc["outputs"] = M{"result": "=$.i1"}
	}
	return p
}

var odFactory ondemand.ActionFactory

func odRun(h *handler, in map[string]interface{}) (err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	act, err := odFactory.New(&action.Config{})
	if err != nil {
		return err, nil
	}
	return act.(action.AsyncAction).Run(context.Background(), in, h), nil
}

// check judges what was seen of one package.
func (p *odPkg) check(c *Case, all []Ev, ls []Lev, ids map[string]bool) *oracle {
	var evs []Ev
	id := ""
	first := true
	for _, e := range all {
		switch e.K {
		case "result", "done":
			if e.Run != p.pre {
				continue
			}
			if e.K == "result" && first && !p.explicit {
				first = false
				s, _ := e.Data["id"].(string)
				if len(e.Data) != 1 || s == "" || e.Err != nil {
					c.badf("the first answer is %s error %s, not the id of the run", js(e.Data), js(e.Err))
				}
				if id != "" && id != s {
					c.badf("the first answer has the id %q, the run is %s", s, id)
				}
				id = s
				continue
			}
		default:
			if !strings.HasPrefix(e.Flow, p.pre+"f") {
				continue
			}
			if e.K == "start" && e.Flow == p.sc.Flows[0].Name {
				if id != "" && id != runOf(e.Inst) {
					c.badf("the first answer has the id %q, the run is %s", id, e.Inst)
				}
				id = runOf(e.Inst)
			}
		}
		evs = append(evs, e)
	}
	if id == "" {
		for _, e := range ls {
			if !e.Task && e.FlowName == p.sc.Flows[0].Name && e.PID == "" {
				id = e.FlowID
			}
		}
		if id == "" {
			id = "?" + p.pre
		}
	}
	if ids[id] {
		c.badf("two runs have the id %s", id)
	}
	ids[id] = true
	o, bad := explain(func() *oracle {
		o := newOracle(p.sc.Flows, id)
		o.conc = concMode()
		o.prio = os.Getenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK") == "true"
		o.limit = c.Arg != ""
		o.noPrio = true
		o.start(p.sc.Flows[0], p.sc.Inputs)
		return o
	}, evs)
	c.Bad = append(c.Bad, bad...)
	if c.Arg != "" {
		L, _ := strconv.Atoi(os.Getenv("FLOGO_MAX_STEP_COUNT"))
		n := 0
		for i := range evs {
			if evs[i].K == "end" && evs[i].O.K != "retry" {
				n++
			}
		}
		if n > L {
			c.badf("%d activity executions with a limit of %d steps", n, L)
		}
		for _, r := range o.results {
			if r.Err != nil {
				c.stat("limited", 1)
			}
		}
	}
	if len(bad) > 0 {
		c.Detail = map[string]interface{}{"scenario": p.sc, "package": p.doc, "request": p.req, "events": evs, "pretty": pretty(p.sc, evs)}
	}
	return o
}

// odSpoil makes a package one that must be refused.
func odSpoil(c *Case, p *odPkg) (what string, in map[string]interface{}) {
	r := c.R
	in = map[string]interface{}{}
	for k, v := range p.req {
		in[k] = v
	}
	flow := p.doc["flow"].(M)
	ins := sub(p.doc, "inputs")
	raw := func() { in["flowPackage"] = json.RawMessage(js(p.doc)) }
	k := r.Intn(11)
	if len(docTasks(flow)) == 0 && k > 3 && k < 8 {
		k = 8
	}
	switch k {
	case 0:
		return "missing package", in
	case 1:
		in["flowPackage"] = []interface{}{nil, 1, true, "not a package", []interface{}{}, map[string]interface{}{}, []byte("{"), 1.5}[r.Intn(8)]
		return fmt.Sprintf("package of type %T", in["flowPackage"]), in
	case 2:
		b := js(p.doc)
		in["flowPackage"] = json.RawMessage(b[:r.Intn(len(b))])
		return "truncated package", in
	case 3:
		in["flowPackage"] = json.RawMessage([]string{"null", "{}", "[]", "1", `"x"`, `{"flow":null}`, `{"flow":1}`, `{"flow":"x"}`, `{"inputs":[],"flow":{}}`, `{"inputs":{}}`, "", `{"flow":[]}`}[r.Intn(12)])
		return "package " + string(in["flowPackage"].(json.RawMessage)), in
	case 4, 5, 6, 7:
		b := js(flow)
		var names []string
		for {
			what, names = plant(r, flow)
			if len(names) > 0 && !strings.HasPrefix(what, "input m=") {
				break
			}
			flow = asDoc([]byte(b))
			p.doc["flow"] = flow
		}
		raw()
		return "definition: " + what, in
	case 8:
		ins["i1"] = "=" + badExprs[r.Intn(len(badExprs))]
		raw()
		return "mapping " + js(ins["i1"]), in
	case 9:
		ins["i1"] = []string{"=$.nosuchvalue", "=$.payload.nosuch.deep", "=$.x.y", `=vf.err("x")`, "=$.nosuch == 1", "=$.payload.other[3]"}[r.Intn(6)]
		raw()
		return "mapping " + js(ins["i1"]), in
	default:
		ins["i1"] = M{"mapping": M{"a": []string{"=$.nosuchvalue", `=vf.err("x")`, "=$.payload.nosuch.deep"}[r.Intn(3)]}}
		raw()
		return "mapping " + js(ins["i1"]), in
	}
}

func odCase(c *Case) {
	n := 1
	if c.R.Intn(4) == 0 {
		n = 2 + c.R.Intn(4)
	}
	var ps []*odPkg
	for k := 0; k < n; k++ {
		p := odPackage(c, k)
		for i, f := range p.sc.Flows {
			if i > 0 {
				if err := loadFlow(f); err != nil {
					c.badf("valid flow %s refused: %v", f.Name, err)
					return
				}
			}
		}
		ps = append(ps, p)
	}
	takeLev()
	rec.reset()
	var wg sync.WaitGroup
	for _, p := range ps {
		p := p
		p.h = newHandler(p.pre)
		in := map[string]interface{}{"flowPackage": json.RawMessage(js(p.doc))}
		for k, v := range p.req {
			in[k] = v
		}
		run := func() {
			if err, pan := odRun(p.h, in); err != nil || pan != nil {
				rec.add(Ev{K: "refused", Run: p.pre, Err: &EInfo{Msg: fmt.Sprint(err, pan)}})
				return
			}
			if !p.h.wait(hangTimeout) {
				rec.add(Ev{K: "hang", Run: p.pre})
			}
		}
		if n == 1 {
			run()
			break
		}
		wg.Add(1)
		go func() { defer wg.Done(); run() }()
	}
	wg.Wait()
	quietDown()
	evs := rec.take()
	ls := takeLev()
	hung := false
	for _, e := range evs {
		switch e.K {
		case "refused":
			c.badf("a valid package was refused: %s", e.Err.Msg)
		case "hang":
			c.badf("the run did not end within %v", hangTimeout)
			c.Hang = true
			hung = true
		}
	}
	c.Sig = ""
	c.stat("events", len(evs))
	c.stat("packages", n)
	ids := map[string]bool{}
	var sig strings.Builder
	for _, p := range ps {
		if c.Detail == nil {
			c.Detail = map[string]interface{}{"scenario": p.sc, "package": p.doc, "request": p.req, "events": evs, "pretty": pretty(p.sc, evs)}
		}
		if hung || len(c.Bad) > 0 {
			return
		}
		o := p.check(c, evs, ls, ids)
		if n == 1 && c.Arg == "" && len(c.Bad) == 0 && o.stats["empty"] == 0 {
			checkEvents(c, o, evs, ls, false)
		}
		for k, v := range o.stats {
			c.stat(k, v)
		}
		if p.explicit {
			c.stat("explicit", 1)
		}
		c.NonTriv = c.NonTriv || o.execs >= 1
		fmt.Fprint(&sig, len(p.sc.Inputs), p.note, p.explicit)
		var mine []Ev
		for _, e := range evs {
			if e.Run == p.pre || strings.HasPrefix(e.Flow, p.pre+"f") {
				e.Inst = strings.TrimPrefix(e.Inst, runOf(e.Inst))
				mine = append(mine, e)
			}
		}
		sig.WriteString(shape(p.sc, mine, ""))
	}
	// every run that was reported as started is reported as ended once
	state := map[string]int{}
	for _, e := range ls {
		if e.Task {
			continue
		}
		c.stat("flowevents", 1)
		if e.St == "Started" {
			state[e.FlowID]++
		} else {
			state[e.FlowID] += 10
		}
	}
	for id, x := range state {
		if x != 11 {
			c.badf("flow run %s has %d started and %d final events", id, x%10, x/10)
		}
	}
	c.Sig = hashOf(sig.String())
	if c.Sample == nil && c.Idx < 2 {
		c.Sample = map[string]interface{}{"package": ps[0].doc, "request": ps[0].req, "trace": brief(evs)}
	}
}

func odBad(c *Case) {
	p := odPackage(c, 0)
	for i, f := range p.sc.Flows {
		if i > 0 {
			if err := loadFlow(f); err != nil {
				c.badf("valid flow %s refused: %v", f.Name, err)
				return
			}
		}
	}
	what, in := odSpoil(c, p)
	rec.reset()
	h := newHandler(p.pre)
	show := fmt.Sprintf("%s", in["flowPackage"])
	err, pan := odRun(h, in)
	quietDown()
	evs := rec.take()
	switch {
	case pan != nil:
		c.badf("%s: Run panicked: %v", what, pan)
	case err == nil:
		c.badf("%s: not refused (results %s)", what, js(evs))
	case err.Error() == "":
		c.badf("%s: refused with an empty error", what)
	}
	if len(evs) > 0 && len(c.Bad) == 0 {
		c.badf("%s: refused with %q, but %d events followed: %s", what, err, len(evs), js(evs))
	}
	c.NonTriv = true
	c.Sig = hashOf(what + show)
	c.Detail = map[string]interface{}{"what": what, "package": show, "request": p.req, "events": evs}
}

func init() {
	inits["ondemand"] = func() {
		inits["events"]()
		if err := odFactory.Initialize(&initCtx{sm: service.NewServiceManager()}); err != nil {
			panic(err)
		}
	}
	families["ondemand"] = odCase
	families["odbad"] = odBad
	props["C23"] = &PropDef{ID: "C23", Rule: "packages made of random flows and input mappings, executed on demand alone or several at a time and judged by the execution oracle, and packages with one defect, which must be refused and start nothing; a run counts if an activity executed, distinct by package shape and event order or by defect",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "ondemand", N: size(q, 3000, 80000), Init: "ondemand"},
				{Fam: "odbad", N: size(q, 4000, 100000), Init: "ondemand"},
				{Fam: "ondemand", Arg: "limit", N: size(q, 600, 10000), Init: "ondemand", Env: []string{"FLOGO_MAX_STEP_COUNT=7"}},
				{Fam: "ondemand", Arg: "limit", N: size(q, 300, 5000), Init: "ondemand", Env: append([]string{"FLOGO_MAX_STEP_COUNT=7"}, concEnv...)},
				{Fam: "ondemand", N: size(q, 800, 20000), Init: "ondemand", Env: concEnv}}
		}}
}
