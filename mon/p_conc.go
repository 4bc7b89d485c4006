package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/trigger"
	"github.com/project-flogo/flow/instance"
)

// uriOf holds the flows that are not loaded as resources.
var uriOf = map[string]string{}

// jitter makes probes yield at random, to vary the interleaving.
var jitter int32

func setJitter(on bool) {
	v := int32(0)
	if on {
		v = 1
	}
	atomic.StoreInt32(&jitter, v)
}

func yield() {
	switch rand.Intn(8) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
	}
}

// vary returns inputs of the same shape with other values.
func vary(r *rand.Rand, v interface{}, tag string) interface{} {
	switch x := v.(type) {
	case string:
		if x == "" {
			return x
		}
		return x + "~" + tag
	case int:
		return r.Intn(6)
	case bool:
		return r.Intn(2) == 0
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = vary(r, e, tag)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = vary(r, e, tag)
		}
		return l
	}
	return v
}

type parRun struct {
	id string
	sc *Scenario
	in map[string]interface{}
	h  *handler
}

// remoteFlows stores some of the called flows in files, so that they are loaded when first used.
func remoteFlows(c *Case, scs []*Scenario, p float64) (dir string, err error) {
	dir, err = os.MkdirTemp("", "verifmon")
	if err != nil {
		return
	}
	uriOf = map[string]string{}
	for _, sc := range scs {
		for i, f := range sc.Flows {
			if i > 0 && c.R.Float64() < p {
				uriOf[f.Name] = "file://" + filepath.Join(dir, f.Name+".json")
			}
		}
	}
	for _, sc := range scs {
		for _, f := range sc.Flows {
			if uriOf[f.Name] != "" {
				if err = os.WriteFile(filepath.Join(dir, f.Name+".json"), f.JSON(), 0o600); err != nil {
					return
				}
			}
		}
	}
	return
}

func loadLocal(c *Case, scs []*Scenario) bool {
	for _, sc := range scs {
		for i := len(sc.Flows) - 1; i >= 0; i-- {
			if uriOf[sc.Flows[i].Name] != "" {
				continue
			}
			if err := loadFlow(sc.Flows[i]); err != nil {
				c.badf("valid flow refused: %v", err)
				return false
			}
		}
	}
	return true
}

func parOpt(c *Case) genOpt {
	o := mixOpt(c)
	o.BigMax = 40
	o.MaxT = imin(o.MaxT, 7)
	o.PSub, o.Depth = 0.25, c.R.Intn(3)
	o.Data = 1 + c.R.Intn(4)
	o.PIter, o.PDoW = 0.1, 0.1
	return o
}

func init() {
	// runs at the same time, each compared with the reference for it alone
	families["par"] = func(c *Case) {
		var scs []*Scenario
		for k := 0; k < 1+c.R.Intn(3); k++ {
			scs = append(scs, newGen(c.R.Int63(), fmt.Sprintf("par%ds%d", c.Idx, k), parOpt(c)).scenario())
		}
		dir, err := remoteFlows(c, scs, oneOf(c, 0, 0.5))
		defer os.RemoveAll(dir)
		if err != nil {
			c.badf("%v", err)
			return
		}
		if !loadLocal(c, scs) {
			return
		}
		rec.reset()
		var runs []*parRun
		acts := map[*Scenario]action.Action{}
		for _, sc := range scs {
			if acts[sc], err = newAction(sc.Flows[0].Name); err != nil {
				c.badf("action of a valid flow refused: %v", err)
				return
			}
			n := 2 + c.R.Intn(9)
			for i := 0; i < n; i++ {
				r := &parRun{id: fmt.Sprintf("q%dx%d", c.Idx, len(runs)), sc: sc, in: map[string]interface{}{}}
				for k, v := range sc.Inputs {
					if i == 0 || c.R.Intn(6) > 0 {
						r.in[k] = vary(c.R, v, r.id)
					} else if k == "t" || k == "p" {
						r.in[k] = v
					} else {
						r.in[k] = vary(c.R, v, r.id)
					}
				}
				runs = append(runs, r)
			}
		}
		setJitter(true)
		defer setJitter(false)
		c.R.Shuffle(len(runs), func(i, j int) { runs[i], runs[j] = runs[j], runs[i] })
		begin := make(chan struct{})
		var wg sync.WaitGroup
		var failed int32
		for _, r := range runs {
			wg.Add(1)
			go func(r *parRun) {
				defer wg.Done()
				<-begin
				var err error
				ctx := trigger.NewContextWithEventId(context.Background(), "ev-"+r.id)
				r.h, err = startRun(acts[r.sc], r.in, runOpts{id: r.id, ctx: ctx})
				if err != nil {
					atomic.AddInt32(&failed, 1)
					return
				}
				if !r.h.wait(hangTimeout) {
					atomic.AddInt32(&failed, 1)
				}
			}(r)
		}
		close(begin)
		wg.Wait()
		if failed > 0 {
			c.Hang = true
			c.badf("%d of %d simultaneous runs failed to start or end", failed, len(runs))
			return
		}
		quietDown()
		evs := rec.take()
		by := map[string][]Ev{}
		order := ""
		for _, e := range evs {
			id := e.Run
			if id == "" {
				id = runOf(e.Inst)
			}
			by[id] = append(by[id], e)
			order += id[strings.Index(id, "x")+1:] + e.K[:1]
		}
		over := 0
		for i := 1; i < len(evs); i++ {
			if runOf(evs[i].Inst+evs[i].Run) != runOf(evs[i-1].Inst+evs[i-1].Run) {
				over++
			}
		}
		for _, r := range runs {
			o, bad := explain(func() *oracle {
				o := newOracle(r.sc.Flows, r.id)
				o.prio = os.Getenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK") == "true"
				o.eventID, o.evIDs = "ev-"+r.id, true
				o.start(r.sc.Flows[0], r.in)
				return o
			}, by[r.id])
			delete(by, r.id)
			for k, v := range o.stats {
				c.stat(k, v)
			}
			if len(bad) > 0 {
				c.badf("run %s of %d simultaneous runs: %s", r.id, len(runs), strings.Join(bad, "; "))
				c.Detail = map[string]interface{}{"scenario": &Scenario{Flows: r.sc.Flows, Inputs: r.in}, "flow": flowJSONs(r.sc), "events": evs}
				break
			}
		}
		for id := range by {
			if len(c.Bad) == 0 {
				c.badf("events of an unknown run %s", id)
			}
		}
		c.stat("runs", len(runs))
		c.stat("switches", over)
		c.stat("events", len(evs))
		c.Sig = hashOf(order)
		c.NonTriv = over > len(runs)
		if c.Idx < 2 {
			c.Sample = map[string]interface{}{"flows": len(scs), "runs": len(runs), "events": len(evs), "switches between runs": over, "order": clip(order, 300)}
		}
	}

	// the same without any synchronisation by the harness, for the race detector
	families["parrace"] = func(c *Case) {
		quiet = true
		var scs []*Scenario
		plans := map[*Scenario]*mockPlan{}
		for k := 0; k < 1+c.R.Intn(3); k++ {
			o := parOpt(c)
			o.PRetry, o.PDoW, o.PSleep, o.PReply = oneOf(c, 0, 0.1), 0, 0, 0
			o.PErr = oneOf(c, 0, 0.1)
			if concMode() {
				o.PStart, o.PSub = oneOf(c, 0.3, 0.7), oneOf(c, 0.1, 0.4)
				if c.R.Intn(2) == 0 {
					o.PReply = 0.05
				}
			}
			g := newGen(c.R.Int63(), fmt.Sprintf("pr%ds%d", c.Idx, k), o)
			scs = append(scs, g.scenario())
			if strings.Contains(c.Arg, "mock") {
				p := g.plan(scs[k], oneOf(c, 0, 0.1), oneOf(c, 0.2, 0.6))
				g.fill(p, []interface{}{0, 1, true, "activity", ""})
				p.Coverage = p.Coverage || c.R.Intn(2) == 0
				plans[scs[k]] = p
			}
		}
		dir, err := remoteFlows(c, scs, oneOf(c, 0, 0.7))
		defer os.RemoveAll(dir)
		if err != nil {
			c.badf("%v", err)
			return
		}
		if !loadLocal(c, scs) {
			return
		}
		n := 0
		type qrun struct {
			id   string
			name string
			act  action.Action
			in   map[string]interface{}
			exec *instance.ExecOptions
			h    *qhandler
			ret  chan struct{} // closed when Run returned
			err  error
		}
		var runs []*qrun
		for _, sc := range scs {
			var act action.Action
			shared := c.R.Intn(3) > 0
			for i := 0; i < 3+c.R.Intn(5); i++ {
				r := &qrun{id: fmt.Sprintf("q%dx%d", c.Idx, n), name: sc.Flows[0].Name, in: map[string]interface{}{}}
				n++
				if shared {
					if act == nil {
						if act, err = newAction(r.name); err != nil {
							c.badf("action of a valid flow refused: %v", err)
							return
						}
					}
					r.act = act
				}
				for k, v := range sc.Inputs {
					r.in[k] = vary(c.R, v, r.id)
				}
				if p := plans[sc]; p != nil {
					r.exec = &instance.ExecOptions{Interceptor: p.interceptor()}
				}
				r.ret = make(chan struct{})
				r.h = &qhandler{ch: make(chan struct{})}
				runs = append(runs, r)
			}
		}
		begin := make(chan struct{})
		for _, r := range runs {
			go func(r *qrun) {
				defer close(r.ret)
				<-begin
				a := r.act
				if a == nil {
					if a, r.err = newAction(r.name); r.err != nil {
						return
					}
				}
				r.in["_run_options"] = &instance.RunOptions{Op: instance.OpStart, PreservedInstanceId: r.id, ExecOptions: r.exec}
				r.err = a.(action.AsyncAction).Run(context.Background(), r.in, r.h)
			}(r)
		}
		close(begin)
		sig := ""
		for _, r := range runs {
			<-r.ret
			if r.err != nil {
				c.badf("run refused: %v", r.err)
				return
			}
			select {
			case <-r.h.ch:
			case <-time.After(hangTimeout):
				c.Hang = true
				c.badf("the run did not end within %v", hangTimeout)
				return
			}
			if r.h.n != 1 || r.h.done != 1 {
				c.badf("run %s: %d results, %d completions", r.id, r.h.n, r.h.done)
			}
			s := js(r.h.res) + fmt.Sprint(r.h.err)
			for _, m := range runIDs.FindAllString(s, -1) {
				if m != r.id {
					c.badf("result of run %s holds data of run %s: %s", r.id, m, clip(s, 500))
					break
				}
			}
			sig += runIDs.ReplaceAllString(s, "Q") + ";"
		}
		quietDown()
		c.stat("runs", len(runs))
		c.NonTriv = len(runs) > 1
		c.Sig = hashOf(sig + fmt.Sprint(c.Idx))
		if c.Idx < 2 {
			c.Sample = map[string]interface{}{"flows": len(scs), "runs": len(runs), "results": clip(sig, 500)}
		}
	}
	props["C12"] = &PropDef{ID: "C12",
		Rule: "groups of runs of the same and of different flows started at the same moment; non-trivial if the events of different runs alternate more often than there are runs (checked runs), or there are several runs (race detector runs); distinct by event order or results",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "par", N: size(q, 2400, 60000)}, {Fam: "parrace", N: size(q, 800, 16000), Race: true, Chunk: 20},
				{Fam: "parrace", N: size(q, 200, 4000), Race: true, Chunk: 20, Arg: "track", Env: []string{"FLOGO_FLOW_SM_ENDPOINT=x"}},
				{Fam: "parrace", N: size(q, 60, 1000), Race: true, Chunk: 20, Env: debugLog},
				{Fam: "parrace", N: size(q, 200, 4000), Race: true, Chunk: 20, Arg: "mock"},
				{Fam: "parrace", N: size(q, 200, 4000), Race: true, Chunk: 20, Arg: "obs", Init: "quietobs"},
				{Fam: "parrace", N: size(q, 200, 4000), Race: true, Chunk: 20, Arg: "trace", Init: "quiettrace"}}
		}}
}

var runIDs = regexp.MustCompile(`q\d+x\d+`)

type qhandler struct {
	n, done int
	res     map[string]interface{}
	err     error
	ch      chan struct{}
}

func (h *qhandler) HandleResult(m map[string]interface{}, err error) {
	h.n++
	h.res, h.err = m, err
}

func (h *qhandler) Done() {
	h.done++
	if h.done == 1 {
		close(h.ch)
	}
}
