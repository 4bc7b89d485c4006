package main

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/project-flogo/core/trigger"
)

func init() {
	inits["plain"] = func() { setupEngine(nil, nil) }
}

// exec loads and runs a scenario and returns what was observed.
type runOut struct {
	evs  []Ev
	hang bool
	o    *oracle
}

func loadScenario(c *Case, sc *Scenario) bool {
	for i := len(sc.Flows) - 1; i >= 0; i-- {
		if err := loadFlow(sc.Flows[i]); err != nil {
			c.badf("valid flow %s refused: %v\n%s", sc.Flows[i].Name, err, sc.Flows[i].JSON())
			c.Detail = sc
			return false
		}
	}
	return true
}

// runScenario runs a scenario once and checks it against the oracle.
func runScenario(c *Case, sc *Scenario, opt runOpts, mod func(o *oracle)) *runOut {
	if !loadScenario(c, sc) {
		return nil
	}
	return runLoaded(c, sc, opt, mod)
}

func runLoaded(c *Case, sc *Scenario, opt runOpts, mod func(o *oracle)) *runOut {
	act, err := newAction(sc.Flows[0].Name)
	if err != nil {
		c.badf("action of a valid flow refused: %v", err)
		return nil
	}
	rec.reset()
	if opt.id == "" {
		opt.id = fmt.Sprintf("r%d", c.Idx)
	}
	h, err := startRun(act, sc.Inputs, opt)
	if err != nil {
		c.badf("run refused: %v", err)
		return nil
	}
	mk := func() *oracle {
		o := newOracle(sc.Flows, opt.id)
		o.conc = concMode()
		o.prio = os.Getenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK") == "true"
		if mod != nil {
			mod(o)
		}
		o.start(sc.Flows[0], sc.Inputs)
		return o
	}
	out := &runOut{}
	if !h.wait(hangTimeout) {
		out.hang = true
		out.o = mk()
		c.Hang = true
		out.evs = rec.take()
		c.badf("the run did not end within %v", hangTimeout)
		c.Detail = map[string]interface{}{"scenario": sc, "flow": flowJSONs(sc), "events": out.evs, "pretty": pretty(sc, out.evs)}
		return out
	}
	// whatever goes on after the end of the run belongs to it
	quietDown()
	out.evs = rec.take()
	o, bad := explain(mk, out.evs)
	out.o = o
	c.Bad = append(c.Bad, bad...)
	for k, v := range o.stats {
		c.stat(k, v)
	}
	c.stat("events", len(out.evs))
	c.Sig = hashOf(shape(sc, out.evs, opt.id))
	if c.Sample == nil && c.Idx < 3 {
		c.Sample = map[string]interface{}{"flow": rawJSON(sc.Flows[0].JSON()), "flows": len(sc.Flows), "inputs": sc.Inputs, "trace": brief(out.evs)}
	}
	if c.Detail == nil {
		c.Detail = map[string]interface{}{"scenario": sc, "flow": flowJSONs(sc), "events": out.evs, "pretty": pretty(sc, out.evs)}
	}
	return out
}

var (
	idleG  int       // goroutines when no case is running
	staleG time.Time // idleG is a guess since then
)

// settleG finds the number of goroutines before the first case.
func settleG() {
	idleG = runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		time.Sleep(time.Millisecond)
		lowG()
	}
}

func lowG() int {
	n := runtime.NumGoroutine()
	if n < idleG {
		idleG, staleG = n, time.Time{}
	}
	return n
}

// quietDown waits until the goroutines started by the cases have ended.
func quietDown() {
	start := time.Now()
	for i := 0; lowG() > idleG || inAct.Load() > 0; i++ {
		switch {
		case i < 100:
			runtime.Gosched()
		case i < 1000:
			time.Sleep(time.Duration(i/2) * 10 * time.Microsecond)
		case time.Since(start) < 12*time.Second:
			time.Sleep(20 * time.Millisecond)
		default:
			idleG, staleG = runtime.NumGoroutine(), time.Now() // something stays for good
			return
		}
	}
	// what stayed may have ended meanwhile and hide something that is still running
	if !staleG.IsZero() {
		for i := 0; i < 20; i++ {
			time.Sleep(time.Millisecond)
			lowG()
		}
	}
}

func concMode() bool { return os.Getenv("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION") == "true" }

func (f *Flow) graphs() []*Graph {
	if f.EH != nil {
		return []*Graph{&f.Main, f.EH}
	}
	return []*Graph{&f.Main}
}

type rawJSON []byte

func (r rawJSON) MarshalJSON() ([]byte, error) { return r, nil }

func flowJSONs(sc *Scenario) []rawJSON {
	var r []rawJSON
	for _, f := range sc.Flows {
		r = append(r, f.JSON())
	}
	return r
}

func brief(evs []Ev) []string {
	var s []string
	for _, e := range evs {
		x := e.K + " " + e.Inst + "/" + e.Task
		if e.O != nil {
			x += " " + e.O.K
		}
		if e.K == "result" {
			x = "result " + js(e.Data)
			if e.Err != nil {
				x += " error " + e.Err.Msg
			}
		}
		s = append(s, x)
	}
	return s
}

// shape describes structure and order of what happened without its data.
func shape(sc *Scenario, evs []Ev, run string) string {
	var sb strings.Builder
	for _, f := range sc.Flows {
		for _, g := range f.graphs() {
			for _, t := range g.Tasks {
				fmt.Fprintf(&sb, "%s:%s%v%v;", t.ID, t.Type, t.Sub != "", t.Det)
			}
			for _, l := range g.Links {
				fmt.Fprintf(&sb, "%s>%s%s;", l.From, l.To, l.Type)
			}
		}
		sb.WriteString("|")
	}
	for _, e := range evs {
		k := ""
		if e.O != nil {
			k = e.O.K
		}
		fmt.Fprintf(&sb, "%s%s/%s%s;", e.K[:1], strings.TrimPrefix(e.Inst, run), e.Task, k)
	}
	return sb.String()
}

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// genFamily registers a family of randomly generated scenarios.
func genFamily(name string, opt func(c *Case) genOpt, mod func(c *Case, o *oracle), nontriv func(c *Case, o *oracle) bool) {
	families[name] = func(c *Case) {
		g := newGen(c.Seed, fmt.Sprintf("%s%d", name, c.Idx), opt(c))
		sc := g.scenario()
		ro, ev := runOpts{}, ""
		if name == "detached" && c.R.Intn(3) > 0 {
			ev = fmt.Sprintf("ev-%d", c.Idx)
			ro.ctx = trigger.NewContextWithEventId(context.Background(), ev)
		}
		out := runScenario(c, sc, ro, func(o *oracle) {
			o.eventID, o.evIDs = ev, true
			if mod != nil {
				mod(c, o)
			}
		})
		if out == nil || out.hang {
			return
		}
		c.NonTriv = nontriv(c, out.o)
	}
}
