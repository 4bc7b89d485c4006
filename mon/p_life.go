package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/flow/definition"
	flowsupport "github.com/project-flogo/flow/support"

	_ "verifmon/life/both"
	_ "verifmon/life/cl"
	_ "verifmon/life/rc"
	_ "verifmon/life/sing"
	"verifmon/probe"
)

// Reconfiguration and disposal of flows.

type lifeCall struct {
	Kind, Flow, Task string
	UID              int64
	Set              M
	Err              bool
}

var life struct {
	mu    sync.Mutex
	calls []lifeCall
	fail  map[string]bool // flow|name
}

func lifeHook(kind string, a *probe.Act, set map[string]interface{}) error {
	life.mu.Lock()
	defer life.mu.Unlock()
	n, _ := norm(set).(M)
	k := a.FlowName + "|" + a.TaskName
	e := kind != "new" && life.fail[k]
	life.calls = append(life.calls, lifeCall{kind, a.FlowName, a.TaskName, a.UID, n, e})
	if e {
		return errors.New("refused by " + k)
	}
	return nil
}

func takeCalls() []lifeCall {
	life.mu.Lock()
	defer life.mu.Unlock()
	l := life.calls
	life.calls = nil
	return l
}

type lifeTask struct {
	f    *Flow
	t    *Task
	eh   bool
	kind string                   // plain rc cl both sing other
	cur  map[string][]interface{} // possible values of the settings
	uid  int64
	cfg  string // in use
	none bool   // no activity
	bare bool   // loaded without settings
}

func (x *lifeTask) reconf() bool  { return !x.none && (x.kind == "rc" || x.kind == "both") }
func (x *lifeTask) dispose() bool { return !x.none && (x.kind == "cl" || x.kind == "both") }
func (x *lifeTask) key() string   { return x.f.Name + "|" + x.t.Name }

type lifeFlow struct {
	f     *Flow
	doc   M
	tasks []*lifeTask
	def   *definition.Definition
	runs  bool
}

func (lf *lifeFlow) byID(id string) *lifeTask {
	for _, x := range lf.tasks {
		if x.t.ID == id {
			return x
		}
	}
	return nil
}

// lifeSet writes a random valid setting and returns its value.
func lifeSet(r *rand.Rand, set M, k string, cfg func() string) interface{} {
	switch k {
	case "n":
		n := r.Intn(50)
		switch r.Intn(3) {
		case 0:
			set[k] = n
		case 1:
			set[k] = fmt.Sprint(n)
		default:
			set[k] = fmt.Sprintf("=%d + %d", n/2, n-n/2)
		}
		return n
	case "cfg":
		s := cfg()
		set[k] = s
		return s
	}
	a, b := fmt.Sprint("v", r.Intn(1000)), fmt.Sprint("w", r.Intn(1000))
	switch r.Intn(5) {
	case 0:
		set[k] = fmt.Sprintf("=vf.cat(%q, %q)", a, b)
		return a + "+" + b
	case 1:
		set[k] = M{"a": a, "b": []interface{}{b, 1}}
	case 2:
		set[k] = r.Intn(2) == 0
	case 3:
		set[k] = nil
	default:
		set[k] = a
	}
	return set[k]
}

func lifeBad(r *rand.Rand, set M) {
	switch r.Intn(5) {
	case 0:
		set["n"] = "many"
	case 1:
		set["any"] = `=vf.err("no")`
	case 2:
		set["n"] = `="x" + "y"`
	case 3:
		set["any"] = "=1 +"
	default:
		set["n"] = M{"x": 1}
	}
}

func lifePrep(c *Case, f *Flow, runs, loops bool) *lifeFlow {
	r := c.R
	lf := &lifeFlow{f: f, doc: asDoc(f.JSON()), runs: runs}
	for gi, g := range docGraphs(lf.doc) {
		for ti, d := range docTasks(g) {
			t := f.graphs()[gi].Tasks[ti]
			x := &lifeTask{f: f, t: t, eh: gi == 1, kind: "other", cur: map[string][]interface{}{}}
			lf.tasks = append(lf.tasks, x)
			a := d["activity"].(M)
			if !runs && r.Intn(6) == 0 {
				delete(d, "activity")
				x.none = true
				continue
			}
			if t.Sub != "" || t.Ret {
				continue
			}
			x.kind = []string{"plain", "rc", "rc", "cl", "both", "both", "both", "sing"}[r.Intn(8)]
			if x.kind == "sing" && loops {
				x.kind = "plain"
			}
			if x.kind == "sing" {
				delete(a, "settings")
			} else if !runs && r.Intn(4) == 0 {
				x.bare = true
				switch r.Intn(3) {
				case 0:
					delete(a, "settings")
				case 1:
					a["settings"] = M{}
				default:
					a["settings"] = nil
				}
			} else {
				s := sub(a, "settings")
				x.cfg = s["cfg"].(string)
				x.cur["cfg"] = []interface{}{x.cfg}
				for _, k := range []string{"n", "any"} {
					if r.Intn(2) == 0 {
						x.cur[k] = []interface{}{lifeSet(r, s, k, nil)}
					}
				}
			}
			if x.kind != "plain" {
				a["ref"] = "verifmon/life/" + x.kind
			}
		}
	}
	return lf
}

func in1(vs []interface{}, v interface{}) bool {
	for _, x := range vs {
		if eq(norm(x), v) {
			return true
		}
	}
	return false
}

// setOK tells whether the settings are possible ones.
func setOK(want map[string][]interface{}, got M) string {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("setting %s is missing", k)
		}
		if !in1(v, g) {
			return fmt.Sprintf("setting %s is %s, not %s", k, js(g), js(v))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("setting %s (%s) was never given", k, js(g))
		}
	}
	return ""
}

type lifeWant struct {
	x      *lifeTask
	given  map[string]interface{} // resolved
	listed bool                   // with settings
	bad    bool
}

// lifeDoc makes a document for a reconfiguration of the flow and the calls it should cause.
func lifeDoc(c *Case, lf *lifeFlow, rev *int) (M, []*lifeWant) {
	r := c.R
	m := asDoc([]byte(js(lf.doc)))
	var ws []*lifeWant
	pAll := oneOf(c, 0.1, 0.3, 0.7)
	if r.Intn(4) == 0 {
		delete(m, "links")
		delete(m, "metadata")
	}
	for gi, g := range docGraphs(m) {
		var keep []interface{}
		for _, d := range docTasks(g) {
			x := lf.byID(d["id"].(string))
			if r.Float64() < pAll*0.5 {
				continue // not listed
			}
			if r.Intn(25) == 0 {
				keep = append(keep, nil)
			}
			if r.Intn(25) == 0 {
				keep = append(keep, M{"id": "nosuchtask", "activity": M{"ref": "verifmon/life/rc", "settings": M{"cfg": "{}", "n": "many"}}})
			}
			keep = append(keep, d)
			w := &lifeWant{x: x, given: map[string]interface{}{}}
			ws = append(ws, w)
			if x.none {
				if r.Intn(2) == 0 {
					d["activity"] = M{"ref": "verifmon/life/rc", "settings": M{"cfg": "{}", "n": 1}}
				}
				continue
			}
			a := d["activity"].(M)
			if x.kind == "other" || x.kind == "sing" {
				if r.Intn(3) == 0 {
					sub(a, "settings")["n"] = []interface{}{1, "many"}[r.Intn(2)]
				}
				continue
			}
			s := M{}
			switch p := r.Float64(); {
			case p < 0.06:
				switch r.Intn(2) {
				case 0:
					delete(d, "activity")
				default:
					d["activity"] = nil
				}
				continue
			case p < 0.16:
				switch r.Intn(3) {
				case 0:
					delete(a, "settings")
				case 1:
					a["settings"] = s
				default:
					a["settings"] = nil
				}
				continue
			}
			cfg := func() string {
				*rev++
				sc := x.t.Scripts
				return fmt.Sprintf(`{"id":%q,"scripts":%s,"rev":%d}`, x.t.ID, js(sc), *rev)
			}
			for _, k := range []string{"cfg", "n", "any"} {
				if r.Float64() < 0.6 {
					w.given[k] = lifeSet(r, s, k, cfg)
				}
			}
			if len(s) == 0 {
				w.given["n"] = lifeSet(r, s, "n", nil)
			}
			w.listed = true
			if r.Intn(9) == 0 {
				lifeBad(r, s)
				w.bad = true
			}
			a["settings"] = s
			if r.Intn(3) == 0 {
				delete(a, "input")
			}
			if r.Intn(5) == 0 {
				delete(a, "ref")
			}
		}
		if keep == nil && r.Intn(2) == 0 {
			g["tasks"] = []interface{}{[]interface{}{}, nil}[r.Intn(2)]
		} else if keep == nil {
			delete(g, "tasks")
		} else {
			r.Shuffle(len(keep), func(i, j int) { keep[i], keep[j] = keep[j], keep[i] })
			g["tasks"] = keep
		}
		if gi == 1 && r.Intn(12) == 0 {
			var rest []*lifeWant
			for _, w := range ws {
				if !w.x.eh {
					rest = append(rest, w)
				}
			}
			ws = rest
			switch r.Intn(3) {
			case 0:
				delete(m, "errorHandler")
			case 1:
				m["errorHandler"] = nil
			default:
				m["errorHandler"] = M{}
			}
		}
	}
	if m["errorHandler"] == nil && lf.doc["errorHandler"] == nil && r.Intn(8) == 0 {
		m["errorHandler"] = M{"tasks": []interface{}{M{"id": "other", "activity": M{"settings": M{"n": 1}}}}}
	}
	return m, ws
}

func (lf *lifeFlow) reconfigure(b []byte) (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	return lf.def.Reconfigure(&resource.Config{ID: "flow:" + lf.f.Name, Data: b}), ""
}

func (lf *lifeFlow) cleanup() (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	return lf.def.Cleanup(), ""
}

// kept checks the settings the engine keeps for the activities.
func (lf *lifeFlow) kept(c *Case, when string) {
	for _, x := range lf.tasks {
		if x.none || x.kind == "other" {
			continue
		}
		var t *definition.Task
		if x.eh {
			t = lf.def.GetErrorHandler().GetTask(x.t.ID)
		} else {
			t = lf.def.GetTask(x.t.ID)
		}
		got := M{}
		for _, k := range []string{"cfg", "n", "any"} {
			if v, ok := t.ActivityConfig().GetSetting(k); ok {
				got[k] = norm(v)
			}
		}
		if s := setOK(x.cur, got); s != "" {
			c.badf("%s: task %s of %s (%s): %s", when, x.t.ID, lf.f.Name, x.kind, s)
			return
		}
	}
}

func (lf *lifeFlow) doReconf(c *Case, rev *int, log *[]string) {
	r := c.R
	doc, ws := lifeDoc(c, lf, rev)
	b := []byte(js(doc))
	fail := map[string]bool{}
	if r.Intn(2) == 0 {
		for _, x := range lf.tasks {
			if r.Intn(4) == 0 {
				fail[x.key()] = true
			}
		}
	}
	life.mu.Lock()
	life.fail = fail
	life.mu.Unlock()
	takeCalls()
	err, pan := lf.reconfigure(b)
	calls := takeCalls()
	*log = append(*log, fmt.Sprintf("reconfigure %s refusing %v: %s -> %v, calls %s", lf.f.Name, sortedSet(fail), b, err, js(calls)))
	if pan != "" {
		c.badf("reconfiguring %s panicked: %s", lf.f.Name, pan)
		return
	}
	c.stat("reconfigurations", 1)
	byUID := map[int64][]lifeCall{}
	for _, k := range calls {
		if k.Kind != "reconfigure" {
			c.badf("reconfiguring %s caused the call %s", lf.f.Name, js(k))
			return
		}
		byUID[k.UID] = append(byUID[k.UID], k)
	}
	anyBad := false
	for _, w := range ws {
		x := w.x
		if !x.reconf() {
			continue
		}
		anyBad = anyBad || w.bad || fail[x.key()]
		got := byUID[x.uid]
		delete(byUID, x.uid)
		who := fmt.Sprintf("task %s of %s (error handler %v)", x.t.ID, lf.f.Name, x.eh)
		want := 1
		if w.bad {
			want = 0
			c.stat("unresolved", 1)
		}
		if !w.listed && len(got) == 0 {
			want = 0 // nothing given
		}
		if len(got) != want {
			c.badf("%s was reconfigured %d times, not %d", who, len(got), want)
			continue
		}
		if want == 0 {
			continue
		}
		c.stat("reconfigured", 1)
		next := map[string][]interface{}{}
		for k, v := range x.cur {
			next[k] = v
		}
		for k, v := range w.given {
			next[k] = []interface{}{v}
		}
		if s := setOK(next, got[0].Set); s != "" {
			c.badf("%s got %s: %s", who, js(got[0].Set), s)
			continue
		}
		if got[0].Err {
			c.stat("refused", 1)
			for k, v := range w.given {
				// the engine may keep the new settings or the old ones
				x.cur[k] = append([]interface{}{v}, x.cur[k]...)
			}
			continue
		}
		x.cur = map[string][]interface{}{}
		for k, v := range got[0].Set {
			x.cur[k] = []interface{}{v}
		}
		x.cfg, _ = got[0].Set["cfg"].(string)
	}
	for _, l := range byUID {
		c.badf("reconfiguring %s: unexpected call %s", lf.f.Name, js(l))
	}
	_ = anyBad
	// a setting that a refusal may have added need not exist: not checked for those
	for _, w := range ws {
		if fail[w.x.key()] {
			return
		}
	}
	for _, x := range lf.tasks {
		for _, v := range x.cur {
			if len(v) > 1 {
				return
			}
		}
	}
	lf.kept(c, "after a reconfiguration")
}

func sortedSet(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func lifeCase(c *Case) {
	r := c.R
	var log []string
	var fs []*lifeFlow
	var scs []*Scenario
	detail := func() {
		docs := M{}
		for _, lf := range fs {
			docs[lf.f.Name] = lf.doc
		}
		c.Detail = map[string]interface{}{"flows": docs, "ops": log}
	}
	defer detail()
	life.mu.Lock()
	life.fail = nil
	life.mu.Unlock()
	takeCalls()
	for k := 0; k < 1+r.Intn(2); k++ {
		o := mixOpt(c)
		o.BigMax = 40
		o.PEH = 0.6
		o.EHMax = 4
		if r.Intn(3) > 0 {
			o.PDoW = 0
		}
		sc := newGen(r.Int63(), fmt.Sprintf("life%dx%d", c.Idx, k), o).scenario()
		loops := false
		for _, f := range sc.Flows {
			for _, g := range f.graphs() {
				for _, t := range g.Tasks {
					loops = loops || t.Type == "doWhile"
				}
			}
		}
		runs := r.Intn(3) > 0
		if runs {
			scs = append(scs, sc)
		}
		for i := len(sc.Flows) - 1; i >= 0; i-- {
			f := sc.Flows[i]
			lf := lifePrep(c, f, runs, loops)
			fs = append(fs, lf)
			if err := loadRaw(f.Name, []byte(js(lf.doc))); err != nil {
				c.badf("valid flow %s refused: %v", f.Name, err)
				return
			}
			d, _, err := flowsupport.GetDefinition(flowURI(f.Name))
			if err != nil || d == nil {
				c.badf("flow %s not found after loading: %v", f.Name, err)
				return
			}
			lf.def = d
			if runs {
				runs = true
			}
			for _, k := range takeCalls() {
				var x *lifeTask
				for _, y := range lf.tasks {
					if y.t.Name == k.Task {
						x = y
					}
				}
				if k.Kind != "new" || k.Flow != f.Name || x == nil || x.uid != 0 && x.kind != "other" {
					c.badf("loading %s caused the call %s", f.Name, js(k))
					return
				}
				x.uid = k.UID
				if x.kind != "other" {
					if s := setOK(x.cur, k.Set); s != "" {
						c.badf("task %s of %s was created with %s: %s", x.t.ID, f.Name, js(k.Set), s)
					}
				}
			}
			lf.kept(c, "after loading")
		}
	}
	if len(c.Bad) > 0 {
		return
	}
	rev := 0
	runNo := 0
	run := func() {
		if len(scs) == 0 {
			return
		}
		sc := scs[r.Intn(len(scs))]
		runNo++
		out := runLoaded(c, sc, runOpts{id: fmt.Sprintf("r%dx%d", c.Idx, runNo)}, func(o *oracle) { o.noPrio = true })
		if out != nil {
			log = append(log, "run "+sc.Flows[0].Name+" of "+js(sc.Inputs)+": "+strings.Join(brief(out.evs), " "))
		}
		if out == nil || len(c.Bad) > 0 {
			return
		}
		c.stat("runs", 1)
		cfgs := map[string]*lifeTask{}
		for _, lf := range fs {
			for _, x := range lf.tasks {
				cfgs[lf.f.Name+"|"+x.t.ID] = x
			}
		}
		for _, e := range out.evs {
			if e.K != "start" {
				continue
			}
			x := cfgs[e.Flow+"|"+e.Task]
			if x == nil || x.kind == "other" || x.kind == "sing" {
				continue
			}
			if e.Cfg != x.cfg {
				c.badf("task %s of %s ran with the settings %s, not %s", e.Task, e.Flow, e.Cfg, x.cfg)
				return
			}
			if strings.Contains(x.cfg, `"rev"`) {
				c.stat("ranNew", 1)
			}
		}
		for _, k := range takeCalls() {
			c.badf("running %s caused the call %s", sc.Flows[0].Name, js(k))
		}
	}
	for n := 1 + r.Intn(6); n > 0 && len(c.Bad) == 0 && !c.Hang; n-- {
		lf := fs[r.Intn(len(fs))]
		switch p := r.Intn(10); {
		case p < 6:
			lf.doReconf(c, &rev, &log)
		case p < 9:
			run()
		default:
			doc, _ := lifeDoc(c, lf, &rev)
			b := js(doc)
			b = []string{b[:r.Intn(len(b))], b + "}", "", "x", "[" + b}[r.Intn(5)]
			takeCalls()
			err, pan := lf.reconfigure([]byte(b))
			calls := takeCalls()
			log = append(log, fmt.Sprintf("reconfigure %s with %s -> %v", lf.f.Name, b, err))
			if pan != "" {
				c.badf("reconfiguring with a malformed document panicked: %s", pan)
			} else if err == nil || err.Error() == "" {
				c.badf("a malformed document was accepted: %s", b)
			}
			if len(calls) > 0 {
				c.badf("a malformed document caused the calls %s", js(calls))
			}
			c.stat("malformed", 1)
		}
	}
	if len(c.Bad) == 0 && !c.Hang && r.Intn(2) == 0 {
		run()
	}
	// disposal
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for i, lf := range fs {
		if len(c.Bad) > 0 || c.Hang {
			break
		}
		if i > 0 && r.Intn(3) == 0 {
			continue
		}
		fail := map[string]bool{}
		if r.Intn(2) == 0 {
			for _, x := range lf.tasks {
				if r.Intn(3) == 0 {
					fail[x.key()] = true
				}
			}
			if r.Intn(3) == 0 {
				fail["singleton|singleton"] = true
			}
		}
		life.mu.Lock()
		life.fail = fail
		life.mu.Unlock()
		takeCalls()
		err, pan := lf.cleanup()
		calls := takeCalls()
		log = append(log, fmt.Sprintf("cleanup %s failing %v -> %v, calls %s", lf.f.Name, sortedSet(fail), err, js(calls)))
		if pan != "" {
			c.badf("cleaning up %s panicked: %s", lf.f.Name, pan)
			break
		}
		c.stat("cleanups", 1)
		byUID := map[int64]int{}
		for _, k := range calls {
			byUID[k.UID]++
			ok := false
			for _, x := range lf.tasks {
				ok = ok || k.Kind == "cleanup" && x.dispose() && x.uid == k.UID
			}
			if !ok {
				c.badf("cleaning up %s: unexpected call %s", lf.f.Name, js(k))
			}
			if k.Err {
				c.stat("cleanupFailed", 1)
			}
		}
		for _, x := range lf.tasks {
			if x.dispose() {
				c.stat("disposed", 1)
				if byUID[x.uid] != 1 {
					c.badf("cleaning up %s: task %s (error handler %v) was cleaned up %d times", lf.f.Name, x.t.ID, x.eh, byUID[x.uid])
				}
			}
		}
	}
	c.NonTriv = c.Stats["reconfigured"]+c.Stats["disposed"] > 0
	b, _ := json.Marshal(log)
	c.Sig = hashOf(string(b))
	detail()
	if c.Idx < 2 {
		c.Sample = c.Detail
	}
}

func init() {
	inits["life"] = func() {
		inits["plain"]()
		probe.LifeHook = lifeHook
	}
	families["life"] = lifeCase
	props["C26"] = &PropDef{ID: "C26", Rule: "random flows of reconfigurable, disposable, plain and singleton activities put through random sequences of reconfigurations (partial, unresolvable, malformed, refused by some activities), runs and disposals; every call the activities receive and the settings seen by runs are compared with those expected; a case counts if an activity was reconfigured or disposed of, distinct by flows, operations and calls",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "life", N: size(q, 20000, 400000), Init: "life"}}
		}}
}
