package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// genOpt steers the random flow generator.
type genOpt struct {
	MinT, MaxT int
	PStart     float64 // extra start tasks
	PJoin      float64 // more than one predecessor
	PPar       float64 // parallel links between the same tasks
	PErr       float64 // a task fails
	PErrLink   float64 // a failing task has an error link
	PErrLinkOK float64 // a succeeding task has an error link
	PEH        float64 // the flow has an error handler
	Kinds      float64 // links that are not plain dependencies
	PLinkErr   float64 // a condition fails
	PSilent    float64 // a task fails before its activity runs
	PIter      float64
	PBadCond   float64
	PLoopErr   float64 // an execution of a loop fails
	PDoW       float64
	PRetry     float64
	PSub       float64
	PDet       float64
	PRet       float64
	PReply     float64
	PSet       float64 // a task assigns flow values
	PAccum     float64
	PWatch     float64
	PSleep     float64
	NoNil      bool // no null as an input that has a default
	Depth      int  // nesting of subflows
	Data       int  // inputs mapped by a task, at most
	SubFail    float64
	Calm       bool // no post-call failures
	BigMax     int  // the size of big loops
	NoBig      bool
	NoPanic    bool
	SimpleErr  bool // only plain activity failures, no silent ones
	DetOnly    bool
	RetrySub   float64
	NoLoopSub  bool
	EHMax      int
	Trace      bool    // use the ids of the spans
	PEmpty     float64 // a flow or an error handler has no tasks
	PNoMeta    float64 // a flow declares no inputs and outputs
	PPost      float64 // flows are called by an activity of our own
}

type ref struct {
	e *Expr
	k string // str num bool list obj any
}

type gen struct {
	r     *rand.Rand
	o     genOpt
	pre   string
	flows []*Flow
	tagN  int
	big   int // the size of one loop, retry or flow that is far bigger than the others
}

// many returns the size of the next loop, usually the given one.
func (g *gen) many(n int) (int, bool) {
	if g.big > 0 && g.p(0.4) {
		n, g.big = g.big, 0
		return n, true
	}
	return n, false
}

func (g *gen) p(x float64) bool        { return x > 0 && g.r.Float64() < x }
func (g *gen) n(lo, hi int) int        { return lo + g.r.Intn(hi-lo+1) }
func (g *gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

// fgen generates one flow.
type fgen struct {
	*gen
	f        *Flow
	depth    int
	sub      bool
	ins      []ref
	outs     map[string][]ref
	sure     map[string]map[string]bool
	silent   bool // the one silent failure without an error link is used
	canFail  bool
	eh       bool
	detached bool
	vars     []string
	force    []*Task // must get an error link
}

func newGen(seed int64, pre string, o genOpt) *gen {
	return &gen{r: rand.New(rand.NewSource(seed)), o: o, pre: pre}
}

// scenario generates a main flow and all the flows it calls.
func (g *gen) scenario() *Scenario {
	switch {
	case g.o.NoBig:
	case g.p(0.015):
		g.big = []int{17, 40, 70, 130, 260}[g.r.Intn(5)]
		if g.o.BigMax > 0 {
			g.big = imin(g.big, g.o.BigMax)
		}
	case g.o.BigMax > 0:
	case g.p(0.004) && g.o.MaxT > 1:
		g.o.MinT, g.o.MaxT = 40, 120
		g.o.Depth, g.o.PSub = 0, 0
		g.o.PSilent, g.o.PBadCond, g.o.PLinkErr, g.o.PLoopErr = 0, 0, 0, 0
	case g.p(0.008) && g.o.Depth > 0 && g.o.PSub > 0:
		g.o.MinT, g.o.MaxT = 1, 3
		g.o.Depth, g.o.PSub = 10, 0.5
		g.o.PIter, g.o.PDoW, g.o.PRetry, g.o.RetrySub = 0, 0, 0, 0
	}
	f := g.flow(g.o.Depth, false, true, false)
	sc := &Scenario{Inputs: map[string]interface{}{}}
	for _, p := range f.In {
		if p.Def != nil && g.p(0.5) {
			continue
		}
		sc.Inputs[p.Name] = g.value(p.Type, p.Name)
		if p.Def != nil && p.Type == "string" && !g.o.NoNil && len(g.flows) == 1 && g.p(0.08) {
			sc.Inputs[p.Name] = nil // takes the place of the default too
		}
	}
	// main flow first
	sc.Flows = append(sc.Flows, f)
	for _, x := range g.flows {
		if x != f {
			sc.Flows = append(sc.Flows, x)
		}
	}
	if schemaMode != "" {
		declareSchemas(g.r, sc)
	}
	if g.o.PPost > 0 {
		g.posts(sc)
	}
	// the model and the type of plain tasks are named
	named := g.p(0.1)
	for _, f := range sc.Flows {
		if named {
			f.Model = []string{"", "flogo-simple", ownModel}[g.r.Intn(3)]
		}
		for _, gr := range []*Graph{&f.Main, f.EH} {
			if gr == nil || !named {
				continue
			}
			for _, t := range gr.Tasks {
				t.Basic = t.Type == "" && g.p(0.3)
			}
		}
	}
	// errors of other shapes
	for _, f := range sc.Flows {
		for _, gr := range []*Graph{&f.Main, f.EH} {
			if gr == nil {
				continue
			}
			for _, t := range gr.Tasks {
				if t.Sub == "" && !t.Ret && !t.Bypass && len(t.ActSet) == 0 && g.p(0.06) {
					t.Legacy, t.Decl = true, g.p(0.5)
				}
				for _, k := range scriptKeys(t.Scripts) {
					for i := range t.Scripts[k] {
						if o := &t.Scripts[k][i]; (o.K == "aerr" || o.K == "retry" || o.K == "err") && g.p(0.1) {
							o.EV = g.pick("fmt", "lines", "long", "same")
							if o.EV == "same" && concMode() {
								o.EV = "" // the message tells which of the failures it was
							}
						} else if o.K == "panic" && g.p(0.3) {
							o.EV = g.pick("fmt", "lines", "index", "nilmap", "nilptr", "errval")
							if concMode() && (o.EV == "index" || o.EV == "nilmap" || o.EV == "nilptr") {
								o.EV = "errval"
							}
						} else if (o.K == "aerr" || o.K == "retry") && g.p(0.3) {
							o.EV = g.pick("bare", "nocode", "nodata", "text", "list")
						}
					}
				}
			}
		}
	}
	return sc
}

// posts makes calls of flows calls by an asynchronous activity of our own.
func (g *gen) posts(sc *Scenario) {
	by := map[string]*Flow{}
	for _, f := range sc.Flows {
		by[f.Name] = f
	}
	for _, f := range sc.Flows {
		for _, gr := range []*Graph{&f.Main, f.EH} {
			if gr == nil {
				continue
			}
			for _, t := range gr.Tasks {
				s := by[t.Sub]
				if s == nil || t.Det || len(s.Main.Tasks) == 0 || !g.p(g.o.PPost) {
					continue
				}
				t.Post = &Post{ID: t.ID, Kinds: []string{"ok"}}
				for _, p := range s.Out {
					if p.Type == "string" && g.p(0.5) {
						t.Post.Out, t.Post.Kinds[0] = p.Name, "set"
						break
					}
				}
				linked := false
				for _, l := range gr.Links {
					if l.From == t.ID && l.Type == "error" {
						linked = true
					}
				}
				fail := func() string { return g.pick("err", "aerr", "aerr", "retry", "panic") }
				switch {
				case g.o.Calm:
				case t.Type == "" && g.p(g.o.RetrySub):
					n := g.n(0, 3)
					if t.Retry == nil {
						t.Retry = Lit(n)
					}
					k := []string{}
					for i := g.n(0, n+1); i > 0; i-- {
						k = append(k, g.pick("aerr", "aerr", "retry", t.Post.Kinds[0]))
					}
					t.Post.Kinds = append(k, t.Post.Kinds[0])
				case linked && g.p(0.5), g.o.SubFail > 0 && g.p(0.05):
					t.Post.Kinds = []string{fail()}
					if t.Type != "" && g.p(0.7) {
						t.Post.Kinds = []string{"ok", fail()}
					}
				}
			}
		}
	}
}

func scriptKeys(m map[string][]Out) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// oddText is data that looks like something else, or is awkward to carry.
func (g *gen) oddText(u string) string {
	return []string{"", " ", "=$flow.n1", "=" + u, "$activity[t0].s", "say \"" + u + "\" \\ 'so'", "line1\nline2\t" + u, "ünï-日本-🙂-" + u,
		"true", "12", "null", "[1,2]", "{\"a\":1}", "<a>&amp;</a>", "%s%d%!", strings.Repeat("long ", 1000) + u}[g.r.Intn(16)]
}

func (g *gen) value(typ, name string) interface{} {
	u := fmt.Sprintf("%s#%d", name, g.r.Intn(100000))
	if g.p(0.06) {
		u = g.oddText(u)
	}
	switch typ {
	case "string":
		return u
	case "integer":
		return g.n(0, 5)
	case "boolean":
		return g.p(0.5)
	case "object":
		m := map[string]interface{}{"id": u, "v": map[string]interface{}{"w": "w" + u, "n": g.n(0, 9)}, "list": []interface{}{"a" + u, "b" + u}}
		if g.p(0.06) {
			m[g.pick("", "a.b", "x[0]", "two words", "ключ", "=k")] = g.pick("", "=$flow.n1", u)
		}
		return m
	case "array":
		l := make([]interface{}, g.n(1, 4))
		for i := range l {
			l[i] = map[string]interface{}{"id": fmt.Sprintf("%s.%d", u, i), "i": i}
		}
		return l
	case "any":
		switch g.n(0, 6) {
		case 5: // becomes a slice of strings
			l := []interface{}{}
			for i := g.n(0, 4); i >= 0; i-- {
				l = append(l, fmt.Sprintf("%s.s%d", u, i))
			}
			return l
		case 6: // becomes a slice of integers
			l := []interface{}{}
			for i := g.n(0, 4); i >= 0; i-- {
				l = append(l, g.n(0, 9))
			}
			return l
		case 0:
			return u
		case 1:
			return g.n(0, 12)
		case 2:
			if g.p(0.5) {
				return []interface{}{u, 2.5, -7, 123456789012, []interface{}{}, map[string]interface{}{}, ""}
			}
			return []interface{}{u, g.n(0, 9), nil, true}
		case 3:
			return map[string]interface{}{"k": u, "nil": nil}
		}
		return g.p(0.5)
	}
	return nil
}

func kindOf(typ string) string {
	return map[string]string{"string": "str", "integer": "num", "boolean": "bool", "object": "obj", "array": "list", "any": "any"}[typ]
}

// flow generates a flow. mayFail: an unhandled failure of it is welcome.
func (g *gen) flow(depth int, sub, mayFail, detached bool) *Flow {
	f := &Flow{Name: fmt.Sprintf("%sf%d", g.pre, len(g.flows))}
	g.flows = append(g.flows, f)
	x := &fgen{gen: g, f: f, depth: depth, sub: sub, canFail: mayFail, detached: detached, outs: map[string][]ref{}, sure: map[string]map[string]bool{}}
	if !detached && g.p(g.o.PNoMeta) {
		f.NoMeta = true
		x.body(f)
		return f
	}
	if sub {
		f.In = append(f.In, Param{Name: "t", Type: "string"}, Param{Name: "p", Type: "string"})
	}
	add := func(n, t string, def bool) {
		q := Param{Name: n, Type: t}
		if def {
			q.Def = g.value(t, "def-"+n)
		}
		f.In = append(f.In, q)
	}
	add("i1", "string", false)
	add("n1", "integer", false)
	if g.o.Data > 0 {
		add("b1", "boolean", false)
		add("o1", "object", false)
		add("a1", "array", g.p(0.3))
		add("x1", "any", false)
		add("d1", "string", true)
		add("d2", "object", true)
	}
	if g.o.PSet > 0 {
		f.In = append(f.In, Param{Name: "v1", Type: "string", Def: "init1"}, Param{Name: "v2", Type: "string", Def: "init2"})
		x.vars = []string{"v1", "v2"}
	}
	for _, q := range f.In {
		if q.Name == "t" || q.Name == "p" || q.Name == "v1" || q.Name == "v2" {
			continue
		}
		x.ins = append(x.ins, ref{FlowE(q.Name), kindOf(q.Type)})
		if q.Type == "object" {
			x.ins = append(x.ins, ref{FlowE(q.Name, ".id"), "str"}, ref{FlowE(q.Name, ".v", ".w"), "str"}, ref{FlowE(q.Name, ".v", ".n"), "num"}, ref{FlowE(q.Name, ".list"), "list"}, ref{FlowE(q.Name, ".list", "[1]"), "str"})
		}
		if q.Type == "array" {
			x.ins = append(x.ins, ref{FlowE(q.Name, "[0]"), "obj"}, ref{FlowE(q.Name, "[0]", ".id"), "str"})
		}
	}
	// outputs
	ot := func() string {
		if g.p(0.75) {
			return "any"
		}
		return "string"
	}
	f.Out = append(f.Out, Param{Name: "i1", Type: ot()})
	if g.p(0.5) {
		f.Out = append(f.Out, Param{Name: "r1", Type: "string", Def: "outdef-" + f.Name})
	}
	if len(x.vars) > 0 {
		f.Out = append(f.Out, Param{Name: "v1", Type: ot()})
	}
	x.body(f)
	return f
}

func (x *fgen) body(f *Flow) {
	g := x.gen
	if !g.p(g.o.PEmpty) {
		x.graph(&f.Main, "t", g.n(g.o.MinT, g.o.MaxT))
	}
	if g.p(g.o.PEH) {
		x.eh = true
		f.EH = &Graph{}
		m := g.o.EHMax
		if m == 0 {
			m = 4
		}
		if !g.p(g.o.PEmpty * 2) {
			x.graph(f.EH, "h", g.n(1, m))
		}
	}
}

func (x *fgen) avail(id string) []ref {
	rs := append([]ref{}, x.ins...)
	for _, t := range x.f.Main.Tasks {
		if x.sure[id][t.ID] {
			rs = append(rs, x.outs[t.ID]...)
		}
	}
	if x.f.EH != nil {
		for _, t := range x.f.EH.Tasks {
			if x.sure[id][t.ID] {
				rs = append(rs, x.outs[t.ID]...)
			}
		}
	}
	return rs
}

func (x *fgen) some(rs []ref, kinds ...string) *Expr {
	var c []ref
	for _, r := range rs {
		for _, k := range kinds {
			if r.k == k {
				c = append(c, r)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[x.r.Intn(len(c))].e
}

func (x *fgen) boolExpr(rs []ref, d int) *Expr {
	switch x.n(0, 5) {
	case 0, 1:
		if e := x.some(rs, "bool"); e != nil {
			return e
		}
	case 2, 3:
		if e := x.some(rs, "num"); e != nil {
			return Op(x.pick("<", ">", "==", "!=", "<=", ">="), e, Lit(x.n(0, 4)))
		}
	case 4:
		if d > 0 {
			return Op(x.pick("&&", "||"), x.boolExpr(rs, d-1), x.boolExpr(rs, d-1))
		}
	case 5:
		if e := x.some(rs, "bool"); e != nil {
			return Op("!", e)
		}
		if e := x.some(rs, "str"); e != nil {
			return Op(x.pick("==", "!="), e, Lit("no such value"))
		}
	}
	return Lit(x.p(0.5))
}

// graph generates the tasks and links of the main part or the handler.
func (x *fgen) graph(gr *Graph, prefix string, n int) {
	errSrc := map[string]bool{} // tasks that will fail
	noLink := map[string]bool{} // tasks whose links must not fail to evaluate
	for i := 0; i < n; i++ {
		t := &Task{ID: fmt.Sprintf("%s%d", prefix, i)}
		t.Name = "N " + t.ID
		// predecessors
		var links []*Link
		if i > 0 && !x.p(x.o.PStart) {
			np := 1
			for np < 4 && x.p(x.o.PJoin) {
				np++
			}
			used := map[string]bool{}
			for k := 0; k < np; k++ {
				j := x.r.Intn(i)
				if x.p(0.4) {
					j = i - 1 - x.r.Intn(imin(i, 3))
				}
				from := gr.Tasks[j]
				if used[from.ID] {
					continue
				}
				used[from.ID] = true
				links = append(links, x.link(gr, from, t, errSrc, noLink))
				if x.p(x.o.PPar) {
					links = append(links, x.link(gr, from, t, errSrc, noLink))
				}
			}
		}
		// what is certainly available
		var sure map[string]bool
		for _, l := range links {
			s := map[string]bool{}
			for k := range x.sure[l.From] {
				s[k] = true
			}
			if l.Type != "error" {
				s[l.From] = true
			}
			if sure == nil {
				sure = s
			} else {
				for k := range sure {
					if !s[k] {
						delete(sure, k)
					}
				}
			}
		}
		x.sure[t.ID] = sure
		gr.Tasks = append(gr.Tasks, t)
		gr.Links = append(gr.Links, links...)
		x.task(gr, t, links, errSrc, noLink)
	}
	for _, f := range x.force {
		has := false
		for _, l := range gr.Links {
			has = has || l.From == f.ID && l.Type == "error"
		}
		if has {
			continue
		}
		t := &Task{ID: fmt.Sprintf("%s%d", prefix, len(gr.Tasks)), Scripts: map[string][]Out{"": {x.okOut()}}}
		t.Name = "N " + t.ID
		x.sure[t.ID] = x.sure[f.ID]
		gr.Tasks = append(gr.Tasks, t)
		gr.Links = append(gr.Links, &Link{From: f.ID, To: t.ID, Type: "error"})
		rs := x.avail(t.ID)
		for _, fl := range []string{"message", "code", "type", "activity", ""} {
			rs = append(rs, ref{ErrE(f.ID, fl), "err"})
		}
		x.errInputs(t, rs)
	}
	x.force = nil
	// observers of everything a task provides
	for _, f := range gr.Tasks[:len(gr.Tasks):len(gr.Tasks)] {
		rs := x.outs[f.ID]
		if len(rs) == 0 || !x.p(x.o.PWatch) {
			continue
		}
		t := &Task{ID: fmt.Sprintf("%s%d", prefix, len(gr.Tasks)), Scripts: map[string][]Out{"": {x.okOut()}}}
		t.Name = "N " + t.ID
		x.sure[t.ID] = map[string]bool{f.ID: true}
		for k := range x.sure[f.ID] {
			x.sure[t.ID][k] = true
		}
		gr.Tasks = append(gr.Tasks, t)
		gr.Links = append(gr.Links, &Link{From: f.ID, To: t.ID, Type: "dep"})
		o := &Expr{K: "obj"}
		for i, r := range rs {
			if i < 6 {
				o.Keys = append(o.Keys, fmt.Sprintf("k%d", i))
				o.A = append(o.A, r.e)
			}
		}
		t.In = map[string]*Expr{"m": o}
	}
}

func hasOtherwise(gr *Graph, from string) bool {
	for _, l := range gr.Links {
		if l.From == from && l.Type == "otherwise" {
			return true
		}
	}
	return false
}

func (x *fgen) link(gr *Graph, from, to *Task, errSrc, noLink map[string]bool) *Link {
	l := x.link0(gr, from, to, errSrc, noLink)
	// a label is only a name, also on links of other types
	if l.Lbl == "" && x.p(0.15) {
		l.Lbl = x.pick("yes", "no", "lbl", "a b")
	}
	if l.Type != "expr" && x.p(0.08) {
		l.Val = x.pick("false", "true", "$flow.nosuchvalue", "no expression (", "x == 1")
	}
	if x.p(0.1) {
		l.Alias = map[string][]string{"dep": {"default", "dependency", "0"}, "expr": {"1", "expression"}, "label": {"2", "label"}, "error": {"3", "error"}, "otherwise": {"4", "exprOtherwise"}}[l.Type][x.n(0, 1)]
	}
	return l
}

func (x *fgen) link0(gr *Graph, from, to *Task, errSrc, noLink map[string]bool) *Link {
	l := &Link{From: from.ID, To: to.ID, Type: "dep"}
	if errSrc[from.ID] {
		if x.p(x.o.PErrLink) {
			l.Type = "error"
			return l
		}
	} else if x.p(x.o.PErrLinkOK) {
		l.Type = "error"
		return l
	}
	if x.p(x.o.Kinds) {
		switch x.n(0, 5) {
		case 0, 1, 2:
			l.Type = "expr"
			rs := x.avail(from.ID)
			rs = append(rs, x.outs[from.ID]...)
			rs = append(rs, x.outs[from.ID]...)
			if !noLink[from.ID] && x.p(x.o.PLinkErr) {
				if x.p(0.5) {
					l.Cond = VErr("link " + from.ID + to.ID)
				} else if x.p(0.5) {
					l.Cond = Op("==", x.badRef(from), Lit(1))
				} else {
					l.Cond = Boom("link " + from.ID + to.ID)
				}
			} else {
				l.Cond = x.boolExpr(rs, 2)
				if x.p(0.06) {
					l.Cond = x.looseExpr(noLink[from.ID])
				}
			}
		case 3:
			l.Type = "label"
			l.Lbl = "lbl"
		case 4, 5:
			if !hasOtherwise(gr, from.ID) {
				l.Type = "otherwise"
			}
		}
	}
	return l
}

// looseExpr is a condition that isn't a bool.
func (x *fgen) looseExpr(safe bool) *Expr {
	e := Lit([]interface{}{"true", "false", "TRUE", "F", "1", "0", 0, 1, -2.5, 0.25}[x.n(0, 9)])
	if !safe && x.p(x.o.PLinkErr) {
		e = Lit(x.pick("yes", "no", "2", "x"))
		if x.p(0.5) {
			return CatE(Lit("true"), e)
		}
	}
	return e
}

// inputs maps some inputs of a probe.
func (x *fgen) inputs(t *Task, rs []ref, n int, iter string) {
	if t.In == nil {
		t.In = map[string]*Expr{}
	}
	put := func(k string, e *Expr) {
		if e != nil {
			if _, ok := t.In[k]; !ok {
				t.In[k] = e
			}
		}
	}
	for i := 0; i < n; i++ {
		switch x.n(0, 13) {
		case 0:
			put("a", x.some(rs, "str", "num", "bool", "list", "obj", "any"))
		case 1:
			put("b", x.some(rs, "str", "any", "obj"))
		case 2:
			put("c", x.some(rs, "list", "obj"))
		case 3:
			put("s", x.some(rs, "str"))
		case 4:
			put("i", x.some(rs, "num"))
		case 5:
			put("f", x.some(rs, "bool"))
		case 6:
			put("m", x.some(rs, "obj"))
		case 7:
			put("l", x.some(rs, "list"))
		case 8:
			if a, b := x.some(rs, "str", "num", "bool"), x.some(rs, "str", "num", "bool"); a != nil && b != nil {
				put("d", CatE(a, Lit("-"), b))
			}
		case 9:
			if a := x.some(rs, "num"); a != nil {
				put("g", Op(x.pick("+", "-", "*"), a, Lit(x.n(1, 9))))
			}
		case 10:
			o := &Expr{K: "obj"}
			for j := 0; j < x.n(1, 3); j++ {
				if a := x.some(rs, "str", "num", "bool", "list", "obj", "any"); a != nil {
					o.Keys = append(o.Keys, fmt.Sprintf("k%d", j))
					o.A = append(o.A, a)
				}
			}
			o.Keys = append(o.Keys, "lit")
			o.A = append(o.A, &Expr{K: "lit", V: "x"})
			if x.p(0.3) && len(o.A) > 1 {
				in := &Expr{K: "obj", Keys: []string{"n1", "n2"}, A: []*Expr{o.A[0], Lit(7)}}
				o.Keys = append(o.Keys, "nest")
				o.A = append(o.A, in)
			}
			put("m", o)
		case 11:
			if a, b := x.some(rs, "str", "num"), x.some(rs, "str", "num"); a != nil && b != nil {
				put("a", Op("?", x.boolExpr(rs, 1), a, b))
			}
		case 12:
			switch x.n(0, 4) {
			case 0:
				put("b", &Expr{K: "raw", V: "plain text"})
			case 1:
				put("b", &Expr{K: "raw", V: 42})
			case 2:
				put("b", &Expr{K: "raw", V: true})
			case 3:
				put("b", &Expr{K: "raw", V: []interface{}{1, "two", nil, map[string]interface{}{"k": "v"}}})
			case 4:
				put("m", &Expr{K: "raw", V: map[string]interface{}{"k": map[string]interface{}{"z": 1.5}}})
			}
		case 13:
			put(x.pick("a", "b"), CtxE(x.ctxName()))
		}
	}
	if len(x.vars) > 0 && x.p(0.6) {
		t.In[x.pick("a", "b", "c")] = FlowE(x.vars[x.r.Intn(len(x.vars))])
	}
	if iter != "" {
		switch iter {
		case "iterator":
			if x.p(0.8) {
				t.In["a"] = IterE("value")
			}
			if x.p(0.7) {
				t.In["b"] = IterE("index")
			}
			if x.p(0.7) {
				t.In["e"] = IterE("key")
			}
		case "doWhile":
			if x.p(0.8) {
				t.In["i"] = IterE("index")
			}
		}
	}
}

func (x *fgen) failKind() string {
	if x.o.NoPanic {
		return x.pick("err", "aerr", "aerr", "retry")
	}
	return x.pick("err", "aerr", "aerr", "panic", "retry")
}

func probeOuts(id string, listLen int) []ref {
	rs := []ref{{ActE(id, "out"), "str"}, {ActE(id, "n"), "num"}, {ActE(id, "b"), "bool"}, {ActE(id, "s"), "str"},
		{ActE(id, "m"), "obj"}, {ActE(id, "m", ".id"), "str"}, {ActE(id, "m", ".v"), "obj"}, {ActE(id, "m", ".v", ".w"), "str"}, {ActE(id, "m", ".v", ".n"), "num"},
		{ActE(id, "m", ".list"), "list"}, {ActE(id, "m", ".list", "[0]"), "str"}, {ActE(id, "m", ".list", "[1]"), "str"},
		{ActE(id, "l"), "list"}, {ActE(id, "x"), "list"}, {ActE(id, "x", "[0]"), "str"}, {ActE(id, "x", "[1]"), "num"}, {ActE(id, "x", "[2]"), "bool"}, {ActE(id, "nul"), "any"}, {ActE(id, "x", "[3]"), "any"}}
	if listLen > 0 {
		rs = append(rs, ref{ActE(id, "l", "[0]"), "obj"}, ref{ActE(id, "l", "[0]", ".id"), "str"}, ref{ActE(id, "l", "[0]", ".i"), "num"})
	}
	return rs
}

func (x *fgen) okOut() Out { return Out{K: "ok", N: x.n(0, 5), B: x.p(0.5), L: x.n(1, 3)} }

func (x *fgen) task(gr *Graph, t *Task, links []*Link, errSrc, noLink map[string]bool) {
	start := len(links) == 0
	rs := x.avail(t.ID)
	if x.eh {
		rs = append(rs, ref{ErrE("", "message"), "err"}, ref{ErrE("", "activity"), "err"}, ref{ErrE("", "type"), "err"}, ref{ErrE("", "code"), "err"}, ref{ErrE("", "data"), "err"}, ref{ErrE("", ""), "err"})
	}
	for _, l := range links {
		if l.Type == "error" && len(links) == 1 {
			for _, f := range []string{"message", "code", "type", "activity", "data", ""} {
				rs = append(rs, ref{ErrE(l.From, f), "err"})
			}
		}
	}
	subStart := x.sub && start && !x.eh
	if subStart {
		t.In = map[string]*Expr{"t": FlowE("t"), "e": FlowE("p")}
		if x.f.NoMeta {
			t.In = map[string]*Expr{"e": CtxE("ParentFlowId")}
		}
	}
	out := x.okOut()
	t.Scripts = map[string][]Out{}
	defer func() {
		if x.p(x.o.PSleep) {
			for k := range t.Scripts {
				for i := range t.Scripts[k] {
					t.Scripts[k][i].Sleep = x.n(0, 2)
				}
			}
		}
	}()

	// returns and replies
	if x.p(x.o.PRet) {
		var names []string
		for _, p := range x.f.Out {
			if x.sub || x.p(0.7) {
				names = append(names, p.Name)
			}
		}
		k := "return"
		if !x.sub && x.p(0.25) {
			k = "returnerr"
		}
		if !x.sub && x.p(0.2) {
			names = append(names, "undeclared")
		}
		t.Ret = x.p(0.5)
		t.Scripts[""] = []Out{{K: k, Ret: names, RetV: x.sub && x.p(0.5)}}
		noLink[t.ID] = true
		x.inputs(t, rs, x.n(0, x.o.Data), "")
		return
	}
	// calls
	if !subStart && x.depth > 0 && x.p(x.o.PSub) {
		x.call(t, rs, errSrc, noLink)
		return
	}
	// silent failures
	if !subStart && x.p(x.o.PSilent) {
		will := x.p(x.o.PErrLink)
		if will || (!x.silent && x.canFail) {
			if !will {
				x.silent = true
			}
			errSrc[t.ID] = true
			noLink[t.ID] = true
			t.Scripts[""] = []Out{out}
			switch x.n(0, 4) {
			case 0:
				t.In = map[string]*Expr{"a": VErr("map " + t.ID)}
			case 1:
				t.In = map[string]*Expr{"a": x.badRef(t)}
			case 2:
				t.In = map[string]*Expr{"b": x.badRef(t)}
			case 3:
				t.Type = "iterator"
				if x.p(0.5) {
					t.Iter = FlowE("i1")
				} else {
					t.Iter = x.badRef(t)
				}
			case 4:
				t.SetExpr = VErr("set " + t.ID)
				if x.p(0.4) && !x.o.NoPanic {
					t.SetExpr = Boom("set " + t.ID)
				}
			}
			if will {
				x.force = append(x.force, t)
			}
			return
		}
	}
	// failures
	if x.p(x.o.PErr) {
		errSrc[t.ID] = true
		noLink[t.ID] = true
		t.Scripts[""] = []Out{{K: x.failKind()}}
		if x.p(x.o.PRetry) {
			t.Retry = Lit(x.n(0, 2))
		}
		x.inputs(t, rs, x.n(0, x.o.Data), "")
		x.errInputs(t, rs)
		return
	}
	if len(x.vars) > 0 && x.p(x.o.PSet) {
		out.Set = map[string]string{x.vars[x.r.Intn(len(x.vars))]: "set"}
	}
	switch {
	case !subStart && x.p(x.o.PIter):
		x.iterator(t, rs, out, noLink)
		if x.outs[t.ID] == nil && !t.Accum {
			noLink[t.ID] = true
		}
		x.loopErr(t, errSrc, noLink)
		x.inputs(t, rs, x.n(0, x.o.Data), "iterator")
		return
	case x.p(x.o.PDoW):
		t.Type = "doWhile"
		x.cond(t, rs, true, out)
		if x.p(x.o.PBadCond) {
			x.badCond(t)
			errSrc[t.ID] = true
			x.inputs(t, rs, x.n(0, x.o.Data), "doWhile")
			return
		}
		t.Accum = x.p(x.o.PAccum)
		if !t.Accum {
			x.outs[t.ID] = probeOuts(t.ID, 1)
		} else {
			x.outs[t.ID] = append(probeOuts(t.ID, 1), x.accRefs(t.ID)...)
		}
		x.loopErr(t, errSrc, noLink)
		x.inputs(t, rs, x.n(0, x.o.Data), "doWhile")
		return
	case x.p(x.o.PRetry):
		x.retryScript(t, errSrc, noLink, rs)
		x.inputs(t, rs, x.n(0, x.o.Data), "")
		return
	}
	if x.p(x.o.PReply) && !x.sub {
		out.K = "reply"
		t.Ret = x.p(0.3)
		out.Ret = []string{"i1"}
		if x.p(0.5) {
			out.Ret = append(out.Ret, "r1")
		}
	}
	t.Scripts[""] = []Out{out}
	x.outs[t.ID] = probeOuts(t.ID, out.L)
	x.inputs(t, rs, x.n(0, x.o.Data), "")
	x.errInputs(t, rs)
}

func (x *fgen) accRefs(id string) []ref {
	return []ref{{ActE(id, ""), "list"}, {ActE(id, "", "[0]", ".out"), "str"}, {ActE(id, "", "[0]", ".n"), "num"}}
}

// badRef is a reference to something that does not exist.
func (x *fgen) badRef(t *Task) *Expr {
	switch x.n(0, 8) {
	case 0:
		return ActE("t99", "out")
	case 1:
		return ActE("t99", "")
	case 2:
		return ActE(t.ID, "nosuchoutput")
	case 3:
		return ErrE("t99", x.pick("message", "code", "data", ""))
	case 4:
		return CtxE("NoSuchField")
	case 5:
		if l := x.earlier(t.ID); len(l) > 0 {
			// has ended, but has no such output
			return ActE(l[x.r.Intn(len(l))], "nosuchoutput")
		}
	case 6:
		if x.eh {
			return ErrE("h99", "message")
		}
	}
	return FlowE("nosuchvalue")
}

// earlier are the tasks that have surely ended before a task starts.
func (x *fgen) earlier(id string) (l []string) {
	for k := range x.sure[id] {
		if k != id {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return
}

func (x *fgen) errInputs(t *Task, rs []ref) {
	if t.In == nil {
		t.In = map[string]*Expr{}
	}
	for _, k := range []string{"c", "d"} {
		if _, ok := t.In[k]; !ok && x.p(0.6) {
			if e := x.some(rs, "err"); e != nil {
				t.In[k] = e
			}
		}
	}
}

func (x *fgen) retryScript(t *Task, errSrc, noLink map[string]bool, rs []ref) {
	c := x.n(0, 3)
	if x.p(0.1) {
		c = x.n(4, 7)
	}
	c, big := x.many(c)
	t.Retry = Lit(c)
	if x.p(0.2) && !x.f.NoMeta {
		t.Retry = FlowE("n1")
	}
	if x.p(0.3) && !big {
		t.RetryIv = x.n(1, 3)
	}
	f := x.n(0, 4)
	if c > 3 {
		f = x.n(0, c+1)
	}
	var s []Out
	for i := 0; i < f; i++ {
		s = append(s, Out{K: "retry"})
	}
	bad := false
	if x.p(0.25) {
		s = append(s, Out{K: x.pick("err", "aerr")})
		bad = true
	}
	s = append(s, x.okOut())
	t.Scripts[""] = s
	if bad || f > c || t.Retry.K != "lit" {
		errSrc[t.ID] = true
		noLink[t.ID] = true
	} else {
		x.outs[t.ID] = probeOuts(t.ID, 1)
	}
}

// loopErr makes one of the first executions of a loop fail; the failures are
// retried, or they end the loop.
func (x *fgen) loopErr(t *Task, errSrc, noLink map[string]bool) {
	if !x.p(x.o.PLoopErr) {
		return
	}
	s := t.Scripts[""]
	at := x.n(0, 3)
	for len(s) <= at {
		s = append(s, s[len(s)-1])
	}
	var bad []Out
	if x.p(0.5) && !x.o.SimpleErr {
		c := x.n(1, 3)
		t.Retry = Lit(c)
		if x.p(0.3) {
			t.RetryIv = x.n(1, 3)
		}
		for i := x.n(1, c); i > 0; i-- {
			bad = append(bad, Out{K: "retry"})
		}
	} else {
		bad = []Out{{K: x.failKind()}}
		errSrc[t.ID], noLink[t.ID] = true, true
		delete(x.outs, t.ID)
	}
	t.Scripts[""] = append(append(append([]Out{}, s[:at]...), bad...), s[at:]...)
}

func (x *fgen) cond(t *Task, rs []ref, probe bool, out Out) {
	k, big := x.many(x.n(0, 4))
	t.LoopFmt = x.n(0, 2)
	t.CondEq = x.p(0.5)
	if x.p(0.15) && !big {
		t.Delay = x.n(1, 4)
	}
	c := Op("<", IterE("index"), Lit(k))
	if probe {
		switch x.n(0, 3) {
		case 0:
			var s []Out
			for i := 0; i <= k; i++ {
				q := out
				q.N = i
				s = append(s, q)
			}
			t.Scripts[""] = s
			c = Op("<", ActE(t.ID, "n"), Lit(k))
		case 1:
			t.Scripts[""] = []Out{out}
			c = Op("&&", Op("<", IterE("index"), Lit(k)), x.boolExpr(append(append([]ref{}, rs...), probeOuts(t.ID, 1)...), 1))
		case 2:
			var s []Out
			for i := 0; i <= k; i++ {
				q := out
				q.B = i < k
				s = append(s, q)
			}
			t.Scripts[""] = s
			c = ActE(t.ID, "b")
		default:
			t.Scripts[""] = []Out{out}
		}
	}
	t.Cond = c
}

// badCond makes the loop condition one that does not evaluate to a boolean.
func (x *fgen) badCond(t *Task) {
	switch x.n(0, 4) {
	case 0:
		t.Cond = VErr("cond " + t.ID)
	case 1:
		t.Cond = Boom("cond " + t.ID)
	case 2:
		t.Cond = Op("==", x.badRef(t), Lit(1))
	case 3:
		t.Cond = Lit("some text")
	case 4:
		t.Cond = Op("+", IterE("index"), Lit(1))
	}
}

func (x *fgen) iterator(t *Task, rs []ref, out Out, noLink map[string]bool) {
	t.Type = "iterator"
	t.LoopFmt = []int{0, 1, 3}[x.n(0, 2)]
	sure := false
	most := 4
	if x.p(0.1) {
		most = 12
	}
	kind := x.n(0, 7)
	if n, ok := x.many(0); ok {
		kind, most = x.n(0, 3), n
	}
	size := func() int {
		if most > 12 {
			return most
		}
		return x.n(0, most)
	}
	switch kind {
	case 7:
		if e := x.some(rs, "any"); e != nil && x.o.PSilent > 0 {
			t.Iter = e // may be no collection
		} else {
			t.Iter = Op("+", Lit(x.n(0, most)), Lit(0))
		}
	case 0:
		n := size()
		t.IterLit = n
		if x.p(0.2) {
			t.IterLit = int64(n)
		}
		sure = n > 0
	case 1:
		n := size()
		t.IterLit = fmt.Sprint(n)
		sure = n > 0
	case 2:
		n := size()
		l := []interface{}{}
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%s.%d", t.ID, i))
		}
		t.IterLit = l
		sure = n > 0
	case 3:
		most = imax(most, 4)
		if most == 12 {
			most = 4
		}
		n := size()
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%d", i)] = fmt.Sprintf("%s.v%d", t.ID, i)
		}
		t.IterLit = m
		sure = n > 0
	case 4, 5:
		if e := x.some(rs, "list"); e != nil {
			t.Iter = e
			sure = false
		} else {
			t.IterLit = 2
			sure = true
		}
	case 6:
		if e := x.some(rs, "num", "obj"); e != nil {
			t.Iter = e
			if n := x.some(rs, "num"); n != nil && x.p(0.3) {
				t.Iter = Op("+", n, Lit(x.n(0, most)))
			}
		} else {
			t.IterLit = 1
			sure = true
		}
	}
	if t.Iter != nil && t.LoopFmt == 0 {
		t.LoopFmt = x.pick2(0, 3)
	}
	if t.Iter == nil && t.LoopFmt == 3 {
		t.LoopFmt = 0
	}
	t.Accum = x.p(x.o.PAccum)
	if x.p(0.15) && most <= 12 {
		t.Delay = x.n(1, 4)
	}
	t.Scripts[""] = []Out{out}
	if x.p(0.5) {
		t.Scripts[""] = []Out{out, x.okOut(), x.okOut()}
	}
	if sure {
		if t.Accum {
			x.outs[t.ID] = x.accRefs(t.ID)
		} else {
			x.outs[t.ID] = probeOuts(t.ID, 1)
		}
	} else {
		noLink[t.ID] = true
	}
}

func (x *fgen) ctxName() string {
	if x.o.Trace && x.p(0.7) {
		return x.pick("TraceId", "SpanId")
	}
	if x.p(0.06) {
		return x.pick("AppName", "AppVersion")
	}
	return x.pick("FlowName", "FlowId", "ParentFlowName", "ParentFlowId")
}

func (x *fgen) pick2(a, b int) int {
	if x.p(0.5) {
		return a
	}
	return b
}

// call makes the task a subflow call.
func (x *fgen) call(t *Task, rs []ref, errSrc, noLink map[string]bool) {
	noLink[t.ID] = true
	fail := x.p(x.o.SubFail)
	det := x.p(x.o.PDet)
	var f *Flow
	reuse := false
	if x.p(0.3) {
		// call an existing, already complete flow again
		for _, c := range x.flows {
			if c != x.f && len(c.Main.Tasks) > 0 && c.byID != nil && c.Name != x.f.Name && len(c.In) > 0 && c.In[0].Name == "t" {
				f = c
				reuse = true
			}
		}
	}
	if f == nil {
		f = x.gen.flow(x.depth-1, true, fail || det, det)
		f.index()
	}
	t.Sub = f.Name
	t.Det = det
	x.tagN++
	tag := fmt.Sprintf("g%d", x.tagN)
	t.In = map[string]*Expr{}
	if !f.NoMeta {
		t.In = map[string]*Expr{"t": {K: "raw", V: tag}, "p": CtxE("FlowId")}
	}
	for _, p := range f.In {
		if p.Name == "t" || p.Name == "p" || p.Name == "v1" || p.Name == "v2" {
			continue
		}
		if p.Def != nil && x.p(0.5) {
			continue
		}
		cand := rs
		if p.Type == "object" || p.Type == "array" {
			// the called flow relies on the shape of its inputs
			cand = nil
			for _, r := range rs {
				if len(r.e.Path) == 0 && (r.e.K == "flow" || r.e.K == "act" && (r.e.Out == "m" || r.e.Out == "l")) {
					cand = append(cand, r)
				}
			}
		}
		if e := x.some(cand, kindOf(p.Type)); e != nil {
			t.In[p.Name] = e
		} else {
			v := x.value(p.Type, p.Name)
			for {
				if b, _ := json.Marshal(v); !strings.Contains(string(b), "\"=") {
					break
				}
				v = x.value(p.Type, p.Name) // that is an expression in a mapping
			}
			t.In[p.Name] = &Expr{K: "raw", V: v}
		}
	}
	if det {
		return
	}
	if !reuse && fail && len(f.Main.Tasks) > 0 {
		// the run behind this tag fails, now or later
		st := f.Main.Tasks[0]
		if st.Type == "" && st.Retry == nil && st.Scripts != nil && len(st.Scripts[""]) > 0 && st.Scripts[""][0].K == "ok" {
			kinds := []string{"err", "aerr", "aerr", "panic"}
			if x.o.NoPanic {
				kinds = kinds[:3]
			}
			q := Out{K: kinds[x.r.Intn(len(kinds))]}
			if x.p(x.o.RetrySub) {
				t.Retry = Lit(x.n(0, 3))
				s := []Out{}
				for i := 0; i < x.n(1, 3); i++ {
					s = append(s, Out{K: "aerr"})
				}
				s = append(s, st.Scripts[""][0])
				if f.NoMeta {
					tag = ""
				}
				st.Scripts[tag] = s
			} else {
				if f.NoMeta {
					tag = ""
				}
				st.Scripts[tag] = []Out{q}
			}
		}
		errSrc[t.ID] = true
		return
	}
	if fail || reuse {
		errSrc[t.ID] = true
		return
	}
	if !x.o.NoLoopSub {
		switch {
		case x.p(x.o.PIter):
			out := x.okOut()
			x.iterator(t, rs, out, noLink)
			if !f.NoMeta {
				t.In["t"] = CatE(Lit(tag), IterE("index"))
				if t.Any() {
					t.In["t"] = CatE(Lit(tag), IterE("key"))
				}
			}
			if x.p(0.5) && !f.NoMeta {
				t.In["i1"] = CatE(Lit("it"), IterE("index"))
			}
			delete(t.Scripts, "")
			sure := x.outs[t.ID] != nil
			x.outs[t.ID] = nil
			if sure {
				x.outs[t.ID] = subOuts(t, f)
			}
			return
		case x.p(x.o.PDoW):
			t.Type = "doWhile"
			x.cond(t, rs, false, Out{})
			if x.p(x.o.PBadCond) {
				x.badCond(t)
				errSrc[t.ID] = true
			}
			if !f.NoMeta {
				t.In["t"] = CatE(Lit(tag), IterE("index"))
			}
			t.Accum = x.p(x.o.PAccum)
			if errSrc[t.ID] {
				return
			}
			if x.p(0.4) && !f.NoMeta {
				t.In["i1"] = CatE(Lit("it"), IterE("index"))
				if !f.canReturn() {
					// ends with a value its flow returns
					t.Cond = Op("&&", Op("<", IterE("index"), Lit(6)),
						Op("!=", ActE(t.ID, "i1"), Lit(fmt.Sprintf("it%d", x.n(0, 3)))))
				}
			}
			x.outs[t.ID] = subOuts(t, f)
			return
		}
	}
	x.outs[t.ID] = append(x.outs[t.ID], subOuts(t, f)...)
}

// canReturn: the flow may end with other values than those of its attributes.
func (f *Flow) canReturn() bool {
	for _, t := range f.byID {
		for _, s := range t.Scripts {
			for _, o := range s {
				if o.K == "return" || o.K == "returnerr" {
					return true
				}
			}
		}
	}
	return len(f.byID) == 0
}

// subOuts are the outputs of a call.
func subOuts(t *Task, f *Flow) (rs []ref) {
	if t.Accum {
		rs = append(rs, ref{ActE(t.ID, ""), "list"})
	}
	for _, t := range f.byID {
		for _, s := range t.Scripts {
			for _, o := range s {
				if o.RetV {
					return // any of them may be missing
				}
			}
		}
	}
	for _, p := range f.Out {
		if p.Name == "i1" || p.Name == "v1" || p.Def != nil {
			if t.Accum {
				rs = append(rs, ref{ActE(t.ID, "", "[0]", "."+p.Name), "str"})
			}
			if !t.Accum || t.Type == "doWhile" {
				rs = append(rs, ref{ActE(t.ID, p.Name), "str"})
			}
		}
	}
	return
}

// Any reports whether the iteration is over an object (unordered).
func (t *Task) Any() bool {
	if _, ok := t.IterLit.(map[string]interface{}); ok {
		return true
	}
	return t.Iter != nil
}
