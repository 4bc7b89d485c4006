package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/project-flogo/core/activity"
	appresolve "github.com/project-flogo/core/app/resolve"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/resolve"
	"github.com/project-flogo/core/support"
	"github.com/project-flogo/flow/definition"
	flowsupport "github.com/project-flogo/flow/support"

	"verifmon/probe"
)

// ---------- reading a definition ----------

type gDesc struct {
	Tasks []string
	Links []string
}

type fDesc struct {
	Name string
	Expl bool
	Main gDesc
	EH   *gDesc
}

func (g *gDesc) sort() {
	sort.Strings(g.Tasks)
	sort.Strings(g.Links)
}

var linkKind = map[string]string{"": "dep", "default": "dep", "dependency": "dep", "0": "dep", "expression": "expr", "1": "expr", "label": "label", "2": "label",
	"error": "error", "3": "error", "exprOtherwise": "otherwise", "4": "otherwise"}

var ltName = map[definition.LinkType]string{definition.LtDependency: "dep", definition.LtExpression: "expr", definition.LtLabel: "label", definition.LtError: "error", definition.LtExprOtherwise: "otherwise"}

func descLoaded(d *definition.Definition) *fDesc {
	do := func(ts []*definition.Task) gDesc {
		g := gDesc{}
		for _, t := range ts {
			s := t.ID() + "|" + t.Name() + "|" + t.TypeID()
			if t.ActivityConfig() != nil {
				s += "|" + t.ActivityConfig().Ref()
			} else {
				s += "|"
			}
			if lc := t.LoopConfig(); lc != nil {
				s += fmt.Sprintf("|loop c%v i%v a%v d%d", lc.Condition() != nil, lc.GetIterateOn() != nil, lc.Accumulate(), lc.Delay())
			}
			if rc := t.RetryOnErrConfig(); rc != nil {
				s += "|" + retryOf(rc)
			}
			g.Tasks = append(g.Tasks, s)
			for _, l := range t.ToLinks() {
				g.Links = append(g.Links, l.FromTask().ID()+">"+l.ToTask().ID()+"|"+ltName[l.Type()]+"|"+l.Value()+"|"+l.Label()+"|"+strconv.FormatBool(l.Expr() != nil)+"|"+linkPos(t, l))
			}
		}
		g.sort()
		return g
	}
	f := &fDesc{Name: d.Name(), Expl: d.ExplicitReply(), Main: do(d.Tasks())}
	// every link is reported once by the definition and by both of its tasks
	n := 0
	for _, t := range d.Tasks() {
		n += len(t.FromLinks())
	}
	if n != len(f.Main.Links) || n != len(d.Links()) {
		f.Main.Links = append(f.Main.Links, fmt.Sprintf("%d links entering tasks, %d leaving, %d of the flow", n, len(f.Main.Links), len(d.Links())))
	}
	if eh := d.GetErrorHandler(); eh != nil {
		g := do(eh.Tasks())
		n := 0
		for _, t := range eh.Tasks() {
			n += len(t.FromLinks())
		}
		if n != len(g.Links) {
			g.Links = append(g.Links, fmt.Sprintf("%d links entering tasks, %d leaving", n, len(g.Links)))
		}
		f.EH = &g
	}
	return f
}

// retryOf reads the limits that are no expressions
func retryOf(rc definition.RetryOnError) (s string) {
	defer func() {
		if recover() != nil {
			s = "retry ?"
		}
	}()
	n, err := rc.Count(nil)
	iv, err2 := rc.Interval(nil)
	if err != nil || err2 != nil {
		return "retry ?"
	}
	return fmt.Sprintf("retry %d %d", n, iv)
}

func linkPos(t *definition.Task, l *definition.Link) string {
	for i, x := range t.ToLinks() {
		if x == l {
			return strconv.Itoa(i)
		}
	}
	return "?"
}

// the documented form of a definition, read without the code under test
type repTask struct {
	ID       string                 `json:"id"`
	Type     string                 `json:"type"`
	Name     string                 `json:"name"`
	Settings map[string]interface{} `json:"settings"`
	Activity *struct {
		Ref      string                 `json:"ref"`
		Type     string                 `json:"type"`
		Settings map[string]interface{} `json:"settings"`
		Input    map[string]interface{} `json:"input"`
	} `json:"activity"`
}

type repLink struct {
	Type  string `json:"type"`
	From  string `json:"from"`
	To    string `json:"to"`
	Label string `json:"label"`
	Value string `json:"value"`
}

type repGraph struct {
	Tasks []*repTask `json:"tasks"`
	Links []*repLink `json:"links"`
}

type repFlow struct {
	Name  string     `json:"name"`
	Model string     `json:"model"`
	Expl  bool       `json:"explicitReply"`
	Tasks []*repTask `json:"tasks"`
	Links []*repLink `json:"links"`
	EH    *repGraph  `json:"errorHandler"`
}

func repInt(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "0"
	case float64:
		return strconv.Itoa(int(x))
	case bool:
		if x {
			return "1"
		}
		return "0"
	case string:
		x = strings.TrimPrefix(x, "=")
		if x == "$env[MON_ZERO]" {
			return "0"
		}
		if _, err := strconv.Atoi(x); err == nil {
			return x
		}
	}
	return "?"
}

var refOfAlias = map[string]string{"#mprobe": probeRef, "#mrprobe": rprobeRef, "#myprobe": yprobeRef, "#mlprobe": lprobeRef, "#mzprobe": zprobeRef, "#msub": subRef, "#macall": acallRef}

// descRep describes a definition as its text reads; wild is set when it refers to something this reading does not define.
func descRep(b []byte) (f *fDesc, must string, wild bool) {
	r := &repFlow{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, "not a definition", false
	}
	refuse := func(s string, a ...interface{}) {
		if must == "" {
			must = fmt.Sprintf(s, a...)
		}
	}
	expl := r.Expl
	do := func(ts []*repTask, ls []*repLink) gDesc {
		g := gDesc{}
		ids := map[string]bool{}
		for _, t := range ts {
			if t == nil {
				refuse("a task is null")
				continue
			}
			if ids[t.ID] {
				refuse("duplicate task %q", t.ID)
			}
			ids[t.ID] = true
			s := t.ID + "|" + t.Name + "|" + t.Type
			if t.Type != "" && t.Type != "basic" && t.Type != "iterator" && t.Type != "doWhile" {
				refuse("unknown task type %q", t.Type)
			}
			if a := t.Activity; a != nil {
				ref := a.Ref
				if ref == "" && a.Type != "" {
					ref = "#" + a.Type
				}
				if strings.HasPrefix(ref, "#") {
					ref = refOfAlias[ref]
				}
				if ref != probeRef && ref != rprobeRef && ref != yprobeRef && ref != lprobeRef && ref != zprobeRef && ref != subRef && ref != acallRef {
					refuse("unknown activity %q", a.Ref)
				}
				s += "|" + ref
				expl = expl || ref == rprobeRef || ref == yprobeRef
			} else {
				s += "|"
			}
			loop := t.Settings
			acc, hasAcc := t.Settings["accumulate"]
			if x, ok := t.Settings["loopConfig"]; ok {
				loop, _ = x.(map[string]interface{})
				acc, hasAcc = loop["accumulate"]
				if loop == nil && x != nil {
					wild = true
				}
			} else if x, ok := t.Settings["doWhile"]; ok {
				loop, _ = x.(map[string]interface{})
				if loop == nil && x != nil {
					wild = true
				}
				if y, ok := loop["accumulate"]; ok && !hasAcc {
					acc = y
				}
			}
			c := loop["condition"] != nil && loop["condition"] != ""
			on := loop["iterateOn"]
			if on == nil {
				on = loop["iterate"]
			}
			if c || on != nil {
				ab := acc == true || acc == "true"
				switch acc.(type) {
				case nil, bool:
				default:
					if acc != "true" && acc != "false" {
						wild = true
					}
				}
				d := repInt(loop["delay"])
				if d == "?" {
					wild = true
				}
				s += fmt.Sprintf("|loop c%v i%v a%v d%s", c, on != nil, ab, d)
			}
			if x, ok := t.Settings["retryOnError"]; ok {
				m, ok := x.(map[string]interface{})
				if str, isStr := x.(string); isStr {
					ok = str == "" || json.Unmarshal([]byte(str), &m) == nil
				}
				if !ok {
					wild = true
				}
				n, iv := repInt(m["count"]), repInt(m["interval"])
				if n == "?" || iv == "?" {
					s += "|retry ?"
				} else {
					s += "|retry " + n + " " + iv
				}
			}
			g.Tasks = append(g.Tasks, s)
		}
		pos := map[string]int{}
		for _, l := range ls {
			if l == nil {
				refuse("a link is null")
				continue
			}
			k, ok := linkKind[l.Type]
			if !ok {
				wild = true
			}
			if k == "expr" && l.Value == "" {
				refuse("expression link without expression")
			}
			if !ids[l.From] || !ids[l.To] {
				refuse("link %s>%s of an unknown task", l.From, l.To)
			}
			g.Links = append(g.Links, l.From+">"+l.To+"|"+k+"|"+l.Value+"|"+l.Label+"|"+strconv.FormatBool(k == "expr")+"|"+strconv.Itoa(pos[l.From]))
			pos[l.From]++
		}
		g.sort()
		return g
	}
	if r.Model != "" && r.Model != "flogo-simple" && r.Model != ownModel {
		wild = true
	}
	f = &fDesc{Name: r.Name, Main: do(r.Tasks, r.Links)}
	if r.EH != nil {
		g := do(r.EH.Tasks, r.EH.Links)
		f.EH = &g
	}
	f.Expl = expl
	return f, must, wild
}

// ---------- loading ----------

var aliasOnce sync.Once

func initAliases() {
	aliasOnce.Do(func() {
		for a, r := range refOfAlias {
			if err := support.RegisterAlias("activity", a[1:], r); err != nil {
				panic(err)
			}
		}
	})
}

// load hands a document to the loader as the engine does; a panic that leaves it is returned.
func loadDoc(b []byte, direct bool) (d *definition.Definition, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	if direct {
		rep := &definition.DefinitionRep{}
		if json.Unmarshal(b, rep) == nil {
			d, err = definition.NewDefinition(rep)
			if err != nil {
				d = nil
			}
			return d, err, ""
		}
	}
	res, err := (&flowsupport.FlowLoader{}).LoadResource(&resource.Config{ID: "flow:doc", Data: b})
	if err != nil {
		return nil, err, ""
	}
	if res == nil {
		return nil, nil, ""
	}
	d, _ = res.Object().(*definition.Definition)
	return d, nil, ""
}

type M = map[string]interface{}

func asDoc(b []byte) M {
	m := M{}
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&m); err != nil {
		panic(err)
	}
	return m
}

func docGraphs(m M) []M {
	r := []M{m}
	if eh, ok := m["errorHandler"].(M); ok {
		r = append(r, eh)
	}
	return r
}

func docTasks(g M) []M {
	var r []M
	l, _ := g["tasks"].([]interface{})
	for _, x := range l {
		if t, ok := x.(M); ok {
			r = append(r, t)
		}
	}
	return r
}

func docLinks(g M) []M {
	var r []M
	l, _ := g["links"].([]interface{})
	for _, x := range l {
		if t, ok := x.(M); ok {
			r = append(r, t)
		}
	}
	return r
}

func sub(m M, k string) M {
	x, ok := m[k].(M)
	if !ok {
		x = M{}
		m[k] = x
	}
	return x
}

// varyDoc rewrites a document without changing its meaning.
func varyDoc(r *rand.Rand, m M, f *Flow, n *int) {
	p := func(x float64) bool {
		if r.Float64() < x {
			*n++
			return true
		}
		return false
	}
	one := func(s ...string) string { return s[r.Intn(len(s))] }
	for gi, g := range docGraphs(m) {
		fg := f.graphs()[gi]
		for _, l := range docLinks(g) {
			if !p(0.5) {
				continue
			}
			t, _ := l["type"].(string)
			switch linkKind[t] {
			case "dep":
				l["type"] = one("", "default", "dependency", "0")
			case "expr":
				l["type"] = one("expression", "1")
			case "label":
				l["type"] = one("label", "2")
			case "error":
				l["type"] = one("error", "3")
			case "otherwise":
				l["type"] = one("exprOtherwise", "4")
			}
			if p(0.2) {
				l["id"] = r.Intn(9)
			}
		}
		for ti, t := range docTasks(g) {
			ft := fg.Tasks[ti]
			a := t["activity"].(M)
			if p(0.4) {
				ref := a["ref"].(string)
				for al, x := range refOfAlias {
					if x == ref {
						ref = al
					}
				}
				if p(0.3) {
					delete(a, "ref")
					a["type"] = ref[1:]
				} else {
					a["ref"] = ref
				}
			}
			if ft.Type == "" && p(0.2) {
				t["type"] = one("", "basic")
			}
			if p(0.2) {
				t["description"] = "a task"
			}
			s, _ := t["settings"].(M)
			if x, ok := s["retryOnError"].(M); ok {
				for _, k := range []string{"count", "interval"} {
					if v, ok := x[k].(float64); ok && p(0.4) {
						x[k] = one("", "=") + strconv.Itoa(int(v))
					}
				}
				if p(0.2) {
					b, _ := json.Marshal(x)
					s["retryOnError"] = string(b)
				}
			}
			for _, l := range []M{s, asM(s["loopConfig"]), asM(s["doWhile"])} {
				if v, ok := l["accumulate"].(bool); ok && p(0.4) {
					l["accumulate"] = strconv.FormatBool(v)
				}
				if v, ok := l["iterate"]; ok && p(0.4) {
					delete(l, "iterate")
					l["iterateOn"] = v
					if x, ok := v.(string); ok && strings.HasPrefix(x, "=") && p(0.4) {
						l["iterateOn"] = x[1:]
					}
				}
				if (l["iterate"] != nil || l["iterateOn"] != nil || l["condition"] != nil) && l["delay"] == nil && p(0.3) {
					l["delay"] = []interface{}{0, "0", "=$env[MON_ZERO]"}[r.Intn(3)]
				}
			}
			if len(s) == 0 && p(0.2) {
				t["settings"] = []interface{}{nil, M{}}[r.Intn(2)]
			}
			if in, ok := a["input"].(M); ok && len(in) == 0 && p(0.3) {
				delete(a, "input")
			}
			if ft.Sub == "" && p(0.5) {
				in := sub(a, "input")
				k := one("i", "s", "f", "g", "m", "l", "i32", "i64", "f32", "pa", "by")
				if ft.In == nil {
					ft.In = map[string]*Expr{}
				}
				if _, ok := ft.In[k]; !ok {
					var v, lit interface{}
					switch k {
					case "i":
						v = r.Intn(100)
						lit = []interface{}{v, strconv.Itoa(v.(int))}[r.Intn(2)]
					case "s":
						x := r.Intn(100)
						v, lit = strconv.Itoa(x), x
						if r.Intn(2) == 0 {
							v, lit = "true", true
						}
					case "f":
						b := r.Intn(2) == 0
						v = b
						lit = []interface{}{b, strconv.FormatBool(b)}[r.Intn(2)]
					case "g":
						x := float64(r.Intn(40)) / 4
						v = x
						lit = []interface{}{x, strconv.FormatFloat(x, 'f', -1, 64)}[r.Intn(2)]
					case "m":
						x := M{"k": "v", "n": M{"z": 2}}
						v = x
						lit = []interface{}{x, js(x)}[r.Intn(2)]
					case "i32":
						x := r.Intn(100)
						v, lit = int32(x), []interface{}{x, strconv.Itoa(x)}[r.Intn(2)]
					case "i64":
						x := int64(r.Intn(100)) << 40
						v, lit = x, []interface{}{x, strconv.FormatInt(x, 10)}[r.Intn(2)]
					case "f32":
						x := float32(r.Intn(40)) / 4
						v, lit = x, []interface{}{x, fmt.Sprint(x)}[r.Intn(2)]
					case "pa":
						v, lit = map[string]string{"k": "v", "n": "7"}, M{"k": "v", "n": 7}
					case "by":
						v, lit = []byte("some text"), "some text"
					case "l":
						x := []interface{}{1, "two", M{"k": nil}}
						v = x
						lit = []interface{}{x, js(x)}[r.Intn(2)]
					}
					ft.In[k] = &Expr{K: "raw", V: v}
					in[k] = lit
					typeMu.Lock()
					typeLits[f.Name+"|"+ft.Name+"|"+k] = true
					typeMu.Unlock()
				}
			}
		}
		if len(docLinks(g)) == 0 && p(0.4) {
			if r.Intn(2) == 0 {
				delete(g, "links")
			} else {
				g["links"] = nil
			}
		}
		if p(0.3) {
			ts := g["tasks"].([]interface{})
			r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		}
	}
	if m["errorHandler"] == nil && p(0.2) {
		m["errorHandler"] = nil
	}
	if p(0.2) {
		m["model"] = ""
	}
	if p(0.2) {
		m["unknown"] = M{"x": []interface{}{1}}
	}
}

func asM(v interface{}) M { m, _ := v.(M); return m }

// the declared Go types of the inputs the probe received
var typeLits = map[string]bool{} // literal inputs, by flow, name of the task and input
var typeBad []string
var typeSeen int
var typeMu sync.Mutex

func typedHook(ctx activity.Context, a *probe.Act) (bool, error) {
	c := &probe.Capture{}
	if err := ctx.GetInputObject(c); err == nil {
		typeMu.Lock()
		for k, v := range c.M {
			ok := true
			switch k {
			case "i":
				_, ok = v.(int)
			case "s", "t":
				_, ok = v.(string)
			case "f":
				_, ok = v.(bool)
			case "g":
				_, ok = v.(float64)
			case "m":
				_, ok = v.(map[string]interface{})
			case "l":
				_, ok = v.([]interface{})
			case "i32":
				_, ok = v.(int32)
			case "i64":
				_, ok = v.(int64)
			case "f32":
				_, ok = v.(float32)
			case "pa":
				_, ok = v.(map[string]string)
			case "by":
				_, ok = v.([]byte)
			default:
				continue
			}
			if v == nil || !typeLits[a.FlowName+"|"+a.TaskName+"|"+k] {
				continue
			}
			typeSeen++
			if !ok && len(typeBad) < 5 {
				typeBad = append(typeBad, fmt.Sprintf("task %s received input %s as %T", a.TaskName, k, v))
			}
		}
		typeMu.Unlock()
	}
	return hook(ctx, a)
}

var litTypes = map[string]data.Type{"i32": data.TypeInt32, "i64": data.TypeInt64, "f32": data.TypeFloat32, "pa": data.TypeParams, "by": data.TypeBytes}

func init() {
	inits["load"] = func() {
		_ = os.Setenv("MON_ZERO", "0")
		setupEngine(nil, nil)
		initAliases()
		appresolve.SetAppResolver(resolve.NewCompositeResolver(map[string]resolve.Resolver{"env": &resolve.EnvResolver{}}))
		probe.Hook = typedHook
		// a Go struct cannot declare these types
		probe.Md.Input["m"] = data.NewTypedValue(data.TypeObject, nil)
		for k, t := range litTypes {
			probe.Md.Input[k] = data.NewTypedValue(t, nil)
		}
		probe.Md.Input["l"] = data.NewTypedValue(data.TypeArray, nil)
	}

	families["loadvalid"] = func(c *Case) {
		g := newGen(c.Seed, fmt.Sprintf("lv%d", c.Idx), mixOpt(c))
		sc := g.scenario()
		n := 0
		docs := map[string]json.RawMessage{}
		for i := len(sc.Flows) - 1; i >= 0; i-- {
			f := sc.Flows[i]
			m := asDoc(f.JSON())
			varyDoc(c.R, m, f, &n)
			var b []byte
			if c.R.Intn(3) == 0 {
				b, _ = json.MarshalIndent(m, " ", "\t")
			} else {
				b, _ = json.Marshal(m)
			}
			docs[f.Name] = b
			if err := loadRaw(f.Name, b); err != nil {
				c.badf("valid flow %s refused: %v", f.Name, err)
				c.Detail = map[string]interface{}{"doc": json.RawMessage(b)}
				return
			}
			d, _, err := flowsupport.GetDefinition(flowURI(f.Name))
			if err != nil || d == nil {
				c.badf("flow %s was loaded, but is not found: %v", f.Name, err)
				return
			}
			want, must, wild := descRep(b)
			if must != "" || wild {
				c.badf("harness: valid flow %s read as %q", f.Name, must)
				c.Detail = map[string]interface{}{"doc": json.RawMessage(b)}
				return
			}
			cmpDesc(c, b, want, d)
			c.stat("flows compared", 1)
		}
		if len(c.Bad) > 0 {
			return
		}
		typeMu.Lock()
		typeBad, typeSeen = nil, 0
		typeMu.Unlock()
		out := runLoaded(c, sc, runOpts{}, nil)
		if out == nil || out.hang {
			return
		}
		typeMu.Lock()
		c.Bad = append(c.Bad, typeBad...)
		c.stat("typed inputs", typeSeen)
		typeMu.Unlock()
		if len(c.Bad) > 0 {
			c.Detail = map[string]interface{}{"scenario": sc, "flow": docs, "events": out.evs, "pretty": pretty(sc, out.evs)}
		}
		c.stat("variations", n)
		c.NonTriv = n > 0 && out.o.execs > 0
		c.Sig = hashOf(c.Sig + fmt.Sprint(n))
	}
	families["loadbad"] = loadBad
	families["loadfuzz"] = loadFuzz

	props["C21"] = &PropDef{ID: "C21", Rule: "loader runs over (a) generated definitions rewritten into equivalent notations, compared with an independent reading of the document and executed under the execution oracle, (b) the same with one planted defect, which must be refused with an error that names it, (c) randomly damaged documents and byte strings, which must be refused or read as written and never panic; distinct by document",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "loadvalid", N: size(q, 4000, 120000), Init: "load"}, {Fam: "loadbad", N: size(q, 8000, 200000), Init: "load"}, {Fam: "loadfuzz", N: size(q, 12000, 600000), Init: "load"}}
		}}
}

func cmpDesc(c *Case, b []byte, want *fDesc, d *definition.Definition) {
	got := descLoaded(d)
	if w, g := js(want), js(got); w != g {
		c.badf("the loaded flow differs from its definition:\n  defined %s\n  loaded  %s", w, g)
		c.Detail = map[string]interface{}{"doc": string(b)}
	}
}

// ---------- planted defects ----------

var badExprs = []string{"$flow.(", "1 +", "(1", "\"abc", "1 2", "&& true", "vf.cat(1,", "vf.nosuch(1)", "nosuch.fn(1)", "$nosuch.x", "== 1", "$flow.a ==", "?:", "@", ")"}

// plant damages a document in one place; the error has to contain one of the names.
func plant(r *rand.Rand, m M) (what string, names []string) {
	gs := docGraphs(m)
	g := gs[r.Intn(len(gs))]
	ts := docTasks(g)
	if len(ts) == 0 {
		g = m
		ts = docTasks(g)
	}
	t := ts[r.Intn(len(ts))]
	id := t["id"].(string)
	a := sub(t, "activity")
	isProbe := a["ref"] == probeRef || a["ref"] == rprobeRef || a["ref"] == yprobeRef
	links, _ := g["links"].([]interface{})
	ex := func() string { return badExprs[r.Intn(len(badExprs))] }
	junk := func() interface{} {
		return []interface{}{"abc", "1x", M{"a": 1}, []interface{}{1, 2}, "--3", ""}[r.Intn(6)]
	}
	noInt := func() interface{} {
		return []interface{}{"abc", "1x", M{"a": 1}, []interface{}{1, 2}, "--3"}[r.Intn(5)]
	}
	_ = junk
	loop := func() M {
		s := sub(t, "settings")
		switch r.Intn(3) {
		case 0:
			delete(s, "doWhile")
			delete(s, "loopConfig")
			return s
		case 1:
			delete(s, "doWhile")
			return sub(s, "loopConfig")
		}
		delete(s, "loopConfig")
		return sub(s, "doWhile")
	}
	link := func() M {
		if len(links) == 0 {
			l := M{"from": id, "to": id}
			g["links"] = []interface{}{l}
			return l
		}
		return links[r.Intn(len(links))].(M)
	}
	in := func() M {
		if !isProbe {
			a["ref"] = probeRef
			a["settings"] = M{"cfg": "{}"}
		}
		return sub(a, "input")
	}
	for {
		switch r.Intn(24) {
		case 0:
			l := link()
			l["to"] = "ghost77"
			return "link to an unknown task", []string{"ghost77"}
		case 1:
			l := link()
			l["from"] = "ghost77"
			return "link from an unknown task", []string{"ghost77"}
		case 2: // a task of the other graph
			if len(gs) < 2 {
				continue
			}
			o := gs[0]
			if asPtr(o) == asPtr(g) {
				o = gs[1]
			}
			ots := docTasks(o)
			if len(ots) == 0 {
				continue
			}
			x := ots[r.Intn(len(ots))]["id"].(string)
			l := link()
			l[[]string{"from", "to"}[r.Intn(2)]] = x
			return "link between the flow and its error handler", []string{x}
		case 3:
			a["ref"] = "github.com/nobody/ghost77"
			return "unknown activity", []string{"ghost77"}
		case 4:
			a["ref"] = "#ghost77"
			return "unknown activity alias", []string{"ghost77"}
		case 5:
			delete(a, "ref")
			delete(a, "type")
			if r.Intn(2) == 0 {
				a["type"] = "ghost77"
				return "unknown activity type", []string{"ghost77"}
			}
			return "activity without ref", []string{id}
		case 6:
			t["type"] = []string{"ghost77", "Iterator", "foreach", "dowhile"}[r.Intn(4)]
			return "unknown task type", []string{t["type"].(string)}
		case 7:
			l := link()
			l["type"] = []string{"expression", "1"}[r.Intn(2)]
			if r.Intn(4) == 0 {
				l["value"] = ""
				return "empty link expression", []string{fmt.Sprint(l["from"], " -> ", l["to"]), "expression value"}
			}
			x := ex()
			l["value"] = x
			return "link expression " + x, []string{x}
		case 8:
			x := ex()
			in()[[]string{"a", "i", "m", "s", "other"}[r.Intn(5)]] = "=" + x
			return "input expression " + x, []string{id}
		case 9:
			x := ex()
			v := M{"mapping": M{"k1": "=$flow.x", "k2": M{"z": "=" + x}}}
			if r.Intn(2) == 0 {
				v = M{"mapping": M{"k": "=" + x}}
			}
			in()[[]string{"a", "m"}[r.Intn(2)]] = v
			return "expression of an object mapping " + x, []string{id}
		case 10:
			k := []string{"i", "f", "g", "m"}[r.Intn(4)]
			var v interface{}
			switch k {
			case "i", "g":
				v = noInt()
			case "f":
				v = []interface{}{"abc", M{"a": 1}, []interface{}{true}}[r.Intn(3)]
			case "m":
				v = []interface{}{"abc", 5, true, "[1]"}[r.Intn(4)]
			}
			in()[k] = v
			return fmt.Sprintf("input %s=%v", k, v), []string{id}
		case 11:
			x := ex()
			sub(t, "settings")["extra"] = "=" + x
			return "setting expression " + x, []string{id}
		case 12:
			t["type"] = "doWhile"
			x := ex()
			l := loop()
			l["condition"] = []string{"", "="}[r.Intn(2)] + x
			return "loop condition " + x, []string{id}
		case 13:
			t["type"] = "doWhile"
			l := loop()
			l["condition"] = []interface{}{5, true, M{"a": "b"}, []interface{}{"x"}}[r.Intn(4)]
			return "loop condition that is no expression", []string{id}
		case 14:
			t["type"] = "iterator"
			x := ex()
			l := loop()
			delete(l, "condition")
			delete(l, "iterateOn")
			l[[]string{"iterate", "iterateOn"}[r.Intn(2)]] = []string{"", "="}[r.Intn(2)] + x
			return "iterate expression " + x, []string{id}
		case 15:
			l := loop()
			if l["condition"] == nil && l["iterate"] == nil && l["iterateOn"] == nil {
				l["iterate"] = 3
				t["type"] = "iterator"
			}
			l["delay"] = noInt()
			return fmt.Sprintf("loop delay %v", l["delay"]), []string{id}
		case 16:
			l := loop()
			if l["condition"] == nil && l["iterate"] == nil && l["iterateOn"] == nil {
				l["iterate"] = 3
				t["type"] = "iterator"
			}
			l["accumulate"] = []interface{}{"abc", M{"a": 1}, []interface{}{true}, "yes please"}[r.Intn(4)]
			return fmt.Sprintf("accumulate %v", l["accumulate"]), []string{id}
		case 17:
			s := sub(t, "settings")
			s["retryOnError"] = []interface{}{"abc", 5, true, []interface{}{1}}[r.Intn(4)]
			return fmt.Sprintf("retry %v", s["retryOnError"]), []string{id}
		case 18:
			s := sub(t, "settings")
			k := []string{"count", "interval"}[r.Intn(2)]
			v := noInt()
			s["retryOnError"] = M{"count": 1, "interval": 0}
			s["retryOnError"].(M)[k] = v
			return fmt.Sprintf("retry %s %v", k, v), []string{id}
		case 19:
			s := sub(t, "settings")
			k := []string{"count", "interval"}[r.Intn(2)]
			x := ex()
			s["retryOnError"] = M{"count": 1, "interval": 0}
			s["retryOnError"].(M)[k] = "=" + x
			return "retry " + k + " expression " + x, []string{id}
		case 20:
			in()
			s := sub(a, "settings")
			s["n"] = []interface{}{"abc", M{"a": 1}, "=$env[VERIF_NO_SUCH_VARIABLE]", "=("}[r.Intn(4)]
			return fmt.Sprintf("activity setting n=%v", s["n"]), []string{id}
		case 21: // wrong shape
			switch r.Intn(6) {
			case 0:
				g["tasks"] = M{"a": 1}
			case 1:
				g["links"] = "abc"
			case 2:
				t["activity"] = "abc"
			case 3:
				t["settings"] = []interface{}{1}
			case 4:
				t["id"] = 5
			case 5:
				link()["value"] = M{"x": 1}
			}
			return "wrong shape", nil
		case 22:
			// two tasks with the same id
			x := ts[r.Intn(len(ts))]
			y := M{}
			for k, v := range x {
				y[k] = v
			}
			y["name"] = "another"
			l := g["tasks"].([]interface{})
			g["tasks"] = append(append([]interface{}{}, l...), y)
			if r.Intn(2) == 0 {
				nl := g["tasks"].([]interface{})
				r.Shuffle(len(nl), func(i, j int) { nl[i], nl[j] = nl[j], nl[i] })
			}
			return "two tasks with one id", []string{x["id"].(string)}
		case 23:
			out := sub(a, "output")
			in()
			out["n"] = noInt()
			return fmt.Sprintf("output n=%v", out["n"]), []string{id}
		}
	}
}

func asPtr(m M) string { return fmt.Sprintf("%p", m) }

func loadBad(c *Case) {
	g := newGen(c.Seed, fmt.Sprintf("lb%d", c.Idx), mixOpt(c))
	sc := g.scenario()
	for i := len(sc.Flows) - 1; i >= 1; i-- {
		if err := loadFlow(sc.Flows[i]); err != nil {
			c.badf("valid flow refused: %v", err)
			return
		}
	}
	f := sc.Flows[0]
	m := asDoc(f.JSON())
	n := 0
	if c.R.Intn(2) == 0 {
		varyDoc(c.R, m, f, &n)
	}
	what, names := plant(c.R, m)
	b, _ := json.Marshal(m)
	c.Detail = map[string]interface{}{"defect": what, "doc": json.RawMessage(b)}
	d, err, pan := loadDoc(b, c.R.Intn(4) == 0 && !bytes.Contains(b, []byte(`null`)))
	kind := what
	if i := strings.Index(kind, "expression"); i >= 0 {
		kind = kind[:i] + "expression"
	} else if f := strings.Fields(kind); len(f) > 2 {
		kind = strings.Join(f[:2], " ")
	}
	if i := strings.IndexAny(kind, "=0123456789["); i > 0 {
		kind = kind[:i]
	}
	c.stat("defect "+strings.TrimSpace(kind), 1)
	c.Sig = hashOf(string(b))
	c.NonTriv = true
	switch {
	case pan != "":
		c.badf("loading panicked (%s): %s", what, pan)
	case err == nil && d == nil:
		c.badf("loading reported neither a flow nor an error (%s)", what)
	case err == nil:
		c.badf("a definition with a defect was accepted: %s", what)
	default:
		ok := len(names) == 0
		for _, x := range names {
			ok = ok || strings.Contains(err.Error(), x)
		}
		if !ok {
			c.badf("the error does not name the defect (%s, one of %q expected): %v", what, names, err)
		}
	}
}

// ---------- damaged documents ----------

func randJSON(r *rand.Rand, d int) interface{} {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return r.Intn(3) == 0
	case 2:
		return r.Intn(10) - 3
	case 3:
		return 1.5
	case 4:
		return ""
	case 5:
		return "=" + badExprs[r.Intn(len(badExprs))]
	case 6:
		return []string{"iterator", "doWhile", "basic", "expression", "error", "t1", "t2", "=$flow.a", "true", "3", "\x00", "é"}[r.Intn(12)]
	case 7, 8:
		if d <= 0 {
			return "x"
		}
		l := []interface{}{}
		for i := 0; i < r.Intn(4); i++ {
			l = append(l, randJSON(r, d-1))
		}
		return l
	case 9, 10:
		if d <= 0 {
			return "y"
		}
		m := M{}
		for i := 0; i < r.Intn(4); i++ {
			m[[]string{"id", "type", "name", "settings", "activity", "ref", "input", "mapping", "from", "to", "tasks", "links", "value", "count", "iterate", "condition", "@foreach($flow.a)"}[r.Intn(17)]] = randJSON(r, d-1)
		}
		return m
	}
	return "=$flow.x"
}

// damage changes random nodes of a document.
func damage(r *rand.Rand, v interface{}, p float64) interface{} {
	if r.Float64() < p {
		switch r.Intn(4) {
		case 0:
			return nil
		case 1, 2:
			return randJSON(r, 2)
		}
	}
	switch x := v.(type) {
	case M:
		for _, k := range sortedKeys(x) {
			if r.Float64() < p/2 {
				delete(x, k)
				continue
			}
			x[k] = damage(r, x[k], p)
			if r.Float64() < p/4 {
				y := x[k]
				delete(x, k)
				x[strings.ToUpper(k)] = y
			}
		}
	case []interface{}:
		for i := range x {
			x[i] = damage(r, x[i], p)
		}
		if len(x) > 0 && r.Float64() < p {
			i := r.Intn(len(x))
			switch r.Intn(3) {
			case 0:
				return append(x, x[i])
			case 1:
				return append(x[:i:i], x[i+1:]...)
			case 2:
				return append(x, nil)
			}
		}
	}
	return v
}

func loadFuzz(c *Case) {
	o := mixOpt(c)
	o.MaxT = imin(o.MaxT, 6)
	g := newGen(c.Seed, fmt.Sprintf("lf%d", c.Idx), o)
	sc := g.scenario()
	f := sc.Flows[0]
	r := c.R
	var b []byte
	how := ""
	switch r.Intn(10) {
	case 0:
		how = "json"
		b, _ = json.Marshal(randJSON(r, 5))
	case 1:
		how = "bytes"
		b = make([]byte, r.Intn(60))
		r.Read(b)
	case 2, 3, 4:
		how = "flips"
		b = append([]byte{}, f.JSON()...)
		for i := 0; i < 1+r.Intn(6); i++ {
			switch r.Intn(4) {
			case 0:
				b[r.Intn(len(b))] = byte(r.Intn(256))
			case 1:
				j := r.Intn(len(b))
				b = append(b[:j:j], b[imin(len(b), j+1+r.Intn(8)):]...)
			case 2:
				j := r.Intn(len(b))
				k := imin(len(b), j+r.Intn(40))
				b = append(b[:k:k], b[j:]...)
			case 3:
				b[r.Intn(len(b))] = "\"{}[],:0159=$()."[r.Intn(16)]
			}
			if len(b) == 0 {
				break
			}
		}
	default:
		how = "tree"
		m := asDoc(f.JSON())
		n := 0
		if r.Intn(2) == 0 {
			varyDoc(r, m, f, &n)
		}
		b, _ = json.Marshal(damage(r, m, []float64{0.003, 0.01, 0.03, 0.1}[r.Intn(4)]))
	}
	c.Detail = map[string]interface{}{"how": how, "doc": string(b)}
	c.Sig = hashOf(string(b))
	d, err, pan := loadDoc(b, c.R.Intn(4) == 0 && !bytes.Contains(b, []byte(`null`)))
	if pan != "" {
		c.badf("loading panicked: %s", pan)
		return
	}
	c.NonTriv = true
	if err != nil {
		c.stat("refused "+how, 1)
		if d != nil {
			c.badf("loading reported both a flow and an error")
		}
		return
	}
	if d == nil {
		c.badf("loading reported neither a flow nor an error")
		return
	}
	c.stat("accepted "+how, 1)
	want, must, wild := descRep(b)
	if must != "" {
		c.badf("a malformed definition was accepted: %s", must)
		return
	}
	if want == nil || wild {
		c.stat("accepted but not compared", 1)
		return
	}
	cmpDesc(c, b, want, d)
	c.stat("accepted and compared", 1)
}
