package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/data/schema"
)

// C27: values are checked against the schemas declared for inputs and outputs.

// schemaMode is what the process does with schemas: nothing is declared (""),
// "on", "off" (support for schemas is not enabled) or "novalid" (enabled, but
// values are not validated).
var schemaMode string

const schemaType = "vs"

type vschema struct{ v string }

func (s *vschema) Type() string  { return schemaType }
func (s *vschema) Value() string { return s.v }
func (s *vschema) Validate(v interface{}) error {
	if s.v == "boom" {
		panic("vschema boom")
	}
	if !satisfies(s.v, norm(v)) {
		return schema.NewValidationError("vschema "+s.v, nil)
	}
	return nil
}

type vfactory struct{}

func (vfactory) New(d *schema.Def) (schema.Schema, error) {
	if satisfiesKnown[d.Value] {
		return &vschema{d.Value}, nil
	}
	return nil, fmt.Errorf("unknown vschema %q", d.Value)
}

var satisfiesKnown = map[string]bool{"ok": true, "never": true, "boom": true, "str": true, "num": true, "few": true, "some": true, "bool": true}

// satisfies: the (normalised) value has the property.
func satisfies(p string, v interface{}) bool {
	switch p {
	case "ok":
		return true
	case "str":
		_, ok := v.(string)
		return ok
	case "num":
		_, ok := v.(float64)
		return ok
	case "bool":
		_, ok := v.(bool)
		return ok
	case "few":
		f, ok := v.(float64)
		return ok && f < 3
	case "some":
		return v != nil
	}
	return false
}

// schemaErr is the violation of one of the schemas.
type schemaErr struct {
	msg  string
	boom bool
}

func (e *schemaErr) Error() string { return e.msg }

func (e *schemaErr) info(t *Task) *EInfo {
	if e.boom {
		return &EInfo{Kind: "panic", Msg: "vschema boom", Act: t.Name}
	}
	return &EInfo{Kind: "schema", Msg: e.msg}
}

// violated looks for a value that does not satisfy the schema declared for it.
func violated(t *Task, sch map[string]string, vals map[string]interface{}) *schemaErr {
	if schemaMode != "on" || t.Bypass || len(sch) == 0 {
		return nil
	}
	var e *schemaErr
	for k, p := range sch {
		v, ok := vals[k]
		if !ok || satisfies(p, v) {
			continue
		}
		m := "vschema " + p
		if e != nil && e.msg != m {
			m = "vschema " // one of them
		}
		e = &schemaErr{m, p == "boom"}
	}
	return e
}

func schemasRep(t *Task) map[string]interface{} {
	m := map[string]interface{}{}
	put := func(where string, sch map[string]string) {
		if len(sch) == 0 {
			return
		}
		d := map[string]interface{}{}
		for k, p := range sch {
			if (len(k)+len(p)+len(t.ID)+len(t.In))%3 == 0 {
				d[k] = "schema://reg-" + p
			} else {
				d[k] = map[string]interface{}{"type": schemaType, "value": p}
			}
		}
		m[where] = d
	}
	put("input", t.InSch)
	put("output", t.OutSch)
	return m
}

// schemasSeen compares the schemas the activity gets with those declared.
func schemasSeen(ctx activity.Context, cfg *TaskCfg) string {
	h, ok := ctx.(schema.HasSchemaIO)
	if !ok {
		return "cannot ask for schemas"
	}
	for _, k := range []string{"a", "b", "c", "n", "out", "s", "x", "nosuchname"} {
		for w, s := range map[string]schema.Schema{"in": h.GetInputSchema(k), "out": h.GetOutputSchema(k)} {
			p, ok := cfg.InSch[k], false
			if w == "out" {
				p = cfg.OutSch[k]
			}
			typ := schemaType
			if schemaMode == "off" {
				typ = ""
				if p != "" {
					p = "?"
				}
			}
			switch {
			case p == "":
				ok = s == nil
			case s == nil:
			case schemaMode == "off":
				ok = s.Type() == "" && s.Value() == ""
			default:
				ok = s.Type() == typ && s.Value() == p
			}
			if !ok {
				return fmt.Sprintf("gets the wrong schema for %sput %s", w, k)
			}
		}
	}
	return ""
}

func initSchemas(mode string) {
	schemaMode = mode
	if mode != "off" {
		schema.Enable()
	}
	if mode == "novalid" {
		schema.DisableValidation()
	}
	_ = schema.RegisterFactory(schemaType, vfactory{})
	var ks []string
	for p := range satisfiesKnown {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for _, p := range ks {
		if _, err := schema.Register("reg-"+p, &schema.Def{Type: schemaType, Value: p}); err != nil {
			panic(err)
		}
	}
}

func usesErr(e *Expr) (yes bool) {
	e.refs(func(e *Expr) { yes = yes || e.K == "err" })
	return
}

// declareSchemas adds schemas to the tasks of a scenario.
func declareSchemas(r *rand.Rand, sc *Scenario) {
	p := func(x float64) bool { return r.Float64() < x }
	bad := 2 // tasks whose inputs may violate a schema
	for i, f := range sc.Flows {
		if f.byID == nil {
			f.index()
		}
		for _, g := range f.graphs() {
			for _, t := range g.Tasks {
				if p(0.5) {
					continue
				}
				t.Bypass = !t.Ret && t.Sub == "" && p(0.15)
				// the first tasks of a subflow tell the monitor who called it
				first := i > 0 && g == &f.Main && len(f.inl[t.ID]) == 0
				violate := !first && bad > 0 && p(0.12)
				t.InSch, t.OutSch = map[string]string{}, map[string]string{}
				pred := func(vals []interface{}, fixed bool) string {
					// satisfied by all the values, or (violate) not
					if fixed {
						if violate {
							return "never"
						}
						return "ok"
					}
					l := []string{"ok", "str", "num", "few", "some", "bool"}
					if violate {
						l = append(l, "never", "never", "str", "num")
					}
					return l[r.Intn(len(l))]
				}
				ks := make([]string, 0, len(t.In))
				for k := range t.In {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					e := t.In[k]
					if p(0.4) {
						continue
					}
					data := violate && !usesErr(e) && t.Type != "iterator"
					if data {
						t.InSch[k] = pred(nil, false)
					} else {
						t.InSch[k] = pred(nil, true)
					}
				}
				if violate && len(t.InSch) > 0 {
					bad--
					if p(0.2) {
						for k := range t.InSch {
							delete(t.InSch, k)
						}
						t.InSch[ks[r.Intn(len(ks))]] = "boom"
					}
				}
				if p(0.2) {
					t.InSch["nosuchname"] = "never"
				}
				// outputs
				rets := false
				for _, s := range t.Scripts {
					for _, o := range s {
						rets = rets || strings.HasPrefix(o.K, "return")
					}
				}
				outs := map[string]string{"out": "str", "n": "num", "b": "bool", "s": "str", "m": "some", "l": "some", "x": "some", "nul": "ok"}
				wrong := map[string]string{"out": "num", "n": "few", "b": "str", "s": "never", "m": "bool", "l": "boom", "x": "num", "nul": "some"}
				if t.Sub != "" {
					outs = map[string]string{"i1": "ok", "r1": "ok", "v1": "ok"}
					wrong = map[string]string{"i1": "never", "r1": "num", "v1": "boom"}
				}
				fail := !rets && p(0.2)
				for k, s := range outs {
					if (int(t.ID[len(t.ID)-1])+len(k)+int(k[0]))%3 == 0 {
						t.OutSch[k] = s
					}
				}
				if fail {
					var ks []string
					for k := range wrong {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					k := ks[r.Intn(len(ks))]
					if wrong[k] == "boom" {
						t.OutSch = map[string]string{}
					}
					t.OutSch[k] = wrong[k]
				}
				if p(0.2) {
					t.OutSch["nosuchname"] = "never"
				}
			}
		}
	}
}

// schemabad: definitions whose schemas make no sense are refused.
func schemaBad(c *Case) {
	g := newGen(c.Seed, fmt.Sprintf("sb%d", c.Idx), mixOpt(c))
	sc := g.scenario()
	f := sc.Flows[0]
	var ts []*Task
	for _, gr := range f.graphs() {
		ts = append(ts, gr.Tasks...)
	}
	if len(ts) == 0 {
		return
	}
	bad, name := ts[c.R.Intn(len(ts))], ""
	var rep interface{}
	refused := true
	on := schemaMode == "on"
	switch k := c.R.Intn(12); k {
	case 0:
		rep, name = map[string]interface{}{"type": "nosuchtype", "value": "ok"}, "unknown type"
		refused = on
	case 1:
		rep, name = map[string]interface{}{"type": schemaType, "value": "nosuchvalue"}, "refused by its type"
		refused = on
	case 2:
		rep, name = map[string]interface{}{"type": schemaType}, "no value"
	case 3:
		rep, name = map[string]interface{}{"value": "ok"}, "no type"
	case 4:
		rep, name = map[string]interface{}{"type": 7, "value": "ok"}, "type is no string"
	case 5:
		rep, name = map[string]interface{}{"type": schemaType, "value": []interface{}{"ok"}}, "value is no string"
	case 6:
		rep, name = "reg-ok", "text that is no reference"
	case 7:
		rep, name = []interface{}{schemaType, "ok"}, "list"
	case 8:
		rep, name = 12.5, "number"
	case 9:
		rep, name = map[string]interface{}{}, "empty"
	case 10:
		rep, name, refused = nil, "null", false
	case 11:
		rep, name, refused = "schema://reg-ok", "reference", false
	}
	where := g.pick("input", "output")
	bad.schemaRep = func(m map[string]interface{}) {
		s, _ := m["schemas"].(map[string]interface{})
		if s == nil {
			s = map[string]interface{}{}
			m["schemas"] = s
		}
		d, _ := s[where].(map[string]interface{})
		if d == nil {
			d = map[string]interface{}{}
			s[where] = d
		}
		d["zz"] = rep
	}
	for i := len(sc.Flows) - 1; i > 0; i-- {
		if err := loadFlow(sc.Flows[i]); err != nil {
			c.badf("valid flow %s refused: %v", sc.Flows[i].Name, err)
			return
		}
	}
	err := loadFlow(f)
	c.Detail = map[string]interface{}{"flow": rawJSON(f.JSON()), "schema": rep, "task": bad.ID, "of": where}
	c.stat("schemas "+name, 1)
	c.NonTriv, c.Sig = true, hashOf(string(f.JSON()))
	switch {
	case refused && err == nil:
		c.badf("a flow with a meaningless schema (%s) was accepted", name)
	case !refused && err != nil:
		c.badf("a flow with a valid schema (%s) was refused: %v", name, err)
	case refused && !strings.Contains(err.Error(), "zz"):
		c.badf("the error for a meaningless schema (%s) does not name it: %v", name, err)
	}
}

func init() {
	families["schemabad"] = schemaBad
	genFamily("schema", func(c *Case) genOpt {
		o := mixOpt(c)
		if o.Data == 0 {
			o.Data = 1
		}
		if c.R.Intn(3) == 0 {
			o.PPost = oneOf(c, 0, 0.3)
			o.PSub, o.Depth = 0.4, 2
		}
		if c.R.Intn(3) == 0 {
			o.PIter, o.PDoW = 0.25, 0.25
		}
		return o
	}, nil, func(c *Case, o *oracle) bool {
		return schemaMode != "on" && o.execs > 0 || o.stats["badout"]+o.stats["silentfail"] > 0
	})
	for _, m := range []string{"on", "off", "novalid"} {
		m := m
		inits["schema"+m] = func() { initSchemas(m); inits["plain"]() }
	}
	inits["schemaevents"] = func() { initSchemas("on"); inits["events"]() }
	inits["schematrace"] = func() { initSchemas("on"); inits["trace"]() }
	props["C27"] = &PropDef{ID: "C27", Rule: "random flows of all features whose tasks declare schemas for inputs and outputs that the values satisfy or not; non-trivial if a task failed because of a schema or before its activity (validation on) or an activity ran (validation off); for refused definitions, the definition",
		Batches: func(q bool) []Batch {
			return []Batch{
				{Fam: "schema", N: size(q, 8000, 250000), Init: "schemaon"},
				{Fam: "schema", N: size(q, 600, 20000), Init: "schemaoff", Arg: "off"},
				{Fam: "schema", N: size(q, 600, 20000), Init: "schemanovalid", Arg: "novalid"},
				{Fam: "schema", N: size(q, 1500, 40000), Init: "schemaon", Arg: "c", Env: concEnv},
				{Fam: "events", N: size(q, 1200, 40000), Init: "schemaevents", Arg: "schema"},
				{Fam: "trace", N: size(q, 1200, 40000), Init: "schematrace", Arg: "schema"},
				{Fam: "schemabad", N: size(q, 1000, 20000), Init: "schemaon"},
				{Fam: "schemabad", N: size(q, 300, 8000), Init: "schemaoff", Arg: "off"},
				{Fam: "schemabad", N: size(q, 300, 8000), Init: "schemanovalid", Arg: "novalid"},
			}
		}}
}
