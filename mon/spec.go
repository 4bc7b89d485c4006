package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------- expressions ----------

// Expr is the harness's own expression language; it is rendered into the
// engine's syntax and evaluated independently by eval.
type Expr struct {
	K    string      `json:"k"`           // lit flow act iter err ctx cat cmp arith and or not tern obj boom verr missing
	V    interface{} `json:"v,omitempty"` // literal
	Name string      `json:"n,omitempty"` // flow attr / task / iteration field / operator
	Out  string      `json:"o,omitempty"` // activity output / error field
	Path []string    `json:"p,omitempty"` // further path: "[0]" or ".x"
	A    []*Expr     `json:"a,omitempty"` // operands
	Keys []string    `json:"keys,omitempty"`
}

func Lit(v interface{}) *Expr             { return &Expr{K: "lit", V: v} }
func FlowE(n string, p ...string) *Expr   { return &Expr{K: "flow", Name: n, Path: p} }
func ActE(t, o string, p ...string) *Expr { return &Expr{K: "act", Name: t, Out: o, Path: p} }
func IterE(f string, p ...string) *Expr   { return &Expr{K: "iter", Name: f, Path: p} }
func ErrE(t, f string) *Expr              { return &Expr{K: "err", Name: t, Out: f} }
func CtxE(n string) *Expr                 { return &Expr{K: "ctx", Name: n} }
func CatE(a ...*Expr) *Expr               { return &Expr{K: "cat", A: a} }
func Op(op string, a ...*Expr) *Expr      { return &Expr{K: "op", Name: op, A: a} }
func Boom(s string) *Expr                 { return &Expr{K: "boom", V: s} }
func VErr(s string) *Expr                 { return &Expr{K: "verr", V: s} }

// src renders the expression without the leading '='.
func (e *Expr) src() string {
	switch e.K {
	case "lit":
		switch v := e.V.(type) {
		case string:
			return "\"" + v + "\""
		case bool:
			return strconv.FormatBool(v)
		case int:
			return strconv.Itoa(v)
		case float64:
			return strconv.FormatFloat(v, 'f', -1, 64)
		case nil:
			return "nil"
		}
		panic(fmt.Sprintf("lit %T", e.V))
	case "flow":
		return "$flow." + e.Name + strings.Join(e.Path, "")
	case "act":
		s := "$activity[" + e.Name + "]"
		if e.Out != "" {
			s += "." + e.Out
		}
		return s + strings.Join(e.Path, "")
	case "iter":
		return "$iteration[" + e.Name + "]" + strings.Join(e.Path, "")
	case "err":
		s := "$error"
		if e.Name != "" {
			s += "[" + e.Name + "]"
		}
		if e.Out != "" {
			s += "." + e.Out
		}
		return s + strings.Join(e.Path, "")
	case "ctx":
		return "$flowctx[" + e.Name + "]"
	case "cat":
		var a []string
		for _, x := range e.A {
			a = append(a, x.src())
		}
		return "vf.cat(" + strings.Join(a, ", ") + ")"
	case "boom":
		return fmt.Sprintf("vf.boom(\"%v\")", e.V)
	case "verr":
		return fmt.Sprintf("vf.err(\"%v\")", e.V)
	case "op":
		switch e.Name {
		case "!":
			return "!(" + e.A[0].src() + ")"
		case "?":
			return "(" + e.A[0].src() + ") ? " + e.A[1].src() + " : " + e.A[2].src()
		case "&&", "||":
			return "(" + e.A[0].src() + ") " + e.Name + " (" + e.A[1].src() + ")"
		}
		return e.A[0].src() + " " + e.Name + " " + e.A[1].src()
	}
	panic("src " + e.K)
}

// mapping renders the expression as a mapping value of a definition.
func (e *Expr) mapping() interface{} {
	switch e.K {
	case "lit", "raw":
		return e.V
	case "obj":
		m := map[string]interface{}{}
		for i, k := range e.Keys {
			m[k] = e.A[i].objField()
		}
		return map[string]interface{}{"mapping": m}
	}
	return "=" + e.src()
}

func (e *Expr) objField() interface{} {
	if e.K == "obj" {
		m := map[string]interface{}{}
		for i, k := range e.Keys {
			m[k] = e.A[i].objField()
		}
		return m
	}
	return e.mapping()
}

// tasks referred to
func (e *Expr) refs(f func(e *Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, a := range e.A {
		a.refs(f)
	}
}

type evalErr struct{ msg string }

func (e *evalErr) Error() string { return e.msg }

type scope interface {
	get(name string) (interface{}, bool)
}

func failf(f string, a ...interface{}) { panic(&evalErr{fmt.Sprintf(f, a...)}) }

// Eval evaluates e; ok is false if the evaluation is an error (msg holds a
// fragment the engine's message must contain, possibly empty).
func (e *Expr) Eval(sc scope) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(*evalErr); ok {
				err = ee
				return
			}
			panic(r)
		}
	}()
	return e.ev(sc), nil
}

func (e *Expr) ev(sc scope) interface{} {
	switch e.K {
	case "lit", "raw":
		return norm(e.V)
	case "flow":
		v, ok := sc.get(e.Name)
		if !ok {
			failf("")
		}
		return walk(v, e.Path)
	case "act":
		n := "_A." + e.Name
		if e.Out != "" {
			n += "." + e.Out
		}
		v, ok := sc.get(n)
		if !ok {
			failf("")
		}
		return walk(v, e.Path)
	case "iter":
		v, ok := sc.get("_W.iteration")
		if !ok {
			failf("")
		}
		return walk(walk(v, []string{"." + e.Name}), e.Path)
	case "err":
		n := "_E"
		if e.Name != "" {
			n += "." + e.Name
		}
		v, ok := sc.get(n)
		if !ok {
			failf("")
		}
		if e.Out == "" {
			return v
		}
		return walk(walk(v, []string{"." + e.Out}), e.Path)
	case "ctx":
		v, ok := sc.get("_fctx." + e.Name)
		if !ok {
			failf("")
		}
		return v
	case "cat":
		var s []string
		for _, a := range e.A {
			s = append(s, sprint(a.ev(sc)))
		}
		return strings.Join(s, "+")
	case "boom":
		failf("vfboom:%v", e.V)
	case "verr":
		failf("vferr:%v", e.V)
	case "obj":
		m := map[string]interface{}{}
		for i, k := range e.Keys {
			m[k] = e.A[i].ev(sc)
		}
		return m
	case "op":
		switch e.Name {
		case "!":
			return !e.A[0].ev(sc).(bool)
		case "?":
			if e.A[0].ev(sc).(bool) {
				return e.A[1].ev(sc)
			}
			return e.A[2].ev(sc)
		case "&&":
			return e.A[0].ev(sc).(bool) && e.A[1].ev(sc).(bool)
		case "||":
			return e.A[0].ev(sc).(bool) || e.A[1].ev(sc).(bool)
		}
		a, b := e.A[0].ev(sc), e.A[1].ev(sc)
		if e.Name == "==" {
			return eq(a, b)
		}
		if e.Name == "!=" {
			return !eq(a, b)
		}
		x, xo := a.(float64)
		y, yo := b.(float64)
		if !xo || !yo {
			failf("")
		}
		switch e.Name {
		case "<":
			return x < y
		case "<=":
			return x <= y
		case ">":
			return x > y
		case ">=":
			return x >= y
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "%":
			return float64(int64(x) % int64(y))
		}
	}
	panic("ev " + e.K + " " + e.Name)
}

func walk(v interface{}, p []string) interface{} {
	for i, s := range p {
		if strings.HasPrefix(s, "[") {
			l, ok := v.([]interface{})
			k, _ := strconv.Atoi(s[1 : len(s)-1])
			if !ok || k >= len(l) {
				failf("")
			}
			v = l[k]
		} else {
			m, ok := v.(map[string]interface{})
			if !ok {
				failf("")
			}
			x, ok := m[s[1:]]
			if !ok && i == len(p)-1 {
				return nil // a missing last key is null
			}
			if !ok {
				failf("")
			}
			v = x
		}
	}
	return v
}

// ---------- values ----------

// norm copies a value into canonical form (numbers are float64).
func norm(v interface{}) interface{} {
	switch t := v.(type) {
	case nil, bool, string, float64:
		return t
	case int:
		return float64(t)
	case int32:
		return float64(t)
	case int64:
		return float64(t)
	case float32:
		return float64(t)
	case json.Number:
		f, _ := t.Float64()
		return f
	case []interface{}:
		r := make([]interface{}, len(t))
		for i, x := range t {
			r[i] = norm(x)
		}
		return r
	case []string:
		r := make([]interface{}, len(t))
		for i, x := range t {
			r[i] = x
		}
		return r
	case []int:
		r := make([]interface{}, len(t))
		for i, x := range t {
			r[i] = float64(x)
		}
		return r
	case []map[string]interface{}:
		r := make([]interface{}, len(t))
		for i, x := range t {
			r[i] = norm(x)
		}
		return r
	case map[string]interface{}:
		r := make(map[string]interface{}, len(t))
		for k, x := range t {
			r[k] = norm(x)
		}
		return r
	case struct{}:
		return map[string]interface{}{}
	case error:
		return "error:" + t.Error()
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%T:%v", v, v)
	}
	var x interface{}
	_ = json.Unmarshal(b, &x)
	return x
}

func sprint(v interface{}) string {
	if f, ok := v.(float64); ok && f == float64(int64(f)) {
		return strconv.FormatInt(int64(f), 10)
	}
	return fmt.Sprint(v)
}

func eq(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eq(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !eq(x[k], v) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case []interface{}, map[string]interface{}:
		return false
	}
	return a == b
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%v", v)
	}
	return string(b)
}

func sortedKeys(m map[string]interface{}) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// ---------- flows ----------

type Param struct {
	Name string      `json:"name"`
	Type string      `json:"type"`
	Def  interface{} `json:"def,omitempty"`
}

type Out struct {
	K     string            `json:"k"`           // ok err aerr retry panic return reply
	N     int               `json:"n,omitempty"` // outputs
	B     bool              `json:"b,omitempty"`
	L     int               `json:"l,omitempty"`    // length of list output
	Set   map[string]string `json:"set,omitempty"`  // flow values assigned
	RErr  bool              `json:"rerr,omitempty"` // return with error
	Ret   []string          `json:"ret,omitempty"`  // names returned or replied
	RetV  bool              `json:"retv,omitempty"` // some runs return only some of them
	Meet  string            `json:"meet,omitempty"` // wait for the others of this group
	MeetN int               `json:"meetn,omitempty"`
	Gate  string            `json:"gate,omitempty"`  // wait until it is opened
	Sleep int               `json:"sleep,omitempty"` // ms
	EV    string            `json:"ev,omitempty"`    // error without code or data, or with data of another kind
}

// TaskCfg travels to the probe as its cfg setting.
type TaskCfg struct {
	ID      string            `json:"id"`
	Scripts map[string][]Out  `json:"scripts,omitempty"`
	Sch     bool              `json:"sch,omitempty"` // compare the schemas
	InSch   map[string]string `json:"insch,omitempty"`
	OutSch  map[string]string `json:"outsch,omitempty"`
	Decl    bool              `json:"decl,omitempty"` // declares an output
	src     string
}

// Post is what such an activity does with the results of its calls.
type Post struct {
	ID    string   `json:"id"`
	Kinds []string `json:"kinds"`         // of the 1st, 2nd, ... call, the last one from then on: ok set err aerr retry panic
	Out   string   `json:"out,omitempty"` // the output it sets
}

func (p *Post) kind(n int) string {
	if n >= len(p.Kinds) {
		n = len(p.Kinds) - 1
	}
	return p.Kinds[n]
}

func (p *Post) value() string { return "post:" + p.ID }

type Task struct {
	ID      string                 `json:"id"`
	Name    string                 `json:"name"`
	Type    string                 `json:"type,omitempty"` // "", iterator, doWhile
	Sub     string                 `json:"sub,omitempty"`  // subflow: its flow name
	Basic   bool                   `json:"basic,omitempty"`
	Det     bool                   `json:"det,omitempty"`  // detached
	Post    *Post                  `json:"post,omitempty"` // called by an asynchronous activity of our own
	In      map[string]*Expr       `json:"in,omitempty"`
	Scripts map[string][]Out       `json:"scripts,omitempty"` // by tag; "" is the default
	Iter    *Expr                  `json:"iter,omitempty"`
	IterLit interface{}            `json:"iterLit,omitempty"`
	Cond    *Expr                  `json:"cond,omitempty"`
	CondEq  bool                   `json:"condEq,omitempty"` // render with leading '='
	LoopFmt int                    `json:"loopFmt,omitempty"`
	Accum   bool                   `json:"accum,omitempty"`
	Retry   *Expr                  `json:"retry,omitempty"` // count
	RetryIv int                    `json:"retryIv,omitempty"`
	Delay   int                    `json:"delay,omitempty"`   // between iterations (ms)
	SetExpr *Expr                  `json:"setExpr,omitempty"` // extra setting expression
	Ret     bool                   `json:"ret,omitempty"`     // uses the return-activity
	ActSet  map[string]interface{} `json:"actset,omitempty"`
	InSch   map[string]string      `json:"inSch,omitempty"`  // schemas of inputs
	OutSch  map[string]string      `json:"outSch,omitempty"` // schemas of outputs
	Bypass  bool                   `json:"bypass,omitempty"` // the activity validates its values itself
	Decl    bool                   `json:"decl,omitempty"`   // declares the value of an output
	Legacy  bool                   `json:"legacy,omitempty"` // an activity registered the deprecated way

	schemaRep func(act map[string]interface{}) // changes the schemas
}

type Link struct {
	From  string `json:"from"`
	To    string `json:"to"`
	Type  string `json:"type"` // dep expr label error otherwise
	Cond  *Expr  `json:"cond,omitempty"`
	Lbl   string `json:"lbl,omitempty"`
	Val   string `json:"val,omitempty"`   // a value that has no meaning for links of the type
	Alias string `json:"alias,omitempty"` // other name of the type
}

type Graph struct {
	Tasks []*Task `json:"tasks"`
	Links []*Link `json:"links"`
}

type Flow struct {
	Name   string  `json:"name"`
	Model  string  `json:"model,omitempty"`
	In     []Param `json:"in"`
	Out    []Param `json:"out"`
	NoMeta bool    `json:"noMeta,omitempty"`
	Main   Graph   `json:"main"`
	EH     *Graph  `json:"eh,omitempty"`
	byID   map[string]*Task
	isEH   map[string]bool
	inl    map[string][]*Link
	outl   map[string][]*Link
}

func (f *Flow) index() {
	f.byID = map[string]*Task{}
	f.isEH = map[string]bool{}
	f.inl = map[string][]*Link{}
	f.outl = map[string][]*Link{}
	do := func(g *Graph, eh bool) {
		for _, t := range g.Tasks {
			f.byID[t.ID] = t
			f.isEH[t.ID] = eh
		}
		for _, l := range g.Links {
			f.inl[l.To] = append(f.inl[l.To], l)
			f.outl[l.From] = append(f.outl[l.From], l)
		}
	}
	do(&f.Main, false)
	if f.EH != nil {
		do(f.EH, true)
	}
}

var linkTypeName = map[string]string{"dep": "", "expr": "expression", "label": "label", "error": "error", "otherwise": "exprOtherwise"}

const probeRef = "verifmon/probe"
const rprobeRef = "verifmon/rprobe"
const yprobeRef = "verifmon/yprobe"
const zprobeRef = "verifmon/zprobe"
const lprobeRef = "verifmon/lprobe"
const acallRef = "verifmon/acall"

// retRef is the ref of a task that returns or replies explicitly.
func (t *Task) retRef() string {
	if n := len(t.ID); n > 0 && t.ID[n-1]%3 == 0 {
		return yprobeRef
	}
	return rprobeRef
}

// ref is the activity of a task that calls no flow.
func (t *Task) ref() string {
	switch {
	case t.Bypass:
		return zprobeRef
	case t.Legacy:
		return lprobeRef
	case t.Ret:
		return t.retRef()
	}
	return probeRef
}

const subRef = "github.com/project-flogo/flow/activity/subflow"

func flowURI(name string) string {
	if u := uriOf[name]; u != "" {
		return u
	}
	return "res://flow:" + name
}

// typeID is the type as it is written.
func (t *Task) typeID() string {
	if t.Type == "" && t.Basic {
		return "basic"
	}
	return t.Type
}

func (t *Task) rep() map[string]interface{} {
	m := map[string]interface{}{"id": t.ID, "name": t.Name}
	if t.typeID() != "" {
		m["type"] = t.typeID()
	}
	set := map[string]interface{}{}
	loop := set
	if t.LoopFmt == 1 {
		loop = map[string]interface{}{}
		set["loopConfig"] = loop
	} else if t.LoopFmt == 2 && t.Type == "doWhile" {
		loop = map[string]interface{}{}
		set["doWhile"] = loop
	}
	if t.Type == "iterator" {
		if t.Iter != nil {
			if t.LoopFmt == 3 {
				loop["iterateOn"] = "=" + t.Iter.src()
			} else {
				loop["iterate"] = "=" + t.Iter.src()
			}
		} else {
			loop["iterate"] = t.IterLit
		}
	}
	if t.Type == "doWhile" && t.Cond != nil {
		loop["condition"] = t.Cond.src()
		if t.CondEq {
			loop["condition"] = "=" + t.Cond.src()
		}
	}
	if t.Delay > 0 {
		switch t.Delay % 3 {
		case 0:
			loop["delay"] = t.Delay
		case 1:
			loop["delay"] = fmt.Sprint(t.Delay)
		case 2:
			loop["delay"] = float64(t.Delay)
		}
	}
	if t.Accum {
		if t.LoopFmt == 2 && t.Type == "doWhile" {
			set["accumulate"] = true
		} else {
			loop["accumulate"] = true
		}
	}
	if t.Retry != nil {
		set["retryOnError"] = map[string]interface{}{"count": t.Retry.mapping(), "interval": t.RetryIv}
	}
	if t.SetExpr != nil {
		set["extra"] = "=" + t.SetExpr.src()
	}
	if len(set) > 0 {
		m["settings"] = set
	}
	in := map[string]interface{}{}
	for k, e := range t.In {
		in[k] = e.mapping()
	}
	act := map[string]interface{}{"input": in}
	if t.Sub != "" {
		act["ref"] = subRef
		s := map[string]interface{}{"flowURI": flowURI(t.Sub)}
		if t.Post != nil {
			act["ref"] = acallRef
			s["post"] = js(t.Post)
		}
		if t.Det {
			s["detached"] = true
		}
		act["settings"] = s
	} else {
		act["ref"] = t.ref()
		s := map[string]interface{}{"cfg": js(&TaskCfg{ID: t.ID, Scripts: t.Scripts, Sch: schemaMode != "", InSch: t.InSch, OutSch: t.OutSch, Decl: t.Decl})}
		if t.Decl {
			act["output"] = map[string]interface{}{"out": "declared by " + t.ID}
		}
		for k, v := range t.ActSet {
			s[k] = v
		}
		act["settings"] = s
	}
	if len(t.InSch)+len(t.OutSch) > 0 {
		act["schemas"] = schemasRep(t)
	}
	if t.schemaRep != nil {
		t.schemaRep(act)
	}
	m["activity"] = act
	return m
}

func (g *Graph) rep() map[string]interface{} {
	ts := []interface{}{}
	for _, t := range g.Tasks {
		ts = append(ts, t.rep())
	}
	ls := []interface{}{}
	for _, l := range g.Links {
		m := map[string]interface{}{"from": l.From, "to": l.To}
		if n := linkTypeName[l.Type]; n != "" {
			m["type"] = n
		}
		if l.Type == "expr" {
			m["value"] = l.Cond.src()
		}
		if l.Alias != "" {
			m["type"] = l.Alias
		}
		if l.Val != "" {
			m["value"] = l.Val
		}
		if l.Lbl != "" {
			m["label"] = l.Lbl
		}
		ls = append(ls, m)
	}
	return map[string]interface{}{"tasks": ts, "links": ls}
}

func (f *Flow) JSON() []byte {
	m := f.Main.rep()
	m["name"] = f.Name
	if f.Model != "" {
		m["model"] = f.Model
	}
	md := map[string]interface{}{}
	ps := func(p []Param) []interface{} {
		r := []interface{}{}
		for _, x := range p {
			q := map[string]interface{}{"name": x.Name, "type": x.Type}
			if x.Def != nil {
				q["value"] = x.Def
			}
			r = append(r, q)
		}
		return r
	}
	md["input"] = ps(f.In)
	md["output"] = ps(f.Out)
	if !f.NoMeta {
		m["metadata"] = md
	}
	if f.EH != nil {
		m["errorHandler"] = f.EH.rep()
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}
