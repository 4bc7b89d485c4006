package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/service"
	flow "github.com/project-flogo/flow"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/ondemand"
	"github.com/project-flogo/flow/state"

	"time"

	"verifmon/probe"
)

// What the recorder service receives: steps and snapshots, compared with the state
// the instance really has when it is recorded.

// view is the comparable state of a flow.
type view struct {
	Status int                    `json:"status"`
	URI    string                 `json:"uri"`
	Attrs  map[string]interface{} `json:"attrs"`
	Tasks  map[string]int         `json:"tasks"`
	Links  map[string]int         `json:"links"`
}

type fullView struct {
	main  *view
	subs  map[int]*view
	host  map[int]string
	queue []queueItem
}

type queueItem struct {
	ID   int
	Sub  int
	Task string
}

func newView() *view {
	return &view{Attrs: map[string]interface{}{}, Tasks: map[string]int{}, Links: map[string]int{}}
}

func newFullView() *fullView {
	return &fullView{main: newView(), subs: map[int]*view{}, host: map[int]string{}}
}

const flowEnded = 500

// live drops what has ended and orders the queue, last item first.
func (v *fullView) live() *fullView {
	r := &fullView{main: v.main, subs: map[int]*view{}, host: map[int]string{}}
	for id, s := range v.subs {
		if s.Status < flowEnded {
			r.subs[id] = s
			r.host[id] = v.host[id]
		}
	}
	for _, q := range v.queue {
		f := r.main
		if q.Sub > 0 {
			f = r.subs[q.Sub]
		}
		if f == nil {
			continue
		}
		if _, ok := f.Tasks[q.Task]; ok {
			r.queue = append(r.queue, q)
		}
	}
	return r
}

func diffView(what string, got, want *view, attrs bool) string {
	if got.Status != want.Status {
		return fmt.Sprintf("%s: status %d, the flow has %d", what, got.Status, want.Status)
	}
	if got.URI != want.URI {
		return fmt.Sprintf("%s: flow %q, it is %q", what, got.URI, want.URI)
	}
	if attrs {
		for k, x := range want.Attrs {
			y, ok := got.Attrs[k]
			if !ok {
				return fmt.Sprintf("%s: value %s is missing, the flow has %s", what, k, js(x))
			}
			if !reflect.DeepEqual(x, y) {
				return fmt.Sprintf("%s: value %s is %s, the flow has %s", what, k, js(y), js(x))
			}
		}
		for k, y := range got.Attrs {
			if _, ok := want.Attrs[k]; !ok {
				return fmt.Sprintf("%s: value %s is %s, the flow has none", what, k, js(y))
			}
		}
	}
	if !reflect.DeepEqual(got.Tasks, want.Tasks) {
		return fmt.Sprintf("%s: tasks %s, the flow has %s", what, js(got.Tasks), js(want.Tasks))
	}
	if !reflect.DeepEqual(got.Links, want.Links) {
		return fmt.Sprintf("%s: links %s, the flow has %s", what, js(got.Links), js(want.Links))
	}
	return ""
}

func diffFull(got, want *fullView, attrs, queue bool) string {
	got, want = got.live(), want.live()
	if d := diffView("main flow", got.main, want.main, attrs); d != "" {
		return d
	}
	for id, w := range want.subs {
		g := got.subs[id]
		if g == nil {
			return fmt.Sprintf("subflow %d is missing", id)
		}
		if d := diffView(fmt.Sprintf("subflow %d", id), g, w, attrs); d != "" {
			return d
		}
	}
	for id := range got.subs {
		if want.subs[id] == nil {
			return fmt.Sprintf("subflow %d is not part of the flow", id)
		}
	}
	if queue && !reflect.DeepEqual(got.queue, want.queue) {
		return fmt.Sprintf("queued work %v, the flow has %v", got.queue, want.queue)
	}
	return ""
}

// realView is the state an instance has.
func realView(raw []byte) (*fullView, error) {
	type rep struct {
		SubID   int                    `json:"subFlowId"`
		Status  int                    `json:"status"`
		FlowURI string                 `json:"flowUri"`
		Attrs   map[string]interface{} `json:"attrs"`
		Tasks   []struct {
			ID     string `json:"id"`
			Status int    `json:"status"`
		} `json:"tasks"`
		Links []struct {
			ID     int `json:"linkId"`
			Status int `json:"status"`
		} `json:"links"`
	}
	var doc struct {
		rep
		WorkQueue []struct {
			ID        int    `json:"id"`
			TaskID    string `json:"taskID"`
			SubFlowID int    `json:"subFlowId"`
		} `json:"workQueue"`
		SubFlows []rep `json:"subFlows"`
	}
	if err := json.Unmarshal(raw, &doc); err != nil {
		return nil, err
	}
	if err := json.Unmarshal(raw, &doc.rep); err != nil {
		return nil, err
	}
	mk := func(r *rep) *view {
		v := newView()
		v.Status, v.URI = r.Status, r.FlowURI
		for k, x := range r.Attrs {
			v.Attrs[k] = x
		}
		for _, t := range r.Tasks {
			v.Tasks[t.ID] = t.Status
		}
		for _, l := range r.Links {
			v.Links[strconv.Itoa(l.ID)] = l.Status
		}
		return v
	}
	f := newFullView()
	f.main = mk(&doc.rep)
	for i := range doc.SubFlows {
		f.subs[doc.SubFlows[i].SubID] = mk(&doc.SubFlows[i])
	}
	for _, w := range doc.WorkQueue {
		f.queue = append(f.queue, queueItem{w.ID, w.SubFlowID, w.TaskID})
	}
	return f, nil
}

// stepRep is a step as a state service stores it.
type stepRep struct {
	ID          int                 `json:"id"`
	FlowID      string              `json:"flowId"`
	FlowChanges map[int]*flowChgRep `json:"flowChanges"`
	Queue       map[int]*struct {
		Chg  int    `json:"change"`
		Sub  int    `json:"subflowId"`
		Task string `json:"taskId"`
	} `json:"queueChanges"`
	Rerun bool `json:"rerun"`
}

type flowChgRep struct {
	NewFlow bool                   `json:"newFlow"`
	FlowURI string                 `json:"flowURI"`
	SubID   int                    `json:"subflowId"`
	TaskID  string                 `json:"taskId"`
	Status  int                    `json:"status"`
	Attrs   map[string]interface{} `json:"attrs"`
	Tasks   map[string]*struct {
		Chg    int                    `json:"change"`
		Status int                    `json:"status"`
		Input  map[string]interface{} `json:"input"`
	} `json:"tasks"`
	Links map[int]*struct {
		Chg    int    `json:"change"`
		Status int    `json:"status"`
		From   string `json:"from"`
		To     string `json:"to"`
	} `json:"links"`
	Ret map[string]interface{} `json:"returnData"`
}

const chgDelete = 2

func (f *fullView) apply(s *stepRep) {
	for id, ch := range s.FlowChanges {
		v := f.main
		if id > 0 {
			if f.subs[id] == nil {
				f.subs[id] = newView()
			}
			v = f.subs[id]
			if ch.NewFlow {
				f.host[id] = ch.TaskID
			}
		}
		if ch.NewFlow {
			v.URI = ch.FlowURI
		}
		if ch.Status != 0 {
			v.Status = ch.Status
		}
		for k, x := range ch.Attrs {
			v.Attrs[k] = x
		}
		for t, tc := range ch.Tasks {
			if tc.Chg == chgDelete {
				delete(v.Tasks, t)
			} else {
				v.Tasks[t] = tc.Status
			}
		}
		for l, lc := range ch.Links {
			if lc.Chg == chgDelete {
				delete(v.Links, strconv.Itoa(l))
			} else {
				v.Links[strconv.Itoa(l)] = lc.Status
			}
		}
	}
	for id, q := range s.Queue {
		var keep []queueItem
		for _, x := range f.queue {
			if x.ID != id {
				keep = append(keep, x)
			}
		}
		f.queue = keep
		if q.Chg != chgDelete {
			f.queue = append(f.queue, queueItem{id, q.Sub, q.Task})
		}
	}
	sort.Slice(f.queue, func(i, j int) bool { return f.queue[i].ID > f.queue[j].ID })
}

// snapView is a snapshot as a state service stores it.
func snapView(raw []byte) (*fullView, string, error) {
	type rep struct {
		ID      int                    `json:"-"`
		FlowURI string                 `json:"flowURI"`
		Status  int                    `json:"status"`
		Attrs   map[string]interface{} `json:"attrs"`
		Tasks   []struct {
			ID     string `json:"id"`
			Status int    `json:"status"`
		} `json:"tasks"`
		Links []struct {
			ID     int `json:"id"`
			Status int `json:"status"`
		} `json:"links"`
	}
	var doc struct {
		ID        string `json:"id"`
		WorkQueue []struct {
			ID   int    `json:"id"`
			Sub  int    `json:"subflowId"`
			Task string `json:"taskId"`
		} `json:"workQueue"`
		Subflows []json.RawMessage `json:"subflows"`
	}
	if err := json.Unmarshal(raw, &doc); err != nil {
		return nil, "", err
	}
	mk := func(raw []byte) (*view, error) {
		var r rep
		if err := json.Unmarshal(raw, &r); err != nil {
			return nil, err
		}
		v := newView()
		v.Status, v.URI = r.Status, r.FlowURI
		for k, x := range r.Attrs {
			v.Attrs[k] = x
		}
		for _, t := range r.Tasks {
			if _, dup := v.Tasks[t.ID]; dup {
				return nil, fmt.Errorf("task %s is listed twice", t.ID)
			}
			v.Tasks[t.ID] = t.Status
		}
		for _, l := range r.Links {
			k := strconv.Itoa(l.ID)
			if _, dup := v.Links[k]; dup {
				return nil, fmt.Errorf("link %s is listed twice", k)
			}
			v.Links[k] = l.Status
		}
		return v, nil
	}
	f := newFullView()
	var err error
	if f.main, err = mk(raw); err != nil {
		return nil, "", err
	}
	for _, s := range doc.Subflows {
		var k struct {
			ID     int    `json:"id"`
			TaskID string `json:"taskId"`
		}
		if err := json.Unmarshal(s, &k); err != nil {
			return nil, "", err
		}
		if f.subs[k.ID] != nil {
			return nil, "", fmt.Errorf("subflow %d is listed twice", k.ID)
		}
		if f.subs[k.ID], err = mk(s); err != nil {
			return nil, "", err
		}
		f.host[k.ID] = k.TaskID
	}
	for _, w := range doc.WorkQueue {
		f.queue = append(f.queue, queueItem{w.ID, w.Sub, w.Task})
	}
	return f, doc.ID, nil
}

// ---------- the recorder service ----------

type recRun struct {
	inst   *instance.IndependentInstance
	seq    []string
	began  time.Time
	start  map[string]interface{}
	done   map[string]interface{}
	steps  []*state.Step
	raws   []string
	reps   []*stepRep
	snaps  []*state.Snapshot
	sraws  []string
	replay *fullView
	last   *fullView // real state at the last record
	evN    int
	first  int // id of the first step
	subs   map[int]string
	ended  map[int]bool // subflows recorded as ended
}

type recSvc struct {
	mu     sync.Mutex
	runs   map[string]*recRun
	ids    []string
	bad    []string
	n      int
	failed int
	failP  uint64 // share of failing calls in 1/256
	seed   uint64
	steps  bool // compare the steps
	snaps  bool // compare the snapshots
	mutate bool
	debug  bool
	rerun  bool
	sc     *Scenario
	stats  map[string]int
	insts  map[string]*instance.IndependentInstance
	base   map[string]*fullView
	outs   []interface{}
	since  time.Time
}

var rsvc = &recSvc{}

func (s *recSvc) Name() string { return "recorder" }
func (s *recSvc) Start() error { return nil }
func (s *recSvc) Stop() error  { return nil }

func (s *recSvc) reset(sc *Scenario) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs, s.ids, s.bad, s.n, s.failed = map[string]*recRun{}, nil, nil, 0, 0
	s.failP, s.mutate, s.rerun, s.sc, s.since = 0, false, false, sc, time.Now()
	s.stats, s.insts, s.base, s.outs = map[string]int{}, map[string]*instance.IndependentInstance{}, map[string]*fullView{}, nil
}

func (s *recSvc) run(id string) *recRun {
	r := s.runs[id]
	if r == nil {
		r = &recRun{replay: newFullView(), subs: map[int]string{}}
		if b := s.base[id]; b != nil {
			r.replay = b
		}
		s.runs[id] = r
		s.ids = append(s.ids, id)
	}
	if r.inst == nil {
		r.inst = s.insts[id]
	}
	return r
}

func (s *recSvc) badf(f string, a ...interface{}) {
	if len(s.bad) < 20 {
		s.bad = append(s.bad, fmt.Sprintf(f, a...))
	}
}

// res decides if the call fails.
func (s *recSvc) res() error {
	s.n++
	x := (s.seed + uint64(s.n)) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	if (x>>40)&255 < s.failP {
		s.failed++
		return errors.New("recorder out of order")
	}
	return nil
}

// real is the state of the instance of the run, nil if it isn't known.
func (r *recRun) real(s *recSvc) *fullView {
	if r.inst == nil {
		return nil
	}
	b, err := json.Marshal(r.inst)
	if err != nil {
		s.badf("the instance cannot be saved: %v", err)
		return nil
	}
	v, err := realView(b)
	if err != nil {
		s.badf("the state of the instance cannot be read: %v", err)
		return nil
	}
	return v
}

// callers are the tasks that may have started a flow.
func (s *recSvc) callers(uri string) map[string]bool {
	m := map[string]bool{}
	for _, f := range s.sc.Flows {
		for _, g := range f.graphs() {
			for _, t := range g.Tasks {
				if t.Sub != "" && flowURI(t.Sub) == uri {
					m[t.ID] = true
				}
			}
		}
	}
	return m
}

func (s *recSvc) hosts(what string, v *fullView) {
	for id, h := range v.live().host {
		if !s.callers(v.subs[id].URI)[h] {
			s.badf("%s: subflow %d of %s was started by task %q, which doesn't call it", what, id, v.subs[id].URI, h)
		}
	}
}

// identity: the records tell who ran the flow where and when.
func (s *recSvc) identity(what string, r *recRun, fs *state.FlowState) {
	got := []string{fs.UserId, fs.AppName, fs.AppVersion, fs.HostId}
	want := []string{os.Getenv("FLOGO_APP_USERNAME"), os.Getenv("FLOGO_APP_NAME"), os.Getenv("FLOGO_APP_VERSION"), os.Getenv("FLOGO_HOST_NAME")}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		s.badf("the %s record of run %s is of %v, not of %v", what, fs.FlowInstanceId, got, want)
	}
	s.times(what+" record of run "+fs.FlowInstanceId, r, fs.StartTime, fs.EndTime)
	if !fs.StartTime.Equal(r.began) {
		s.badf("the %s record of run %s: the run started at %v, not at %v", what, fs.FlowInstanceId, fs.StartTime, r.began)
	}
}

func (s *recSvc) times(what string, r *recRun, from, to time.Time) {
	if from.Before(r.began) || to.Before(from) || to.After(time.Now()) || from.Before(s.since) {
		s.badf("the %s is from %v to %v, the run started at %v", what, from, to, r.began)
	}
}

func (s *recSvc) RecordStart(fs *state.FlowState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.run(fs.FlowInstanceId)
	r.seq = append(r.seq, "start")
	r.began = fs.StartTime
	s.identity("start", r, fs)
	r.start, _ = norm(map[string]interface{}{"in": fs.FlowInputs, "name": fs.FlowName, "rerunOf": fs.OriginalInstanceId}).(map[string]interface{})
	return s.res()
}

func (s *recSvc) RecordDone(fs *state.FlowState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.run(fs.FlowInstanceId)
	r.seq = append(r.seq, "done")
	s.identity("done", r, fs)
	r.done, _ = norm(map[string]interface{}{"out": fs.FlowOutputs, "name": fs.FlowName, "status": fs.FlowStats}).(map[string]interface{})
	r.last = r.real(s)
	return s.res()
}

func (s *recSvc) RecordSnapshot(sn *state.Snapshot) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.run(sn.Id)
	r.seq = append(r.seq, "snapshot")
	raw, err := json.Marshal(sn)
	if err != nil {
		s.badf("the snapshot cannot be stored: %v", err)
		return s.res()
	}
	r.snaps, r.sraws = append(r.snaps, sn), append(r.sraws, string(raw))
	if !s.snaps || s.mutate {
		return s.res()
	}
	v, _, err := snapView(raw)
	if err != nil {
		s.badf("the snapshot cannot be used: %v\n%s", err, raw)
		return s.res()
	}
	if real := r.real(s); real != nil {
		if d := diffFull(v, real, true, false); d != "" {
			s.badf("snapshot %d of %s: %s", len(r.snaps)-1, sn.Id, d)
		}
		s.stats["snapshots"]++
		s.stats["subflowstates"] += len(v.live().subs)
		s.hosts("snapshot", v)
		for id, x := range v.subs {
			// the end of a failing subflow is recorded with it
			if x.Status >= flowEnded && r.ended[id] {
				s.badf("snapshot %d of %s: subflow %d has ended (status %d) and was recorded so before", len(r.snaps)-1, sn.Id, id, x.Status)
			}
			if x.Status >= flowEnded {
				if r.ended == nil {
					r.ended = map[int]bool{}
				}
				r.ended[id] = true
			}
		}
	}
	return s.res()
}

func (s *recSvc) RecordStep(st *state.Step) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.run(st.FlowId)
	r.seq = append(r.seq, "step")
	raw, err := json.Marshal(st)
	if err != nil {
		s.badf("the step cannot be stored: %v", err)
		return s.res()
	}
	rep := &stepRep{}
	if err := json.Unmarshal(raw, rep); err != nil {
		s.badf("the step cannot be read: %v", err)
		return s.res()
	}
	r.steps, r.raws, r.reps = append(r.steps, st), append(r.raws, string(raw)), append(r.reps, rep)
	rec.mu.Lock()
	evs := rec.evs[imin(r.evN, len(rec.evs)):]
	r.evN = len(rec.evs)
	rec.mu.Unlock()
	if s.mutate {
		return s.res()
	}
	r.replay.apply(rep)
	real := r.real(s)
	s.times(fmt.Sprintf("step %d of run %s", rep.ID, st.FlowId), r, st.StartTime, st.EndTime)
	if s.steps {
		if n := r.first + len(r.reps) - 1; rep.ID != n {
			s.badf("step %d of run %s has the id %d", n, st.FlowId, rep.ID)
		}
		if rep.Rerun != s.rerun {
			s.badf("step %d of run %s: rerun is %v", rep.ID, st.FlowId, rep.Rerun)
		}
		if real != nil {
			if d := diffFull(r.replay, real, true, true); d != "" {
				s.badf("the steps up to %d of run %s: %s", rep.ID, st.FlowId, d)
			}
			s.stats["steps"]++
			s.stats["subflowstates"] += len(real.live().subs)
			s.stats["queued"] += len(real.queue)
			s.hosts("steps", r.replay)
		}
		if s.debug {
			s.debugStep(st.FlowId, rep, evs)
		}
	}
	if s.snaps && real != nil {
		n := len(r.steps)
		if n <= 40 || n <= 240 && n%8 == 0 || n%64 == 0 || real.main.Status >= flowEnded {
			s.rebuild(r, st.FlowId, n, real)
		}
	}
	r.last = real
	return s.res()
}

func (s *recSvc) rebuild(r *recRun, id string, n int, real *fullView) {
	sn := state.StepsToSnapshot(id, r.steps[:n])
	raw, err := json.Marshal(sn)
	if err != nil {
		s.badf("the rebuilt snapshot cannot be stored: %v", err)
		return
	}
	v, sid, err := snapView(raw)
	if err != nil {
		s.badf("the rebuilt snapshot cannot be used: %v\n%s", err, raw)
		return
	}
	if sid != id {
		s.badf("the snapshot rebuilt for %s has the id %s", id, sid)
	}
	if d := diffFull(v, real, true, true); d != "" {
		s.badf("snapshot rebuilt from %d steps of %s: %s", n, id, d)
	}
	s.hosts("rebuilt snapshot", v)
	for id, x := range v.subs {
		if x.Status >= flowEnded {
			s.badf("snapshot rebuilt from %d steps of %s: subflow %d has ended (status %d)", n, sid, id, x.Status)
		}
	}
	s.stats["rebuilt"]++
	s.stats["subflowstates"] += len(v.live().subs)
	if n%3 != 0 {
		return
	}
	// whoever gets the snapshot may do what he likes with it
	for _, b := range append([]*state.SnapshotBase{sn.SnapshotBase}, subBases(sn)...) {
		for k := range b.Attrs {
			b.Attrs[k] = "changed"
		}
		for _, t := range b.Tasks {
			t.Status = -1
		}
	}
	s.unaltered(r, id, "after rebuilding a snapshot")
}

func subBases(sn *state.Snapshot) []*state.SnapshotBase {
	var r []*state.SnapshotBase
	for _, x := range sn.Subflows {
		r = append(r, x.SnapshotBase)
	}
	return r
}

// unaltered checks that what was recorded earlier is still what it was.
func (s *recSvc) unaltered(r *recRun, id, when string) {
	for i, st := range r.steps {
		raw, err := json.Marshal(st)
		if err != nil || string(raw) != r.raws[i] {
			s.badf("step %d of run %s was altered %s: %s, it was recorded as %s", i, id, when, raw, r.raws[i])
			return
		}
	}
	for i, sn := range r.snaps {
		if len(r.snaps) > 120 && (i+len(r.snaps))%8 > 0 {
			continue
		}
		raw, err := json.Marshal(sn)
		if err != nil || js(sortLists(raw)) != js(sortLists([]byte(r.sraws[i]))) {
			s.badf("snapshot %d of run %s was altered %s: %s, it was recorded as %s", i, id, when, raw, r.sraws[i])
			return
		}
	}
}

func sortLists(raw []byte) interface{} {
	var m interface{}
	_ = json.Unmarshal(raw, &m)
	return m
}

// debugStep checks what the debugger mode adds.
func (s *recSvc) debugStep(id string, rep *stepRep, evs []Ev) {
	last := map[string]*Ev{}
	var keys []string
	for i := range evs {
		e := &evs[i]
		if e.K == "start" && runOf(e.Inst) == id {
			k := e.Inst + "|" + e.Task
			if last[k] == nil {
				keys = append(keys, k)
			}
			last[k] = e
		}
	}
	for _, k := range keys {
		e := last[k]
		sub := 0
		if i := strings.IndexByte(e.Inst, '-'); i >= 0 {
			sub, _ = strconv.Atoi(e.Inst[i+1:])
		}
		ch := rep.FlowChanges[sub]
		if ch == nil || ch.Tasks[e.Task] == nil {
			s.badf("step %d of run %s: task %s of %s was executed, but has no change", rep.ID, id, e.Task, e.Inst)
			continue
		}
		in := ch.Tasks[e.Task].Input
		if in == nil {
			in = map[string]interface{}{}
		}
		if !reflect.DeepEqual(norm(in), norm(e.In)) {
			s.badf("step %d of run %s: recorded inputs of task %s are %s, it had %s", rep.ID, id, e.Task, js(in), js(e.In))
		}
		s.stats["inputs"]++
	}
	for _, ch := range rep.FlowChanges {
		for l, lc := range ch.Links {
			if lc.Chg == chgDelete && lc.From == "" {
				continue
			}
			ok := false
			for _, f := range s.sc.Flows {
				for _, g := range f.graphs() {
					for _, x := range g.Links {
						ok = ok || x.From == lc.From && x.To == lc.To
					}
				}
			}
			if !ok {
				s.badf("step %d of run %s: link %d goes from %q to %q", rep.ID, id, l, lc.From, lc.To)
			}
			s.stats["linkends"]++
		}
	}
}

// recInit sets the engine up with the recorder service.
func recInit(settings map[string]interface{}) func() {
	return func() {
		setupEngine([]service.Service{rsvc}, settings)
		recHook()
	}
}

// recHook notes the instances the activities belong to.
func recHook() {
	probe.Hook = func(ctx activity.Context, a *probe.Act) (bool, error) {
		if inst, ok := ctx.ActivityHost().(*instance.Instance); ok {
			if m, ok := inst.GetMasterScope().(*instance.IndependentInstance); ok {
				rsvc.mu.Lock()
				if rsvc.insts != nil {
					rsvc.insts[m.ID()] = m
				}
				mut := rsvc.mutate
				rsvc.mu.Unlock()
				if mut {
					return mutHook(ctx, a)
				}
			}
		}
		return hook(ctx, a)
	}
}

type outCtx struct {
	activity.Context
}

func (o *outCtx) SetOutput(name string, v interface{}) error {
	rsvc.mu.Lock()
	rsvc.outs = append(rsvc.outs, v)
	rsvc.mu.Unlock()
	return o.Context.SetOutput(name, v)
}

// mutHook keeps what the activity gets and gives away, to change it later.
func mutHook(ctx activity.Context, a *probe.Act) (bool, error) {
	c := &probe.Capture{}
	if err := ctx.GetInputObject(c); err == nil {
		rsvc.mu.Lock()
		for _, v := range c.M {
			rsvc.outs = append(rsvc.outs, v)
		}
		rsvc.mu.Unlock()
	}
	return hook(&outCtx{ctx}, a)
}

func mutateVal(v interface{}, n int) int {
	k := 0
	switch x := v.(type) {
	case map[string]interface{}:
		for _, y := range x {
			k += mutateVal(y, n)
		}
		x["mut"] = n
		k++
	case []interface{}:
		for _, y := range x {
			k += mutateVal(y, n)
		}
		if len(x) > 0 {
			if _, ok := x[0].(map[string]interface{}); !ok {
				x[0] = n
				k++
			}
		}
	}
	return k
}

var recMode state.RecordingMode

func recOpt(c *Case, det bool) genOpt {
	o := mixOpt(c)
	o.BigMax = 40
	o.MaxT = imin(o.MaxT, 10)
	o.PSleep = 0
	o.PEmpty = oneOf(c, 0, 0.1)
	o.PPost = oneOf(c, 0, 0.3)
	o.PSub, o.Depth, o.SubFail = oneOf(c, 0, 0.2, 0.4), 1+c.R.Intn(3), 0.3
	o.PSet = oneOf(c, 0.1, 0.4)
	if !det {
		o.PDet = 0
	}
	if c.R.Intn(3) == 0 {
		o.PErr, o.PEH, o.PErrLink = 0.3, 0.8, 0.5
		o.EHMax = 6
	}
	return o
}

func recDrain(c *Case) {
	rsvc.mu.Lock()
	defer rsvc.mu.Unlock()
	c.Bad = append(c.Bad, rsvc.bad...)
	for k, v := range rsvc.stats {
		c.stat(k, v)
	}
	c.stat("failedcalls", rsvc.failed)
	rsvc.bad, rsvc.stats = nil, map[string]int{}
}

func recDetail(c *Case, sc *Scenario, evs []Ev) {
	type rr struct {
		Seq   []string               `json:"seq"`
		Steps []rawJSON              `json:"steps"`
		Snaps []rawJSON              `json:"snapshots"`
		Start map[string]interface{} `json:"start"`
		Done  map[string]interface{} `json:"done"`
	}
	m := map[string]*rr{}
	for id, r := range rsvc.runs {
		x := &rr{Seq: r.seq, Start: r.start, Done: r.done}
		for _, b := range r.raws {
			x.Steps = append(x.Steps, rawJSON(b))
		}
		for _, b := range r.sraws {
			x.Snaps = append(x.Snaps, rawJSON(b))
		}
		m[id] = x
	}
	c.Detail = map[string]interface{}{"scenario": sc, "flow": flowJSONs(sc), "recorded": m, "events": evs, "pretty": pretty(sc, evs)}
}

var statNames = map[model.FlowStatus]string{model.FlowStatusNotStarted: "Created", model.FlowStatusActive: "Started", model.FlowStatusCompleted: "Completed", model.FlowStatusCancelled: "Cancelled", model.FlowStatusFailed: "Failed"}

// recDirect drives an instance step by step, as the action does.
func recDirect(c *Case, sc *Scenario, id string) bool {
	d := saveDef(c, sc.Flows[0].Name)
	if d == nil {
		return false
	}
	inst, err := d.mk(id)
	if err != nil {
		c.badf("instance refused: %v", err)
		return false
	}
	inst.SetInstanceRecorder(instance.NewStateInstanceRecorder(rsvc, recMode, rsvc.rerun))
	rsvc.insts[id] = inst
	h := newHandler(id)
	inst.SetResultHandler(h)
	in := map[string]interface{}{}
	for k, v := range sc.Inputs {
		in[k] = v
	}
	inst.Start(in)
	_ = inst.RecordState(time.Now().UTC())
	mut := func(n int) {
		if rsvc.mutate {
			for _, v := range rsvc.outs {
				c.stat("mutated", mutateVal(v, n))
			}
		}
	}
	for n := 0; inst.Status() == model.FlowStatusActive; n++ {
		if n > 5000 {
			c.badf("the run does not end")
			return false
		}
		mut(n)
		more := inst.DoStep()
		_ = inst.RecordState(time.Now().UTC())
		if !more {
			break
		}
	}
	mut(-1)
	finishRun(inst, h)
	return true
}

func recCase(c *Case, steps, snaps bool) {
	direct := c.R.Intn(3) > 0
	sc := newGen(c.Seed, fmt.Sprintf("rec%s%d", c.Arg, c.Idx), recOpt(c, !direct)).scenario()
	if !loadScenario(c, sc) {
		return
	}
	id := fmt.Sprintf("r%d", c.Idx)
	rsvc.reset(sc)
	rsvc.steps, rsvc.snaps, rsvc.debug = steps, snaps, recMode == state.RecordingModeDebugger
	rsvc.seed = uint64(c.R.Int63())
	if c.R.Intn(3) == 0 {
		rsvc.failP = uint64([]int{20, 128, 256}[c.R.Intn(3)])
	}
	rsvc.rerun = c.R.Intn(8) == 0
	rec.reset()
	if direct {
		rsvc.mutate = c.R.Intn(4) == 0
		if !recDirect(c, sc, id) {
			return
		}
	} else {
		act, err := newAction(sc.Flows[0].Name)
		if err != nil {
			c.badf("action refused: %v", err)
			return
		}
		h, err := startRun(act, sc.Inputs, runOpts{id: id, rerun: rsvc.rerun})
		if err != nil {
			c.badf("run refused: %v", err)
			return
		}
		if !h.wait(hangTimeout) {
			c.Hang = true
			c.badf("the run did not end")
			return
		}
	}
	quietDown()
	evs := rec.take()
	c.Sig = hashOf(shape(sc, evs, id))
	c.stat("events", len(evs))
	recDetail(c, sc, evs)
	for _, rid := range rsvc.ids {
		r := rsvc.runs[rid]
		rsvc.unaltered(r, rid, "by the later execution")
	}
	if rsvc.mutate {
		c.stat("mutatedruns", 1)
	} else {
		o, bad := explain(saveOracle(sc, id), evs)
		_ = o
		c.Bad = append(c.Bad, bad...)
	}
	recDrain(c)
	if steps {
		recRuns(c, sc, sc.Inputs, id, evs, direct)
	}
	r := rsvc.runs[id]
	if r != nil && (len(r.steps) > 3 || len(r.snaps) > 3) {
		c.NonTriv = true
	}
	if c.Idx < 2 && r != nil && c.Sample == nil {
		c.Sample = map[string]interface{}{"flow": rawJSON(sc.Flows[0].JSON()), "seq": r.seq}
	}
}

// recRuns checks the records of the runs as a whole.
func recRuns(c *Case, sc *Scenario, inputs map[string]interface{}, id string, evs []Ev, direct bool) {
	var last *Ev
	for i := range evs {
		if evs[i].K == "result" && evs[i].Run == id {
			last = &evs[i]
		}
	}
	if rsvc.runs[id] == nil && (!direct || state.RecordSteps(recMode) || state.RecordSnapshot(recMode)) {
		c.badf("nothing was recorded for run %s", id)
		return
	}
	seen := map[string]bool{id: true}
	for i := range evs {
		if evs[i].Inst != "" {
			seen[runOf(evs[i].Inst)] = true
		}
	}
	for _, rid := range rsvc.ids {
		r := rsvc.runs[rid]
		n := map[string]int{}
		for i, k := range r.seq {
			n[k]++
			if !direct && (k == "start") != (i == 0) || !direct && (k == "done") != (i == len(r.seq)-1) {
				c.badf("run %s was recorded as %v", rid, r.seq)
				return
			}
		}
		if n["step"] > 0 && !state.RecordSteps(recMode) || n["snapshot"] > 0 && !state.RecordSnapshot(recMode) {
			c.badf("run %s was recorded as %v in mode %s", rid, r.seq, recMode)
		}
		if !direct {
			c.stat("runs", 1)
			f := (*Flow)(nil)
			for _, x := range sc.Flows {
				if x.Name == r.start["name"] {
					f = x
				}
			}
			if f == nil || r.done["name"] != r.start["name"] {
				c.badf("run %s: start record for flow %v, done record for flow %v", rid, r.start["name"], r.done["name"])
			}
		}
		if state.RecordSteps(recMode) && !rsvc.mutate {
			if n["step"] == 0 {
				c.badf("run %s: no steps were recorded", rid)
				continue
			}
			if !direct && statNames[model.FlowStatus(r.replay.main.Status)] != r.done["status"] {
				c.badf("run %s ended as %v, its steps end with status %d", rid, r.done["status"], r.replay.main.Status)
			}
		}
		if !direct && r.last != nil && statNames[model.FlowStatus(r.last.main.Status)] != r.done["status"] {
			c.badf("run %s was recorded as %v, it ended with status %d", rid, r.done["status"], r.last.main.Status)
		}
		if rid != id {
			c.stat("detached", 1)
			continue
		}
		if !direct {
			in, _ := norm(inputs).(map[string]interface{})
			if got, _ := r.start["in"].(map[string]interface{}); js(got) != js(in) && !(len(got) == 0 && len(in) == 0) {
				c.badf("the start record has the inputs %s, the run was started with %s", js(got), js(in))
			}
			if r.done["status"] == "Completed" && last != nil {
				got, _ := r.done["out"].(map[string]interface{})
				if js(got) != js(last.Data) && !(len(got) == 0 && len(last.Data) == 0) {
					c.badf("the done record has the outputs %s, the result was %s", js(got), js(last.Data))
				}
				c.stat("outputs", 1)
			}
			if r.done["status"] == "Failed" && (last == nil || last.Err == nil) || r.done["status"] != "Failed" && r.done["status"] != "Completed" && last != nil && last.Err != nil {
				c.badf("the done record has the status %v, the last result was %s", r.done["status"], js(last))
			}
		}
		if rsvc.debug && !rsvc.mutate && len(r.reps) > 0 && last != nil {
			// the data returned by the flow
			for _, rep := range r.reps {
				if ch := rep.FlowChanges[0]; ch != nil && ch.Status == int(model.FlowStatusCompleted) {
					if js(ch.Ret) != js(last.Data) && !(len(ch.Ret) == 0 && len(last.Data) == 0) {
						c.badf("the last step has the return data %s, the result was %s", js(ch.Ret), js(last.Data))
					}
					c.stat("returndata", 1)
				}
			}
		}
	}
}

// recAgain continues runs from saved states with recording on.
func recAgain(c *Case) {
	sc := newGen(c.Seed, fmt.Sprintf("recs%s%d", c.Arg, c.Idx), saveOpt(c)).scenario()
	if !loadScenario(c, sc) {
		return
	}
	id := fmt.Sprintf("r%d", c.Idx)
	rsvc.reset(sc)
	rsvc.steps, rsvc.snaps, rsvc.debug = true, false, recMode == state.RecordingModeDebugger
	points, ok := stepRun(c, sc, id, nil)
	evs := rec.take()
	if !ok {
		return
	}
	act, err := newAction(sc.Flows[0].Name)
	if err != nil {
		c.badf("action refused: %v", err)
		return
	}
	for k := 0; k < 3 && len(c.Bad) == 0; k++ {
		p := points[c.R.Intn(len(points))]
		if !p.plain {
			continue
		}
		inst := reload(c, p)
		if inst == nil {
			return
		}
		base, err := realView(p.raw)
		if err != nil {
			c.badf("%v", err)
			return
		}
		rsvc.reset(sc)
		rsvc.rerun = c.R.Intn(2) == 0
		ro := &instance.RunOptions{Op: instance.OpRestart, PreservedInstanceId: id, Rerun: rsvc.rerun, OriginalInstanceId: "orig"}
		first := 0
		switch c.R.Intn(3) {
		case 0:
			ro.InitStepId = p.step + 1
			first = ro.InitStepId
			for _, t := range base.queue[:imin(1, len(base.queue))] {
				base.main.Tasks[t.Task] = int(model.TaskStatusReady)
			}
		case 1:
			ro.Op = instance.OpResume
		}
		var upd map[string]interface{}
		for k, v := range sc.Inputs {
			if x, ok := bump(v); ok && k != "t" && k != "p" && k != "e" && c.R.Intn(4) == 0 {
				if upd == nil {
					upd = map[string]interface{}{}
				}
				upd[k] = x
				base.main.Attrs[k] = norm(x)
			}
		}
		rsvc.base[id] = base
		rsvc.insts[id] = inst
		rsvc.run(id).first = first
		rec.restoreAt(p)
		h, err, pan := runState(act, inst, ro, upd, id)
		if err != nil || pan != nil {
			c.badf("restart refused: %v %v", err, pan)
			return
		}
		if !h.wait(hangTimeout) {
			c.Hang = true
			c.badf("the restarted run did not end")
			return
		}
		quietDown()
		suffix := rec.take()
		recDetail(c, sc, append(append([]Ev{}, evs[:p.n]...), suffix...))
		rsvc.unaltered(rsvc.runs[id], id, "by the later execution")
		recDrain(c)
		recRuns(c, sc, upd, id, suffix, false)
		if got := rsvc.runs[id].start["rerunOf"]; got != "orig" {
			c.badf("the start record of the restarted run names %v as the original run", got)
		}
		c.stat("restarted", 1)
		if upd != nil {
			c.stat("updated", 1)
		}
		if p.n > 0 && p.n < len(evs) {
			c.NonTriv = true
		}
		c.Sig = hashOf(shape(sc, evs, id))
	}
}

var recBadMode []string

func init() {
	modes := map[string]state.RecordingMode{"off": state.RecordingModeOff, "step": state.RecordingModeStep, "full": state.RecordingModeFull, "debugger": state.RecordingModeDebugger, "snapshot": state.RecordingModeSnapshot}
	for n, m := range modes {
		m := m
		for _, w := range []string{n, strings.ToUpper(n[:1]) + n[1:]} {
			w := w
			inits["rec-"+w] = func() {
				recMode = m
				recInit(map[string]interface{}{"stateRecordingMode": w})()
			}
		}
	}
	legacy := map[string]struct {
		s map[string]interface{}
		m state.RecordingMode
	}{
		"rec-lstep": {map[string]interface{}{"stepRecordingMode": "full"}, state.RecordingModeStep},
		"rec-lsnap": {map[string]interface{}{"snapshotRecordingMode": "Full", "stepRecordingMode": "off"}, state.RecordingModeSnapshot},
		"rec-lfull": {map[string]interface{}{"stepRecordingMode": "FULL", "snapshotRecordingMode": "full"}, state.RecordingModeFull},
		"rec-loff":  {map[string]interface{}{"something": "else"}, state.RecordingModeOff},
		"rec-none":  {nil, state.RecordingModeOff},
		"rec-both":  {map[string]interface{}{"stateRecordingMode": "off", "stepRecordingMode": "full", "snapshotRecordingMode": "full"}, state.RecordingModeOff},
	}
	for n, l := range legacy {
		l := l
		inits[n] = func() {
			recMode = l.m
			recInit(l.s)()
		}
	}
	inits["rec-bad"] = func() {
		// the action refuses settings it doesn't understand
		resMgr = resource.NewManager(nil)
		sm := service.NewServiceManager()
		_ = sm.RegisterService(rsvc)
		for _, m := range []interface{}{"steps", "", "on", "full ", 5, "snap"} {
			ctx := &initCtx{sm: sm, rs: map[string]interface{}{"stateRecordingMode": m}}
			if err := (&flow.ActionFactory{}).Initialize(ctx); err == nil {
				recBadMode = append(recBadMode, fmt.Sprintf("flow action: recording mode %q was accepted", m))
			}
			if err := (&ondemand.ActionFactory{}).Initialize(ctx); err == nil {
				recBadMode = append(recBadMode, fmt.Sprintf("on-demand action: recording mode %q was accepted", m))
			}
		}
		inits["rec-step"]()
	}
	families["rec"] = func(c *Case) {
		if len(recBadMode) > 0 {
			c.badf("%s", strings.Join(recBadMode, "; "))
		}
		recCase(c, true, false)
	}
	families["snap"] = func(c *Case) { recCase(c, false, true) }
	families["recagain"] = recAgain
	families["reclimit"] = func(c *Case) {
		// runs stopped by the step limit
		g := &limGen{c: c}
		f, _, _ := g.flow(1+c.R.Intn(limit()+4), 2, false)
		_ = f
		for i := range g.flows {
			g.flows[i].index()
		}
		sc := &Scenario{Flows: g.flows, Inputs: map[string]interface{}{"t": "", "p": ""}}
		id := "lim"
		rsvc.reset(sc)
		rsvc.steps, rsvc.debug = true, recMode == state.RecordingModeDebugger
		out := runScenario(c, sc, runOpts{id: id}, func(o *oracle) { o.limit, o.noPrio = true, true })
		if out == nil || out.hang {
			return
		}
		recDetail(c, sc, out.evs)
		recDrain(c)
		recRuns(c, sc, sc.Inputs, id, out.evs, false)
		if r := rsvc.runs[id]; r != nil && r.done["status"] == "Failed" {
			c.stat("limited", 1)
			c.NonTriv = true
		}
	}
	props["C14"] = &PropDef{ID: "C14", Rule: "random flows executed with a recorder service that replays every recorded step and compares the result with the state the instance has at that moment; non-trivial with more than three steps, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			b := []Batch{
				{Fam: "rec", Arg: "s", Init: "rec-step", N: size(q, 2500, 60000)},
				{Fam: "rec", Arg: "d", Init: "rec-debugger", N: size(q, 2000, 50000)},
				{Fam: "rec", Arg: "f", Init: "rec-full", N: size(q, 1200, 30000)},
				{Fam: "recagain", Arg: "a", Init: "rec-step", N: size(q, 1000, 20000)},
				{Fam: "recagain", Arg: "b", Init: "rec-debugger", N: size(q, 400, 10000)},
				{Fam: "rec", Arg: "p", Init: "rec-Step", N: size(q, 300, 8000), Env: []string{"FLOGO_TASK_PRIORITIZE_EXPR_LINK=true", "FLOGO_LOG_CTX=true", "FLOGO_FLOW_SM_ENDPOINT=http://127.0.0.1:1"}},
				{Fam: "rec", Arg: "b", Init: "rec-bad", N: size(q, 40, 400)},
			}
			for i, m := range []string{"rec-Snapshot", "rec-off", "rec-Debugger", "rec-Full", "rec-lstep", "rec-lsnap", "rec-lfull", "rec-loff", "rec-none", "rec-both"} {
				b = append(b, Batch{Fam: "rec", Arg: fmt.Sprintf("m%d", i), Init: m, N: size(q, 150, 2500)})
			}
			for _, l := range []string{"1", "2", "5", "12"} {
				b = append(b, Batch{Fam: "reclimit", Arg: l, Init: "rec-step", N: size(q, 150, 3000), Env: []string{"FLOGO_MAX_STEP_COUNT=" + l}})
			}
			return b
		}}
	props["C15"] = &PropDef{ID: "C15", Rule: "random flows executed with a recorder service that compares every recorded snapshot, and the snapshot rebuilt from every prefix of the recorded steps, with the state the instance has at that moment; non-trivial with more than three records, distinct by flow structure and event order",
		Batches: func(q bool) []Batch {
			return []Batch{
				{Fam: "snap", Arg: "f", Init: "rec-full", N: size(q, 2200, 70000)},
				{Fam: "snap", Arg: "s", Init: "rec-step", N: size(q, 2500, 60000)},
				{Fam: "snap", Arg: "d", Init: "rec-debugger", N: size(q, 1500, 30000)},
				{Fam: "snap", Arg: "n", Init: "rec-snapshot", N: size(q, 1500, 30000)},
				{Fam: "snap", Arg: "p", Init: "rec-Full", N: size(q, 500, 8000), Env: []string{"FLOGO_TASK_PRIORITIZE_EXPR_LINK=true"}},
				{Fam: "snap", Arg: "l", Init: "rec-lfull", N: size(q, 500, 8000)},
			}
		}}
}
