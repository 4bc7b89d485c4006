package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/tester"
)

// The test service, driven over HTTP.

// gate holds the activities that reach it.
type gate struct {
	open chan struct{}
	in   chan struct{}
}

var gates sync.Map

func newGate() *gate { return &gate{open: make(chan struct{}), in: make(chan struct{}, 1000)} }

func (g *gate) pass() {
	g.in <- struct{}{}
	select {
	case <-g.open:
	case <-time.After(2 * hangTimeout):
	}
}

type httpReq struct {
	kind   string // start restart resume bad
	what   string // of a bad request
	method string
	path   string
	body   []byte
	sc     *Scenario
	in     map[string]interface{}
	plan   *mockPlan
	point  *savePoint
	prefix []Ev
	old    string // id of the saved run
	upd    map[string]interface{}

	code int
	resp []byte
	err  error
	id   string
}

type httpEnv struct {
	c    *Case
	svc  service.Service
	base string
}

func freePort() (int, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

// newService starts the test service on some port that is free.
func newService(c *Case) *httpEnv {
	for try := 0; try < 50; try++ {
		port, err := freePort()
		if err != nil {
			panic(err)
		}
		var p interface{} = port
		switch c.R.Intn(3) {
		case 0:
			p = fmt.Sprint(port)
		case 1:
			p = float64(port)
		}
		svc, err := (&tester.FlowTesterFactory{}).NewService(&service.Config{Settings: map[string]interface{}{"port": p}})
		if err != nil {
			c.badf("service with port %T(%v) refused: %v", p, p, err)
			return nil
		}
		if c.R.Intn(4) == 0 && svc.Stop() == nil {
			c.badf("stopping a service that was not started is no error")
			return nil
		}
		if err = svc.Start(); err != nil {
			if errors.Is(err, syscall.EADDRINUSE) {
				continue
			}
			c.badf("service does not start: %v", err)
			return nil
		}
		return &httpEnv{c: c, svc: svc, base: fmt.Sprintf("http://127.0.0.1:%d", port)}
	}
	panic("no free port")
}

func newClient() *http.Client {
	return &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4}, Timeout: 2 * hangTimeout}
}

func (e *httpEnv) do(cl *http.Client, r *httpReq) {
	q, err := http.NewRequest(r.method, e.base+r.path, bytes.NewReader(r.body))
	if err != nil {
		r.err = err
		return
	}
	q.Header.Set("Content-Type", "application/json")
	res, err := cl.Do(q)
	if err != nil {
		r.err = err
		return
	}
	defer res.Body.Close()
	r.code = res.StatusCode
	if r.resp, r.err = io.ReadAll(res.Body); r.err != nil {
		return
	}
	var m map[string]interface{}
	if r.code == 200 && json.Unmarshal(r.resp, &m) == nil {
		r.id, _ = m["id"].(string)
	}
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// startReq asks for a run of sc.
func startReq(c *Case, sc *Scenario, tag string) *httpReq {
	r := &httpReq{kind: "start", method: "POST", path: "/flow/start", sc: sc, in: map[string]interface{}{}}
	for _, k := range sortedKeys(sc.Inputs) {
		v := sc.Inputs[k]
		if k == "t" || k == "p" {
			r.in[k] = v
		} else {
			r.in[k] = vary(c.R, v, tag)
		}
	}
	m := M{"flowUri": flowURI(sc.Flows[0].Name)}
	switch c.R.Intn(4) {
	case 0:
		m["attrs"] = r.in
	case 1:
		m["data"], m["attrs"] = r.in, M{}
	default:
		m["data"] = r.in
	}
	if len(r.in) == 0 && c.R.Intn(2) == 0 {
		delete(m, "data")
		delete(m, "attrs")
	}
	switch c.R.Intn(8) {
	case 0:
		m["interceptor"], m["patch"] = nil, nil
	case 1:
		m["interceptor"] = M{"tasks": []interface{}{nil}}
	case 2:
		m["patch"] = []interface{}{M{}, M{"tasks": nil}, M{"tasks": []interface{}{nil}}, M{"tasks": []interface{}{M{"id": "nope"}, nil}}}[c.R.Intn(4)]
	case 3:
		g := newGen(c.R.Int63(), "", genOpt{})
		g.flows = sc.Flows
		r.plan = g.plan(sc, 0.3, 0.1)
		g.fill(r.plan, []interface{}{0, 1, true, "x", ""})
		m["interceptor"] = r.plan.interceptor()
	}
	if c.R.Intn(6) == 0 {
		m["replyTo"], m["other"] = "http://nobody", 5
	}
	r.body = mustJSON(m)
	return r
}

// badReq is a request that has to be refused.
// laterPlan chooses interceptors for what a saved run has not come to yet.
func laterPlan(c *Case, s *httpReq) *mockPlan {
	old := map[string]bool{}
	for _, e := range s.prefix {
		old[e.Task] = true
	}
	for _, t := range s.point.doc.Tasks {
		old[t.ID] = true
	}
	g := newGen(c.R.Int63(), "", genOpt{})
	g.flows = s.sc.Flows
	p := g.plan(s.sc, 0.4, 0)
	l := p.Tasks
	p.Tasks = nil
	for _, t := range l {
		if !old[t.Task] {
			p.Tasks = append(p.Tasks, t)
		}
	}
	c.stat("laterplans", len(p.Tasks))
	return p
}

func badReq(c *Case, scs []*Scenario, states []*httpReq) *httpReq {
	r := &httpReq{kind: "bad", method: "POST", path: "/flow/start"}
	uri := func() interface{} {
		n := scs[0].Flows[0].Name
		return []interface{}{"res://flow:" + n + "nope", "res://flow:", "res://", "flow:" + n, n, "bogus", "", nil, "file:///nonexistent/" + n + ".json", "://", "res://nope:" + n}[c.R.Intn(11)]
	}
	op := []string{"start", "restart", "resume"}[c.R.Intn(3)]
	key := map[string]string{"restart": "initialState", "resume": "state"}[op]
	r.path = "/flow/" + op
	ok := func() M {
		if op == "start" {
			return M{"flowUri": flowURI(scs[0].Flows[0].Name), "data": scs[0].Inputs}
		}
		for _, s := range states {
			return M{key: json.RawMessage(s.point.raw), "data": M{}}
		}
		return M{key: M{"id": "x", "status": 100, "flowUri": flowURI(scs[0].Flows[0].Name), "attrs": M{}, "workQueue": []int{}, "tasks": []int{}, "links": []int{}}}
	}
	switch k := c.R.Intn(10); {
	case k == 0:
		r.what = "not an object"
		r.body = []byte([]string{"", "{", "[]", "5", "\"x\"", "nul", "null", "{}", "{\"", "<a/>", "\x00", "{\"flowUri\":}", "true"}[c.R.Intn(13)])
	case k == 1:
		r.what = "cut off"
		b := mustJSON(ok())
		r.body = b[:c.R.Intn(len(b))]
	case k == 2:
		m := ok()
		f := []string{"data", "interceptor", "patch"}[c.R.Intn(3)]
		if c.R.Intn(2) == 0 {
			f = key
		}
		if f == "" {
			f = []string{"flowUri", "attrs"}[c.R.Intn(2)]
		}
		m[f] = []interface{}{5, true, []int{1}, 1.5}[c.R.Intn(4)]
		r.what, r.body = "wrong type of "+f, mustJSON(m)
	case k == 3:
		m := ok()
		m["interceptor"] = []interface{}{M{"tasks": 5}, M{"tasks": []int{1}}, M{"tasks": M{}}, M{"tasks": []M{{"id": 5}}}, M{"tasks": []M{{"id": "t0", "outputs": 5}}}}[c.R.Intn(5)]
		r.what, r.body = "malformed interceptor", mustJSON(m)
	case k == 4:
		r.what = "wrong method"
		r.method = []string{"GET", "PUT", "DELETE", "HEAD"}[c.R.Intn(4)]
		r.body = mustJSON(ok())
	case k == 5:
		r.what = "wrong path"
		r.path = []string{"/flow", "/", "/flow/start/x", "/flow/stop", "/flow/startx"}[c.R.Intn(5)]
		r.body = mustJSON(ok())
	case op == "start":
		r.what = "unknown flow"
		m := ok()
		m["flowUri"] = uri()
		if c.R.Intn(5) == 0 {
			delete(m, "flowUri")
		}
		r.body = mustJSON(m)
	default:
		m := ok()
		var st map[string]interface{}
		_ = json.Unmarshal(mustJSON(m[key]), &st)
		switch c.R.Intn(6) {
		case 0:
			r.what = "no state"
			delete(m, key)
		case 1:
			r.what = "null state"
			m[key] = nil
		case 2:
			r.what = "state of an unknown flow"
			st["flowUri"] = uri()
			m[key] = st
		case 3:
			r.what = "empty state"
			m[key] = M{}
		case 4:
			f := []string{"tasks", "links", "workQueue", "attrs", "status"}[c.R.Intn(5)]
			r.what = "state with wrong type of " + f
			st[f] = true
			m[key] = st
		case 5:
			f := []string{"tasks", "links", "workQueue"}[c.R.Intn(3)]
			r.what = "state with a null in " + f
			l, _ := st[f].([]interface{})
			st[f] = append(l, nil)
			m[key] = st
		}
		r.what += " (" + op + ")"
		r.body = mustJSON(m)
	}
	return r
}

// renameRun replaces the id of a run wherever it occurs.
func renameRun(evs []Ev, from, to string) []Ev {
	if from == to {
		return evs
	}
	var r []Ev
	for _, e := range evs {
		b := bytes.ReplaceAll(mustJSON(e), []byte(from), []byte(to))
		var x Ev
		_ = json.Unmarshal(b, &x)
		r = append(r, x)
	}
	return r
}

func httpOpt(c *Case) genOpt {
	o := mixOpt(c)
	o.BigMax = 40
	o.MaxT = imin(o.MaxT, 7)
	o.Data = 1 + c.R.Intn(3)
	o.PDet, o.PReply = 0, 0
	return o
}

var httpIDs = map[string]bool{}

func httpCase(c *Case) {
	pre := fmt.Sprintf("http%s%d", c.Arg, c.Idx)
	var scs []*Scenario
	for k := 0; k < 1+c.R.Intn(2); k++ {
		scs = append(scs, newGen(c.R.Int63(), fmt.Sprintf("%ss%d", pre, k), httpOpt(c)).scenario())
	}
	var states []*httpReq
	for k := 0; k < c.R.Intn(3); k++ {
		o := saveOpt(c)
		o.PSub, o.PIter, o.PDoW, o.PRetry = 0, 0, 0, 0
		o.MaxT = 6
		sc := newGen(c.R.Int63(), fmt.Sprintf("%sr%d", pre, k), o).scenario()
		if !loadScenario(c, sc) {
			return
		}
		id := fmt.Sprintf("saved%s%dx%d", c.Arg, c.Idx, k)
		points, ok := stepRun(c, sc, id, nil)
		evs := rec.take()
		if !ok {
			return
		}
		var plain []*savePoint
		for _, p := range points {
			if p.plain {
				plain = append(plain, p)
			}
		}
		if len(plain) == 0 {
			continue
		}
		p := plain[c.R.Intn(len(plain))]
		states = append(states, &httpReq{sc: sc, point: p, prefix: evs[:p.n], old: id})
	}
	g := newGate()
	gname := "gate" + pre
	gates.Store(gname, g)
	defer gates.Delete(gname)
	gsc := newGen(c.R.Int63(), pre+"g", genOpt{MinT: 1, MaxT: 4, Data: 1, NoNil: true}).scenario()
	gsc.Flows[0].Main.Tasks[0].Scripts = map[string][]Out{"": {{K: "ok", Gate: gname}}}
	gsc.Flows[0].index()
	for _, sc := range append(append([]*Scenario{}, scs...), gsc) {
		if !loadScenario(c, sc) {
			return
		}
	}
	takeLev()
	rec.reset()
	e := newService(c)
	if e == nil {
		return
	}
	var all []*httpReq
	var clients []*http.Client
	stopped := false
	defer func() {
		select {
		case <-g.open:
		default:
			close(g.open)
		}
		if !stopped {
			_ = e.svc.Stop()
		}
		for _, cl := range clients {
			cl.CloseIdleConnections()
		}
		quietDown()
	}()
	tag := 0
	pick := func() *httpReq {
		tag++
		switch k := c.R.Intn(10); {
		case k < 3:
			return badReq(c, scs, states)
		case k < 5 && len(states) > 0:
			s := states[c.R.Intn(len(states))]
			r := &httpReq{kind: "restart", method: "POST", path: "/flow/restart", sc: s.sc, point: s.point, prefix: s.prefix, old: s.old}
			m := M{"initialState": json.RawMessage(s.point.raw)}
			if c.R.Intn(3) == 0 {
				r.kind, r.path = "resume", "/flow/resume"
				m = M{"state": json.RawMessage(s.point.raw)}
				// a run can be resumed only once at a time
				for i, x := range states {
					if x == s {
						states = append(append([]*httpReq{}, states[:i]...), states[i+1:]...)
						break
					}
				}
			}
			if c.R.Intn(3) == 0 {
				for _, k := range sortedKeys(s.sc.Inputs) {
					if x, ok := bump(s.sc.Inputs[k]); ok && k != "t" && k != "p" && k != "e" {
						if r.upd == nil {
							r.upd = M{}
						}
						r.upd[k] = x
					}
				}
				m["data"] = r.upd
			}
			if c.R.Intn(3) == 0 {
				r.plan = laterPlan(c, s)
				m["interceptor"] = r.plan.interceptor()
			}
			if c.R.Intn(3) == 0 {
				m["patch"] = M{"tasks": []interface{}{M{"id": "nope", "input": M{"a": 1}}, nil}}
			}
			r.body = mustJSON(m)
			return r
		case k == 9 && c.R.Intn(3) == 0:
			return &httpReq{kind: "status", method: "GET", path: "/status"}
		case k == 9 && c.R.Intn(3) == 0:
			return &httpReq{kind: "options", method: "OPTIONS", path: []string{"/flow/start", "/flow/restart", "/flow/resume", "/status"}[c.R.Intn(4)]}
		}
		return startReq(c, scs[c.R.Intn(len(scs))], fmt.Sprintf("%s.%d", pre, tag))
	}
	for k := 0; k < 1+c.R.Intn(6); k++ {
		clients = append(clients, newClient())
	}
	// clients run their requests one after the other
	var order int32
	perClient := func(n int, begin chan struct{}, wg *sync.WaitGroup) []*httpReq {
		var rs []*httpReq
		for _, cl := range clients {
			var mine []*httpReq
			for k := 0; k < n; k++ {
				mine = append(mine, pick())
			}
			rs = append(rs, mine...)
			wg.Add(1)
			go func(cl *http.Client) {
				defer wg.Done()
				<-begin
				for _, r := range mine {
					e.do(cl, r)
					atomic.AddInt32(&order, 1)
				}
			}(cl)
		}
		all = append(all, rs...)
		return rs
	}
	detail := func(r *httpReq, evs []Ev) {
		if c.Detail == nil {
			m := M{"what": r.kind + " " + r.what, "method": r.method, "path": r.path, "body": string(r.body), "status": r.code, "response": string(r.resp), "events": evs}
			if r.sc != nil {
				m["flow"], m["scenario"] = flowJSONs(r.sc), &Scenario{Flows: r.sc.Flows, Inputs: r.in}
			}
			c.Detail = m
		}
	}
	if c.R.Intn(3) == 0 && e.svc.Start() == nil {
		c.badf("starting a started service is no error")
		return
	}
	jit := c.R.Intn(2) == 0
	if jit {
		atomic.StoreInt32(&jitter, 1)
		defer atomic.StoreInt32(&jitter, 0)
	}
	begin := make(chan struct{})
	var wg sync.WaitGroup
	ra := perClient(1+c.R.Intn(4), begin, &wg)
	close(begin)
	wg.Wait()
	for _, r := range ra {
		if r.err != nil {
			c.badf("%s request (%s) got no answer: %v", r.kind, r.what, r.err)
			detail(r, nil)
			return
		}
	}
	if c.R.Intn(3) == 0 && e.svc.Start() == nil {
		c.badf("starting a started service is no error")
		return
	}
	st := &httpReq{kind: "status", method: "GET", path: "/status"}
	e.do(clients[0], st)
	all = append(all, st)
	if st.err != nil {
		c.badf("the service does not work any more: %v", st.err)
		return
	}
	// stop it while some requests are in progress
	var held []*httpReq
	var hwg sync.WaitGroup
	for k := c.R.Intn(4); k > 0; k-- {
		cl := newClient()
		clients = append(clients, cl)
		r := startReq(c, gsc, fmt.Sprintf("%s.g%d", pre, k))
		r.plan = nil
		r.body = mustJSON(M{"flowUri": flowURI(gsc.Flows[0].Name), "data": r.in})
		held = append(held, r)
		hwg.Add(1)
		go func() {
			defer hwg.Done()
			e.do(cl, r)
		}()
	}
	all = append(all, held...)
	for range held {
		select {
		case <-g.in:
		case <-time.After(hangTimeout):
			c.badf("the run of an accepted request did not start")
			c.Hang = true
			return
		}
	}
	begin = make(chan struct{})
	var conc []*httpReq
	if c.R.Intn(2) == 0 {
		conc = perClient(1+c.R.Intn(2), begin, &wg)
	}
	sres := make(chan error, 1)
	go func() {
		<-begin
		if jit {
			yield()
		}
		sres <- e.svc.Stop()
	}()
	close(begin)
	var serr error
	select {
	case serr = <-sres:
		stopped = true
	case <-time.After(hangTimeout / 6):
		// it may wait for the requests in progress
	}
	if stopped && serr != nil {
		c.badf("stopping the service failed: %v", serr)
		return
	}
	if stopped {
		// no more requests
		var late []*httpReq
		for _, cl := range append(append([]*http.Client{}, clients[:1+c.R.Intn(len(clients))]...), newClient()) {
			r := &httpReq{kind: "status", method: "GET", path: "/status"}
			if c.R.Intn(3) > 0 {
				r = startReq(c, scs[0], pre+".late")
			}
			e.do(cl, r)
			late = append(late, r)
			cl.CloseIdleConnections()
			if r.err == nil && r.code < 400 {
				c.badf("the stopped service accepted a request: %s %s: %d %s", r.method, r.path, r.code, r.resp)
				detail(r, nil)
			}
		}
		c.stat("late", len(late))
		if e.svc.Stop() == nil {
			c.badf("stopping a stopped service is no error")
		}
	}
	close(g.open)
	hwg.Wait()
	wg.Wait()
	if !stopped {
		select {
		case serr = <-sres:
			stopped = true
		case <-time.After(hangTimeout):
			c.badf("stopping the service does not end")
			c.Hang = true
			return
		}
		if serr != nil {
			c.badf("stopping the service failed: %v", serr)
		}
	}
	for _, r := range held {
		if r.err != nil {
			c.badf("a request in progress when the service was stopped got no answer: %v", r.err)
			detail(r, nil)
			return
		}
	}
	isConc := map[*httpReq]bool{}
	for _, r := range conc {
		isConc[r] = true
	}
	for _, cl := range clients {
		cl.CloseIdleConnections()
	}
	quietDown()
	evs := rec.take()
	ls := takeLev()
	by := map[string][]Ev{}
	for _, ev := range evs {
		id := runOf(ev.Inst)
		by[id] = append(by[id], ev)
	}
	lby := map[string][]Lev{}
	for _, l := range ls {
		id := runOf(l.FlowID)
		lby[id] = append(lby[id], l)
	}
	lost := 0
	kinds := map[string]int{}
	for _, r := range all {
		if len(c.Bad) > 0 {
			break
		}
		c.stat(r.kind, 1)
		kinds[r.kind]++
		refused := r.err != nil || r.code == 503
		if isConc[r] && refused {
			c.stat("refusedbystop", 1)
			if r.err != nil && r.kind != "bad" {
				lost++
			}
			continue
		}
		switch r.kind {
		case "bad":
			if r.code < 400 {
				c.badf("a bad request (%s: %s %s %s) was answered with %d %s", r.what, r.method, r.path, clip(string(r.body), 300), r.code, r.resp)
				detail(r, evs)
			}
			continue
		case "status":
			var m map[string]interface{}
			if r.code != 200 || json.Unmarshal(r.resp, &m) != nil || m["status"] != "ok" {
				c.badf("status answered with %d %s", r.code, r.resp)
			}
			continue
		case "options":
			if r.code != 200 {
				c.badf("options of %s answered with %d", r.path, r.code)
			}
			continue
		}
		if r.code != 200 || r.id == "" {
			c.badf("%s request answered with %d %s", r.kind, r.code, r.resp)
			detail(r, nil)
			continue
		}
		if r.kind == "resume" {
			if r.id != r.old {
				c.badf("the resumed run %s is reported as %s", r.old, r.id)
			}
		} else {
			if httpIDs[r.id] {
				c.badf("id %s was returned twice", r.id)
			}
			httpIDs[r.id] = true
		}
		id := r.id
		run := by[id]
		l := lby[id]
		delete(by, id)
		delete(lby, id)
		c.stat("runs", 1)
		c.stat("events", len(run))
		mk := func() *oracle {
			o := newOracle(r.sc.Flows, id)
			o.prio = os.Getenv("FLOGO_TASK_PRIORITIZE_EXPR_LINK") == "true"
			o.noFinal = true
			if r.plan != nil {
				x := &mocker{p: r.plan}
				x.attach(o)
				o.ext = x
			}
			o.start(r.sc.Flows[0], r.in)
			return o
		}
		judged := run
		if r.kind != "start" {
			judged = renameRun(run, id, r.old)
			if r.upd != nil {
				judged = append([]Ev{{K: "attrs", Inst: r.old, Data: norm(r.upd).(map[string]interface{})}}, judged...)
			}
			judged = append(append([]Ev{}, r.prefix...), judged...)
			mk = func() *oracle {
				o := saveOracle0(r.sc, r.old)
				o.noFinal = true
				if r.plan != nil {
					x := &mocker{p: r.plan}
					x.attach(o)
					o.ext = x
				}
				o.start(r.sc.Flows[0], r.sc.Inputs)
				return o
			}
		}
		// one final event of the flow, with its outcome
		fin := []string{}
		for _, x := range l {
			if !x.Task && x.FlowID == id && x.St != "Started" {
				fin = append(fin, x.St)
			}
		}
		if len(fin) > 0 {
			// tells the reference that the run ended, the result itself is not visible
			judged = append(append([]Ev{}, judged...), Ev{K: "result"})
		}
		o, bad := explain(mk, judged)
		for k, v := range o.stats {
			c.stat(k, v)
		}
		if len(bad) == 0 && o.root.status == 0 {
			bad = append(bad, "run answered but work is left: "+o.pendingOf(o.root))
		}
		if len(bad) == 0 {
			want := map[int]string{1: "Completed", 2: "Failed"}[o.root.status]
			if len(fin) != 1 || fin[0] != want {
				bad = append(bad, fmt.Sprintf("run ended as %v, expected %s", fin, want))
			}
			if r.kind == "start" && r.plan == nil && len(bad) == 0 {
				n := len(c.Bad)
				checkEvents(c, o, run, l, false)
				bad = append(bad, c.Bad[n:]...)
				c.Bad = c.Bad[:n]
			}
		}
		if len(bad) > 0 {
			c.badf("%s request for run %s: %s", r.kind, id, strings.Join(bad, "; "))
			detail(r, judged)
		}
	}
	if len(c.Bad) == 0 {
		for id, x := range by {
			if lost--; lost < 0 {
				c.badf("run %s was started, but no request was answered with its id: %s", id, clip(js(x), 600))
				break
			}
			delete(lby, id)
		}
		for id, x := range lby {
			if lost--; lost < 0 {
				c.badf("run %s was started, but no request was answered with its id: %s", id, clip(js(x), 600))
				break
			}
		}
	}
	c.stat("held", len(held))
	var ks []string
	for k, n := range kinds {
		ks = append(ks, fmt.Sprint(k, n))
	}
	sort.Strings(ks)
	ord := ""
	num := map[string]int{}
	for _, ev := range evs {
		if id := runOf(ev.Inst); num[id] == 0 {
			num[id] = len(num) + 1
		}
		ord += fmt.Sprint(num[runOf(ev.Inst)], ev.K[:1])
	}
	c.Sig = hashOf(strings.Join(ks, ",") + ord)
	c.NonTriv = kinds["start"]+kinds["restart"]+kinds["resume"] > 1
	if c.Idx < 2 {
		c.Sample = M{"requests": ks, "clients": len(clients), "held during the stop": len(held), "order of the events": clip(ord, 300)}
	}
}

// httpServer checks the life cycle of the server itself.
func httpServer(c *Case) {
	r := c.R
	g := newGate()
	var served, entered int32
	h := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		atomic.AddInt32(&entered, 1)
		if q.URL.Path == "/held" {
			g.pass()
		}
		atomic.AddInt32(&served, 1)
		_, _ = w.Write([]byte("done " + q.URL.RawQuery))
	})
	var s *tester.Server
	addr := ""
	for try := 0; ; try++ {
		port, err := freePort()
		if err != nil {
			panic(err)
		}
		addr = fmt.Sprintf("127.0.0.1:%d", port)
		s = tester.NewServer(addr, h)
		if r.Intn(3) == 0 {
			if s.IsStarted() {
				c.badf("a new server is started")
			}
			if s.Stop() == nil {
				c.badf("stopping a server that was not started is no error")
			}
			if s.WaitStop(time.Second) == nil {
				c.badf("waiting for a server that was not started is no error")
			}
		}
		if err = s.Start(); err == nil {
			break
		}
		if !errors.Is(err, syscall.EADDRINUSE) || try > 50 {
			c.badf("the server does not start: %v", err)
			return
		}
	}
	if s.InstanceID() == "" {
		c.badf("a started server has no id")
	}
	e := &httpEnv{c: c, base: "http://" + addr}
	var clients []*http.Client
	client := func() *http.Client {
		if len(clients) == 0 || r.Intn(3) == 0 {
			clients = append(clients, newClient())
		}
		return clients[r.Intn(len(clients))]
	}
	stopped := false
	defer func() {
		select {
		case <-g.open:
		default:
			close(g.open)
		}
		if !stopped {
			_ = s.Stop()
		}
		for _, cl := range clients {
			cl.CloseIdleConnections()
		}
		quietDown()
	}()
	n := int32(0)
	ask := func(cl *http.Client, path string) (*httpReq, string) {
		q := fmt.Sprint("n", atomic.AddInt32(&n, 1))
		x := &httpReq{method: "GET", path: path + "?" + q}
		e.do(cl, x)
		return x, "done " + q
	}
	sig := ""
	good := func(x *httpReq, want string) {
		if x.err != nil || x.code != 200 || string(x.resp) != want {
			c.badf("%s answered with %d %q %v, expected %q", x.path, x.code, x.resp, x.err, want)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	held := 0
	hold := func() {
		cl := newClient()
		clients = append(clients, cl)
		wg.Add(1)
		held++
		go func() {
			defer wg.Done()
			x, w := ask(cl, "/held")
			mu.Lock()
			defer mu.Unlock()
			good(x, w)
		}()
		select {
		case <-g.in:
		case <-time.After(hangTimeout):
			mu.Lock()
			c.badf("the request is not handled")
			mu.Unlock()
		}
	}
	var ws chan error
	bad := func() bool { mu.Lock(); defer mu.Unlock(); return len(c.Bad) > 0 }
	for k := 1 + r.Intn(10); k > 0 && !bad(); k-- {
		op := r.Intn(6)
		sig += fmt.Sprint(op)
		switch op {
		case 0:
			if s.Start() == nil {
				c.badf("starting a started server is no error")
			}
		case 1:
			if !s.IsStarted() {
				c.badf("a started server is reported as not started")
			}
		case 2:
			if held < 5 {
				hold()
			}
		case 3:
			if ws == nil {
				ws = make(chan error, 1)
				go func() { ws <- s.WaitStop(hangTimeout) }()
			}
		default:
			good(ask(client(), "/x"))
		}
	}
	if ws != nil {
		select {
		case err := <-ws:
			c.badf("waiting for a started server ended: %v", err)
			return
		default:
		}
	}
	if bad() {
		return
	}
	var conc []*httpReq
	var cwg sync.WaitGroup
	for k := r.Intn(5); k > 0; k-- {
		cl := client()
		x := &httpReq{method: "GET", path: "/x"}
		conc = append(conc, x)
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			e.do(cl, x)
		}()
	}
	if err := s.Stop(); err != nil {
		c.badf("stopping failed: %v", err)
	}
	stopped = true
	cwg.Wait()
	for _, x := range conc {
		if x.err == nil && x.code == 200 && string(x.resp) != "done " {
			c.badf("a request accepted while stopping got %q", x.resp)
		}
	}
	for k := 1 + r.Intn(6); k > 0 && !bad(); k-- {
		op := r.Intn(4)
		sig += fmt.Sprint("s", op)
		switch op {
		case 0:
			if s.Stop() == nil {
				c.badf("stopping a stopped server is no error")
			}
		case 1:
			if held > 0 && !s.IsStarted() {
				c.badf("a stopped server with %d requests in progress is reported as not started", held)
			}
		case 2:
			before := atomic.LoadInt32(&entered)
			x, _ := ask(client(), "/x")
			if x.err == nil && x.code < 400 || atomic.LoadInt32(&entered) != before {
				c.badf("the stopped server handled a request: %d %s", x.code, x.resp)
			}
		case 3:
			if held > 0 && r.Intn(2) == 0 {
				if s.WaitStop(120*time.Millisecond) == nil {
					c.badf("waiting for the stopped server ended although %d requests are in progress", held)
				}
			}
		}
	}
	if bad() {
		return
	}
	if ws != nil && held > 0 {
		select {
		case err := <-ws:
			c.badf("waiting for the stopped server ended although %d requests are in progress: %v", held, err)
			return
		default:
		}
	}
	close(g.open)
	if ws == nil {
		ws = make(chan error, 1)
		go func() { ws <- s.WaitStop(hangTimeout) }()
	}
	select {
	case err := <-ws:
		if err != nil {
			c.badf("waiting for the stopped server failed: %v", err)
		}
	case <-time.After(2 * hangTimeout):
		c.badf("waiting for the stopped server does not end")
	}
	if a, b := atomic.LoadInt32(&entered), atomic.LoadInt32(&served); a != b {
		c.badf("waiting for the server ended, but %d requests are in progress", a-b)
	}
	wg.Wait()
	if s.IsStarted() {
		c.badf("a stopped server without requests is reported as started")
	}
	c.stat("requests", int(atomic.LoadInt32(&served)))
	c.stat("held", held)
	c.Sig = hashOf(sig + fmt.Sprint(held, len(conc)))
	c.NonTriv = held > 0
}

func init() {
	families["http"] = httpCase
	families["httpserver"] = httpServer
	props["C25"] = &PropDef{ID: "C25", Rule: "groups of clients sending start, restart, resume, malformed and other requests at the same time to the real service, also while it is stopped; every run is checked against the reference, answers are matched with the runs that were observed; non-trivial if several runs were asked for (service) or a request was in progress during the stop (server), distinct by the mix of requests and the event order",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "http", N: size(q, 700, 30000), Init: "events"}, {Fam: "httpserver", N: size(q, 250, 5000), Init: "events"},
				{Fam: "http", N: size(q, 120, 3000), Init: "events", Arg: "race", Race: true, Chunk: 20}}
		}}
}
