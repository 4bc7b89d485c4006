package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is one monitored execution (or group of executions).
type Case struct {
	Prop string `json:"prop"`
	Fam  string `json:"fam"`
	Arg  string `json:"arg"`
	Idx  int    `json:"idx"`
	Seed int64  `json:"seed"`
	Tier string `json:"tier"`

	R       *rand.Rand     `json:"-"`
	Bad     []string       `json:"bad,omitempty"`
	Key     string         `json:"key,omitempty"` // identifies a known finding
	Stats   map[string]int `json:"stats,omitempty"`
	Sig     string         `json:"sig,omitempty"`
	NonTriv bool           `json:"nt,omitempty"`
	Took    float64        `json:"took,omitempty"`
	Sample  interface{}    `json:"sample,omitempty"`
	Detail  interface{}    `json:"detail,omitempty"`
	Hang    bool           `json:"hang,omitempty"`
}

func (c *Case) badf(f string, a ...interface{}) { c.Bad = append(c.Bad, fmt.Sprintf(f, a...)) }
func (c *Case) stat(k string, n int) {
	if c.Stats == nil {
		c.Stats = map[string]int{}
	}
	c.Stats[k] += n
}

// Batch is a list of cases of one family run with one process configuration.
type Batch struct {
	Fam   string   `json:"fam"`
	N     int      `json:"n"`
	Env   []string `json:"env,omitempty"`
	Race  bool     `json:"race,omitempty"`
	Arg   string   `json:"arg,omitempty"`
	Init  string   `json:"init,omitempty"`
	Chunk int      `json:"chunk,omitempty"`
	Procs int      `json:"procs,omitempty"`
}

type PropDef struct {
	ID      string
	Batches func(quick bool) []Batch
	Rule    string
	Assume  []string
}

var props = map[string]*PropDef{}
var families = map[string]func(c *Case){}
var inits = map[string]func(){}

func hashOf(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:8])
}

func caseSeed(seed int64, fam, arg string, idx int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", seed, fam, arg, idx)))
	var x int64
	for i := 0; i < 8; i++ {
		x = x<<8 | int64(h[i])
	}
	return x & 0x7fffffffffffffff
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mon check|work|replay")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "work":
		work()
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for k := range props {
			fmt.Println(k)
		}
	}
}

// ---------- worker ----------

type workSpec struct {
	Prop  string `json:"prop"`
	Batch Batch  `json:"batch"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Seed  int64  `json:"seed"`
	Tier  string `json:"tier"`
	Full  bool   `json:"full"`
}

func work() {
	var w workSpec
	if err := json.Unmarshal([]byte(os.Args[2]), &w); err != nil {
		panic(err)
	}
	pipe := os.NewFile(3, "pipe")
	var mu sync.Mutex
	say := func(s string) {
		mu.Lock()
		_, _ = pipe.WriteString(s + "\n")
		mu.Unlock()
	}
	if v := os.Getenv("MON_HANG"); v != "" {
		n, _ := strconv.Atoi(v)
		hangTimeout = time.Duration(n) * time.Second
	}
	in := w.Batch.Init
	if in == "" {
		in = "plain"
	}
	inits[in]()
	settleG()
	for i := w.From; i < w.To; i++ {
		c := &Case{Prop: w.Prop, Fam: w.Batch.Fam, Arg: w.Batch.Arg, Idx: i, Tier: w.Tier}
		c.Seed = caseSeed(w.Seed, c.Fam, c.Arg, i)
		c.R = rand.New(rand.NewSource(c.Seed))
		say("B " + strconv.Itoa(i))
		// a case that is stuck outside the waits of the monitors
		dog := time.AfterFunc(2*hangTimeout+10*time.Second, func() {
			buf := make([]byte, 1<<18)
			buf = buf[:runtime.Stack(buf, true)]
			h := &Case{Prop: c.Prop, Fam: c.Fam, Arg: c.Arg, Idx: c.Idx, Tier: c.Tier, Seed: c.Seed, Hang: true,
				Bad: []string{"the engine does not return"}, Detail: map[string]interface{}{"goroutines": string(buf)}}
			b, _ := json.Marshal(h)
			say("R " + string(b))
			os.Exit(0)
		})
		t0 := time.Now()
		families[c.Fam](c)
		c.Took = time.Since(t0).Seconds()
		dog.Stop()
		if len(c.Bad) == 0 && !w.Full {
			c.Detail = nil
		}
		if i >= 3 && !w.Full && len(c.Bad) == 0 {
			c.Sample = nil
		}
		b, err := json.Marshal(c)
		if err != nil {
			c.Detail, c.Sample = nil, nil
			b, _ = json.Marshal(c)
		}
		say("R " + string(b))
		if c.Hang {
			os.Exit(0)
		}
	}
	say("E")
}

// ---------- driver ----------

type ring struct {
	mu  sync.Mutex
	buf []byte
	max int
}

func (r *ring) Write(p []byte) (int, error) {
	r.mu.Lock()
	r.buf = append(r.buf, p...)
	if len(r.buf) > 2*r.max {
		r.buf = append([]byte{}, r.buf[len(r.buf)-r.max:]...)
	}
	r.mu.Unlock()
	return len(p), nil
}

func (r *ring) String() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	b := r.buf
	if len(b) > r.max {
		b = b[len(b)-r.max:]
	}
	return string(b)
}

type outcome struct {
	cases   []*Case
	next    int // first case not run
	crashed bool
	at      int // case running when it ended
	code    int
	stderr  string
	race    string
	killed  bool
	raceN   int
}

func selfBin(race bool) string {
	exe, _ := os.Executable()
	if race {
		return filepath.Join(filepath.Dir(exe), "mon-race")
	}
	return exe
}

func runWorker(w workSpec, extra []string, limit time.Duration) *outcome {
	arg, _ := json.Marshal(w)
	cmd := exec.Command(selfBin(w.Batch.Race), "work", string(arg))
	cmd.Env = append(os.Environ(), "FLOGO_LOG_LEVEL=ERROR", "GOTRACEBACK=all",
		"FLOGO_APP_NAME=mon-app", "FLOGO_APP_VERSION=3.1.4", "FLOGO_APP_USERNAME=mon-user", "FLOGO_HOST_NAME=mon-host")
	cmd.Env = append(cmd.Env, "GOMEMLIMIT=3GiB")
	raceLog := ""
	if w.Batch.Race {
		// apart from the log lines of the engine
		if dir, err := os.MkdirTemp("", "verifrace"); err == nil {
			defer os.RemoveAll(dir)
			raceLog = filepath.Join(dir, "race")
		}
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=66 history_size=3 log_path="+raceLog)
	}
	cmd.Env = append(cmd.Env, w.Batch.Env...)
	cmd.Env = append(cmd.Env, extra...)
	rg := &ring{max: 1 << 16}
	if w.Batch.Race {
		rg.max = 1 << 17
	}
	cmd.Stdout, cmd.Stderr = rg, rg
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	oc := &outcome{next: w.From, at: -1}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start worker:", err)
		os.Exit(2)
	}
	pw.Close()
	timer := time.AfterFunc(limit, func() { oc.killed = true; _ = cmd.Process.Kill() })
	rd := bufio.NewReaderSize(pr, 1<<20)
	ended := false
	for {
		line, err := rd.ReadBytes('\n')
		line = bytes.TrimRight(line, "\n")
		if len(line) > 1 && line[0] == 'B' {
			oc.at, _ = strconv.Atoi(string(line[2:]))
		}
		if len(line) > 1 && line[0] == 'R' {
			c := &Case{}
			if json.Unmarshal(line[2:], c) == nil {
				oc.cases = append(oc.cases, c)
				oc.next = c.Idx + 1
				if c.Hang {
					ended = true
				}
			}
		}
		if string(line) == "E" {
			ended = true
		}
		if err != nil {
			if err != io.EOF {
				fmt.Fprintln(os.Stderr, err)
			}
			break
		}
	}
	pr.Close()
	err = cmd.Wait()
	timer.Stop()
	oc.stderr = rg.String()
	if ee, ok := err.(*exec.ExitError); ok {
		oc.code = ee.ExitCode()
	}
	oc.crashed = !ended
	if w.Batch.Race {
		logs, _ := filepath.Glob(raceLog + ".*")
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			r, n := findRace(string(b))
			if oc.race == "" {
				oc.race = r
			}
			oc.raceN += n
		}
	}
	return oc
}

// findRace extracts the first race report that involves the engine.
func findRace(s string) (string, int) {
	parts := strings.Split(s, "WARNING: DATA RACE")
	n := 0
	first := ""
	for _, p := range parts[1:] {
		if i := strings.Index(p, "=================="); i >= 0 {
			p = p[:i]
		}
		// judge by the two accesses, not by the goroutines' creation
		acc := p
		if i := strings.Index(p, "Goroutine "); i >= 0 {
			acc = p[:i]
		}
		if strings.Contains(acc, "project-flogo/flow") && !depRace(acc) {
			n++
			if first == "" {
				first = p
			}
		}
	}
	return first, n
}

// depRace: the raced-on memory belongs to the nodes of a compiled expression,
// a part of the core module that notes its last values there (see DESIGN.md).
func depRace(acc string) bool {
	n, dep := 0, 0
	top := false
	for _, l := range strings.Split(acc, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ") || strings.HasPrefix(t, "Atomic") {
			top = true
			continue
		}
		if top && t != "" {
			if strings.HasPrefix(t, "runtime.") || strings.HasPrefix(t, "/") || strings.HasPrefix(t, "reflect.") {
				continue
			}
			top = false
			n++
			for _, p := range []string{"expression/script/gocc/", "resolve."} {
				if strings.HasPrefix(t, "github.com/project-flogo/core/data/"+p) {
					dep++
				}
			}
		}
	}
	return n > 0 && n == dep
}

type violation struct {
	key    string
	what   string
	replay string
}

type driver struct {
	pd           *PropDef
	tier         string
	seed         int64
	mu           sync.Mutex
	evals        int
	sigs         map[string]bool
	stats        map[string]int
	samp         []interface{}
	viol         []violation
	known        map[string]string
	found        map[string]string
	inconclusive int
	races        int
}

const replayDir = "evidence/replay"

func (d *driver) report(c *Case, w workSpec, what string, detail interface{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	key := ""
	if c != nil {
		key = c.Key
	}
	if key != "" {
		if _, ok := d.known[d.pd.ID+" "+key]; ok {
			d.found[key] = what
			return
		}
	}
	_ = os.MkdirAll(replayDir, 0o755)
	path := fmt.Sprintf("%s/%s-%s-%s-%d.json", replayDir, d.pd.ID, d.tier, w.Batch.Fam, w.From)
	if c != nil {
		path = fmt.Sprintf("%s/%s-%s-%s-%d.json", replayDir, d.pd.ID, d.tier, w.Batch.Fam, c.Idx)
		w.From, w.To = c.Idx, c.Idx+1
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"work": w, "what": what, "detail": detail}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	d.viol = append(d.viol, violation{key, what, path})
	if len(d.viol) > 5 {
		return
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", d.pd.ID, path, strings.ReplaceAll(clip(what, 1500), "\n", "\n  "))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (d *driver) tooMany() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.viol) >= 3
}

func (d *driver) take(cs []*Case, w workSpec) {
	for _, c := range cs {
		if c.Took > 5 {
			fmt.Fprintf(os.Stderr, "slow: %s %s %d took %.1f s (hang: %v)\n", c.Fam, c.Arg, c.Idx, c.Took, c.Hang)
		}
		if c.Hang || d.tooMany() {
			continue
		}
		d.mu.Lock()
		d.evals++
		if c.NonTriv && c.Sig != "" {
			d.sigs[c.Sig] = true
		}
		for k, v := range c.Stats {
			d.stats[k] += v
		}
		if c.Sample != nil && len(d.samp) < 4 && len(c.Bad) == 0 && len(js(c.Sample)) < 6000 {
			d.samp = append(d.samp, c.Sample)
		}
		d.mu.Unlock()
		if len(c.Bad) > 0 {
			d.report(c, w, strings.Join(c.Bad, "\n"), c.Detail)
		}
	}
}

func (d *driver) chunk(w workSpec) {
	for w.From < w.To && !d.tooMany() {
		oc := runWorker(w, nil, 14*time.Minute)
		d.take(oc.cases, w)
		if oc.race != "" {
			d.mu.Lock()
			d.races += oc.raceN
			d.mu.Unlock()
			d.report(nil, w, "data race:"+clip(oc.race, 3000), oc.race)
		}
		if n := len(oc.cases); n > 0 && oc.cases[n-1].Hang {
			c := oc.cases[n-1]
			w1 := w
			w1.From, w1.To, w1.Full = c.Idx, c.Idx+1, true
			oc1 := runWorker(w1, []string{"MON_HANG=45"}, 3*time.Minute)
			if oc1.killed || (len(oc1.cases) == 1 && oc1.cases[0].Hang) {
				what := "hang: " + strings.Join(c.Bad, "; ")
				if len(c.Bad) == 0 {
					what = "hang: the run does not end"
				}
				d.report(c, w1, what, c.Detail)
			} else {
				d.take(oc1.cases, w1)
				d.mu.Lock()
				d.inconclusive++
				d.mu.Unlock()
			}
			w.From = c.Idx + 1
			continue
		}
		if oc.crashed {
			at := oc.at
			if at < w.From {
				fmt.Fprintf(os.Stderr, "worker failed before its first case (code %d): %s\n", oc.code, clip(oc.stderr, 3000))
				os.Exit(2)
			}
			w1 := w
			w1.From, w1.To, w1.Full = at, at+1, true
			what := fmt.Sprintf("the process crashed (exit %d): %s", oc.code, panicText(oc.stderr))
			if oc.code != 2 {
				oc1 := runWorker(w1, nil, 5*time.Minute)
				if !oc1.crashed {
					d.take(oc1.cases, w1)
					d.mu.Lock()
					d.inconclusive++
					d.mu.Unlock()
					w.From = at + 1
					continue
				}
			}
			d.report(&Case{Idx: at, Key: crashKey(oc.stderr)}, w1, what, clip(oc.stderr, 20000))
			w.From = at + 1
			continue
		}
		return
	}
}

func crashKey(s string) string { return "" }

func panicText(s string) string {
	i := strings.Index(s, "panic:")
	if j := strings.Index(s, "fatal error:"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		i = 0
		if len(s) > 2000 {
			i = len(s) - 2000
		}
	}
	return clip(s[i:], 2000)
}

func check(id, tier string) int {
	t0 := time.Now()
	pd := props[id]
	if pd == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = n
		}
	}
	d := &driver{pd: pd, tier: tier, seed: seed, sigs: map[string]bool{}, stats: map[string]int{}, known: map[string]string{}, found: map[string]string{}}
	d.loadKnown()
	batches := pd.Batches(tier == "quick")
	type job struct{ w workSpec }
	var jobs []workSpec
	for _, b := range batches {
		ch := b.Chunk
		if ch == 0 {
			ch = (b.N + 15) / 16
			if ch < 20 {
				ch = 20
			}
			if ch > 400 {
				ch = 400
			}
		}
		for f := 0; f < b.N; f += ch {
			to := f + ch
			if to > b.N {
				to = b.N
			}
			jobs = append(jobs, workSpec{Prop: id, Batch: b, From: f, To: to, Seed: seed, Tier: tier})
		}
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan workSpec)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for w := range ch {
				if !d.tooMany() {
					d.chunk(w)
				}
			}
		}()
	}
	for _, w := range jobs {
		ch <- w
	}
	close(ch)
	wg.Wait()
	for k, what := range d.found {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, clip(strings.ReplaceAll(what, "\n", " "), 300))
	}
	st := map[string]interface{}{}
	for k, v := range d.stats {
		st[k] = v
	}
	cov := map[string]interface{}{
		"evaluations": d.evals, "distinct_nontrivial": len(d.sigs), "rule": pd.Rule, "samples": d.samp,
		"observed": st, "batches": batches, "inconclusive": d.inconclusive,
	}
	if d.samp == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": pd.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(d.viol)}
	if pd.Assume == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll("evidence", 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile("evidence/"+id+".json", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	keys := make([]string, 0)
	for k := range d.stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, " %s=%d", k, d.stats[k])
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %d inconclusive, %.1fs;%s\n", id, tier, d.evals, len(d.sigs), len(d.viol), d.inconclusive, time.Since(t0).Seconds(), sb.String())
	if len(d.viol) > 0 {
		return 1
	}
	return 0
}

// loadKnown reads known-findings.txt: lines "known: property=<id> key=<key> <text>".
func (d *driver) loadKnown() {
	b, err := os.ReadFile("known-findings.txt")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) > 2 {
			d.known[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimPrefix(f[2], "key=")] = l
		}
	}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Work workSpec `json:"work"`
		What string   `json:"what"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	r.Work.Full = true
	oc := runWorker(r.Work, nil, 10*time.Minute)
	bad := false
	for _, c := range oc.cases {
		if len(c.Bad) > 0 || c.Hang {
			bad = true
			x, _ := json.MarshalIndent(c, "", " ")
			fmt.Println(string(x))
		}
	}
	if oc.crashed || oc.race != "" {
		bad = true
		fmt.Println(oc.stderr)
	}
	if os.Getenv("MON_LOG") != "" {
		fmt.Println(oc.stderr)
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Work.Prop, path)
		return 1
	}
	fmt.Println("no violation")
	return 0
}
