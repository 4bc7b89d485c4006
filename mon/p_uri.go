package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/project-flogo/flow/definition"
	flowsupport "github.com/project-flogo/flow/support"
)

// Flows fetched by URI: a local server and a scratch directory serve flows and faults.

type uriRes struct {
	name   string
	file   bool
	path   string
	uri    string
	mu     sync.Mutex
	script []string // http: what the next requests get; file: its state
	served []string // outcome of each request seen by the server
	vers   int
	delay  time.Duration
	doc    func(v int) []byte
}

var uriGood = map[string]bool{"plain": true, "zip": true}
var httpKinds = []string{"plain", "zip", "404", "500", "300", "trunc", "empty", "badjson", "null", "b64", "b64tail", "gzcut", "gzbad", "notgz", "drop", "baddef", "badlink", "nullmeta", "text"}
var fileKinds = []string{"plain", "zip", "missing", "empty", "b1", "b2", "b3", "dir", "badjson", "null", "gzcut", "gzbad", "gzhead", "baddef", "badlink", "nullmeta", "text"}

func zipped(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, _ = w.Write(b)
	_ = w.Close()
	return buf.Bytes()
}

// content of a kind, before it is encoded for transport
func (u *uriRes) content(kind string, v int) []byte {
	b := u.doc(v)
	switch kind {
	case "plain", "404", "500", "300", "drop":
		return b
	case "zip":
		return zipped(b)
	case "trunc", "badjson":
		return b[:len(b)*2/3]
	case "empty":
		return nil
	case "null":
		return []byte("null")
	case "gzcut":
		z := zipped(b)
		return z[:len(z)*2/3]
	case "gzbad":
		z := zipped(b)
		z[len(z)-6] ^= 0x55 // checksum
		return z
	case "gzhead":
		return []byte{0x1f, 0x8b}
	case "notgz":
		return b
	case "b1":
		return []byte("{")
	case "b2":
		return []byte("{ ")
	case "b3":
		return []byte{0x1f, 0x8b, 8}
	case "baddef":
		return bytes.Replace(b, []byte(`"ref":"`), []byte(`"ref":"nosuch`), 1)
	case "badlink":
		return bytes.Replace(b, []byte(`"to":"`), []byte(`"to":"ghost`), 1)
	case "nullmeta":
		return bytes.Replace(b, []byte(`"input":[`), []byte(`"input":[null,`), 1)
	case "text":
		return []byte("<html>not a flow</html>")
	}
	panic("content " + kind)
}

var uriServer *httptest.Server
var uriTab sync.Map

func startURIServer() {
	uriServer = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		x, ok := uriTab.Load(r.URL.Path)
		if !ok {
			http.NotFound(w, r)
			return
		}
		u := x.(*uriRes)
		u.mu.Lock()
		k := u.script[0]
		if len(u.script) > 1 {
			u.script = u.script[1:]
		}
		u.vers++
		v := u.vers
		u.served = append(u.served, k)
		d := u.delay
		u.mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		hijack := func(s string) {
			c, buf, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			_, _ = buf.WriteString(s)
			_ = buf.Flush()
			if tc, ok := c.(*net.TCPConn); ok && s == "" {
				_ = tc.SetLinger(0)
			}
			_ = c.Close()
		}
		b := u.content(map[string]string{"b64": "zip", "b64tail": "zip"}[k]+strings.TrimSuffix(strings.TrimSuffix(k, "b64"), "b64tail"), v)
		switch k {
		case "404":
			w.WriteHeader(404)
		case "500":
			w.WriteHeader(500)
		case "300":
			w.WriteHeader(300)
		case "drop":
			hijack("")
			return
		case "trunc":
			hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(u.doc(v)), b))
			return
		case "zip", "gzcut", "gzbad":
			w.Header().Set("flow-compressed", []string{"true", "TRUE"}[v%2])
			b = []byte(base64.StdEncoding.EncodeToString(b))
		case "notgz":
			w.Header().Set("flow-compressed", "true")
			b = []byte(base64.StdEncoding.EncodeToString(b))
		case "b64":
			w.Header().Set("flow-compressed", "true")
			b = []byte(base64.StdEncoding.EncodeToString(b))
			b[len(b)/2] = '*'
		case "b64tail":
			w.Header().Set("flow-compressed", "true")
			b = append([]byte(base64.StdEncoding.EncodeToString(b)), "*corrupt*"...)
		}
		_, _ = w.Write(b)
	}))
	uriServer.Config.SetKeepAlivesEnabled(false)
	uriServer.Start()
}

func (u *uriRes) setFile(kind string) {
	_ = os.RemoveAll(u.path)
	u.mu.Lock()
	u.script = []string{kind}
	u.vers++
	v := u.vers
	u.mu.Unlock()
	switch kind {
	case "missing":
	case "dir":
		_ = os.Mkdir(u.path, 0700)
	default:
		if err := os.WriteFile(u.path, u.content(kind, v), 0600); err != nil {
			panic(err)
		}
	}
}

func (u *uriRes) seen() []string {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]string{}, u.served...)
}

type uriCall struct {
	u   *uriRes
	md  bool
	via bool
	def *definition.Definition
	err error
	pan string
	mdn int // inputs reported
}

func (x *uriCall) do(fm *flowsupport.FlowManager) {
	defer func() {
		if r := recover(); r != nil {
			x.pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	switch {
	case x.md:
		md, err := fm.GetFlowMetadata(x.u.uri)
		x.err = err
		if md != nil {
			x.mdn = len(md.Input)
		}
	case x.via:
		x.def, _, x.err = flowsupport.GetDefinition(x.u.uri)
	default:
		x.def, x.err = fm.GetFlow(x.u.uri)
	}
}

func genScript(r *rand.Rand, kinds []string, n int) []string {
	var s []string
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			s = append(s, []string{"plain", "zip"}[r.Intn(2)])
		} else {
			s = append(s, kinds[r.Intn(len(kinds))])
		}
	}
	return s
}

func uriCase(c *Case) {
	r := c.R
	dir, err := os.MkdirTemp("", "monuri")
	if err != nil {
		c.badf("harness: %v", err)
		return
	}
	defer os.RemoveAll(dir)
	fm := flowsupport.NewFlowManager(nil)
	flowsupport.InitDefaultDefLookup(fm, resMgr)
	var log []string
	note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	bad := func(f string, a ...interface{}) {
		c.badf(f, a...)
		c.Detail = map[string]interface{}{"log": log}
	}

	n := 1 + r.Intn(4)
	var us []*uriRes
	cached := map[*uriRes]*definition.Definition{}
	for i := 0; i < n; i++ {
		u := &uriRes{name: fmt.Sprintf("u%d", i), file: r.Intn(2) == 0}
		o := mixOpt(c)
		o.BigMax = 40
		o.MinT, o.MaxT, o.PSub = 2, 5, 0
		g := newGen(c.Seed+int64(i), fmt.Sprintf("uri%d", i), o)
		f := g.scenario().Flows[0]
		// always linked, so that a broken link can be planted
		if len(f.Main.Links) == 0 {
			f.Main.Links = append(f.Main.Links, &Link{From: f.Main.Tasks[0].ID, To: f.Main.Tasks[len(f.Main.Tasks)-1].ID, Type: "dep"})
		}
		f.NoMeta = false
		base := f.Name
		u.doc = func(v int) []byte {
			return bytes.Replace(f.JSON(), []byte(`"`+base+`"`), []byte(fmt.Sprintf(`"%s.v%d"`, base, v)), 1)
		}
		if u.file {
			u.path = filepath.Join(dir, fmt.Sprintf("%s %d.json", []string{"flow", "Flow"}[r.Intn(2)], i))
			u.uri = "file://" + strings.Replace(u.path, " ", []string{" ", "%20"}[r.Intn(2)], 1)
		} else {
			p := fmt.Sprintf("/%s%d/%d", []string{"c", "C", "Flow-"}[r.Intn(3)], c.Idx, i)
			u.uri = uriServer.URL + p
			u.script = append(genScript(r, httpKinds, r.Intn(5)), []string{"plain", "zip"}[r.Intn(2)])
			if r.Intn(3) == 0 {
				u.delay = time.Duration(r.Intn(3)) * time.Millisecond
			}
			uriTab.Store(p, u)
			defer uriTab.Delete(p)
		}
		us = append(us, u)
	}
	badURIs := []string{"", "ftp://x/y", "http://[::1", "http://%zz/", "file://", "file:///nonexistent/%zz", "http://", "http://127.0.0.1:1/closed", "flow", "http:// x/", "res://flow:nosuch"}
	for ph := 0; ph < 2+r.Intn(6); ph++ {
		if len(c.Bad) > 0 {
			return
		}
		// files change between the phases
		for _, u := range us {
			if u.file {
				k := fileKinds[r.Intn(len(fileKinds))]
				if r.Intn(2) == 0 {
					k = []string{"plain", "zip"}[r.Intn(2)]
				}
				u.setFile(k)
				note("%s is now %s", u.uri, k)
			}
		}
		if r.Intn(8) == 0 {
			x := &uriCall{u: &uriRes{uri: badURIs[r.Intn(len(badURIs))]}, md: r.Intn(2) == 0, via: r.Intn(3) == 0}
			x.do(fm)
			note("%q: %v", x.u.uri, x.err)
			c.stat("unusable uri", 1)
			switch {
			case x.pan != "":
				bad("a request for the unusable uri %q panicked: %s", x.u.uri, x.pan)
			case x.err == nil && (x.def != nil || x.md):
				bad("a request for the unusable uri %q was answered", x.u.uri)
			case x.err == nil && !strings.HasPrefix(x.u.uri, "res://"):
				bad("a request for the unusable uri %q got no error", x.u.uri)
			}
			continue
		}
		before := map[*uriRes]int{}
		for _, u := range us {
			before[u] = len(u.seen())
		}
		k := 1
		if r.Intn(2) == 0 {
			k = 2 + r.Intn(7)
		}
		var calls []*uriCall
		for i := 0; i < k; i++ {
			u := us[r.Intn(len(us))]
			if k > 1 && i > 0 && r.Intn(2) == 0 {
				u = calls[0].u
			}
			x := &uriCall{u: u, via: r.Intn(3) == 0}
			if cached[u] != nil && r.Intn(4) == 0 {
				x.md = true
			}
			calls = append(calls, x)
		}
		var wg sync.WaitGroup
		for _, x := range calls {
			wg.Add(1)
			go func(x *uriCall) {
				defer wg.Done()
				x.do(fm)
			}(x)
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(hangTimeout):
			c.Hang = true
			bad("requests for flows did not end within %v", hangTimeout)
			return
		}
		for _, u := range us {
			var mine []*uriCall
			for _, x := range calls {
				if x.u == u {
					mine = append(mine, x)
				}
			}
			seen := u.seen()[before[u]:]
			if u.file {
				seen = nil
			}
			note("%s: %d requests at once, cached %v, server %v", u.uri, len(mine), cached[u] != nil, seen)
			if len(mine) == 0 {
				if len(seen) > 0 {
					bad("%s was fetched for a request for another flow", u.uri)
				}
				continue
			}
			c.stat("requests", len(mine))
			if len(mine) > 1 {
				c.stat("simultaneous", len(mine))
			}
			good, fails := 0, 0
			if u.file {
				if uriGood[u.script[0]] {
					good = 1
				} else {
					fails = 1
				}
			} else {
				for _, s := range seen {
					if uriGood[s] {
						good++
					} else {
						fails++
					}
					c.stat("served "+s, 1)
				}
			}
			had := cached[u]
			if had != nil && len(seen) > 0 {
				bad("%s was fetched again: %v", u.uri, seen)
			}
			if had == nil && good > 1 {
				bad("%s was fetched %d times successfully", u.uri, good)
			}
			if had == nil && !u.file && len(seen) == 0 {
				bad("%s was not fetched though it had not been loaded before", u.uri)
			}
			if len(mine) == 1 && len(seen) > 1 {
				bad("one request fetched %s %d times: %v", u.uri, len(seen), seen)
			}
			ok, errs := 0, 0
			for _, x := range mine {
				switch {
				case x.pan != "":
					bad("a request for %s panicked (%v): %s", u.uri, seen, x.pan)
				case x.err != nil:
					errs++
					note("  error %v", x.err)
					if x.def != nil {
						bad("a request for %s got both a flow and an error", u.uri)
					}
				case x.md:
					ok++
					if had != nil && x.mdn != len(had.Metadata().Input) {
						bad("the metadata of %s has %d inputs, the flow has %d", u.uri, x.mdn, len(had.Metadata().Input))
					}
				case x.def == nil:
					bad("a request for %s got neither a flow nor an error", u.uri)
				default:
					ok++
					if cached[u] == nil {
						cached[u] = x.def
					}
					if cached[u] != x.def {
						bad("requests for %s got different definitions", u.uri)
					}
				}
			}
			if len(c.Bad) > 0 {
				return
			}
			c.stat("answered", ok)
			c.stat("errors", errs)
			if had != nil {
				if errs > 0 {
					bad("a request for %s failed though it had been loaded before", u.uri)
				}
				continue
			}
			if good > 0 {
				if cached[u] == nil {
					bad("%s was fetched, but no request got it: %v", u.uri, log[len(log)-1])
					continue
				}
				if errs > 0 && fails == 0 {
					bad("requests for %s failed though its fetch succeeded: %v", u.uri, log[len(log)-1])
				}
				// the flow is the one that was served
				v := u.vers
				if !u.file {
					all := u.seen()
					for v = 1; v < len(all) && !uriGood[all[v-1]]; v++ {
					}
				}
				want, must, _ := descRep(u.doc(v))
				if must != "" {
					bad("harness: %s", must)
				}
				cmpDesc(c, u.doc(v), want, cached[u])
				c.stat("flows compared", 1)
			} else {
				if ok > 0 {
					bad("%d requests for %s were answered though every fetch failed: %v", ok, u.uri, seen)
				}
				if errs == 0 {
					bad("no error for %s", u.uri)
				}
				if u.file {
					c.stat("file "+u.script[0], 1)
				}
			}
		}
		c.NonTriv = true
	}
	c.Sig = hashOf(strings.ReplaceAll(strings.ReplaceAll(strings.Join(log, "\n"), uriServer.URL, ""), dir, ""))
	if c.Sample == nil && c.Idx < 3 {
		c.Sample = log
	}
}

func init() {
	inits["uri"] = func() {
		setupEngine(nil, nil)
		startURIServer()
	}
	families["uri"] = uriCase
	props["C22"] = &PropDef{ID: "C22", Rule: "sequences of single and simultaneous requests for flows served, plainly, compressed or with faults, by a scratch directory and a local server; a case is non-trivial if a request was made, distinct by the requests, faults and outcomes",
		Batches: func(q bool) []Batch {
			return []Batch{{Fam: "uri", N: size(q, 4000, 100000), Init: "uri"}, {Fam: "uri", Arg: "race", N: size(q, 600, 10000), Init: "uri", Race: true}}
		}}
}
