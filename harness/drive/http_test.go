package drive

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
)

func init() { drivers["http"] = driveHTTP }

type httpProg struct {
	Root  string  `json:"root"` // rec, or how an outside caller begins: none, span, parent
	Meth  string  `json:"meth"`
	Calls []hcall `json:"calls"`
	Ops   [][]any `json:"ops"` // script of every handler; nil: random ones
}

type hcall struct {
	Up   int    `json:"up"`
	Fail string `json:"fail"`
}

type httpCall struct {
	k, from       int
	fail          string
	method, uri   string
	body          string
	ops           [][]any
	direct, share bool
	forward       bool // its headers are those of the request being handled
	conc          bool
	kids          []*httpCall
	given         appdash.SpanID
	how           string
	viaName       bool
	ctxSpan       appdash.SpanID
	arrived       bool
	route, user   string
	t             [6]time.Time // begun, below the transport, back; arrived, in the handler, out of it
	cancel        func()       // asks for the call to be cancelled
}

type httpRun struct {
	mu    sync.Mutex
	rec   *Rec
	r     *rand.Rand
	calls []*httpCall // in order of k; k is given out when a call begins
	base  http.RoundTripper
	url   string
	wg    sync.WaitGroup
	conf  *httptrace.MiddlewareConfig
	root  appdash.SpanID
	mw    func(http.ResponseWriter, *http.Request, http.HandlerFunc)
	start time.Time
	stop  map[*http.Request]chan bool
}

func (x *httpRun) mark(c *httpCall, i int) {
	x.mu.Lock()
	c.t[i] = time.Now().Round(0)
	x.mu.Unlock()
}

// CancelRequest is the transport's below the traced one.
func (x *httpRun) CancelRequest(req *http.Request) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if ch := x.stop[req]; ch != nil {
		close(ch)
		delete(x.stop, req)
	} else {
		x.rec.add(Ev{"op": "another request was cancelled"})
	}
}

// httpEsc is s in ASCII.
func httpEsc(s string) string {
	q := strconv.QuoteToASCII(s)
	return q[1 : len(q)-1]
}

func idEv(id appdash.SpanID) Ev {
	h := func(v appdash.ID) string { return strconv.FormatUint(uint64(v), 16) }
	return Ev{"t": h(id.Trace), "s": h(id.Span), "p": h(id.Parent)}
}

var noID = Ev{"t": "none", "s": "none", "p": "none"}

func (x *httpRun) add(e Ev) {
	x.mu.Lock()
	x.rec.add(e)
	x.mu.Unlock()
}

func (x *httpRun) of(q *http.Request) *httpCall {
	k, _ := strconv.Atoi(q.Header.Get("X-Call"))
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.calls[k-1]
}

func (x *httpRun) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.r.Intn(n)
}

// Collect logs a collected span.
func (x *httpRun) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	m := map[string]string{}
	dup := false
	for _, a := range as {
		_, d := m[a.Key]
		dup = dup || d
		m[a.Key] = string(a.Value)
	}
	ev := Ev{"op": "col", "id": idEv(id), "side": "?", "k": 0}
	_, isC := m["_schema:HTTPClient"]
	_, isS := m["_schema:HTTPServer"]
	side := ""
	switch {
	case isC && !isS:
		ev["side"], side = "c", "Client"
	case isS && !isC:
		ev["side"], side = "s", "Server"
	case !isC && !isS && m["Name"] == "outermost":
		ev["side"] = "r"
	}
	if dup {
		ev["side"] = "duplicate keys"
	}
	if side != "" {
		num := func(k string) int {
			n, err := strconv.Atoi(m[k])
			if err != nil {
				return -999
			}
			return n
		}
		ev["k"] = num(side + ".Request.Headers.X-Call")
		meth := m[side+".Request.Method"]
		if meth == "" {
			meth = "GET"
		}
		ev["method"] = meth
		ev["name"] = httpEsc(m["Name"])
		ev["uri"] = m[side+".Request.URI"]
		ev["rlen"] = num(side + ".Request.ContentLength")
		ev["status"] = num(side + ".Response.StatusCode")
		ev["len"] = num(side + ".Response.ContentLength")
		ev["route"], ev["user"] = m["Server.Route"], m["Server.User"]
		times := []time.Time{}
		at := func(k string) time.Time {
			t, err := time.Parse(time.RFC3339Nano, m[k])
			if err != nil {
				return time.Time{}
			}
			return t
		}
		x.mu.Lock()
		if k := ev["k"].(int); k >= 1 && k <= len(x.calls) {
			t := x.calls[k-1].t
			if side == "Client" {
				times = []time.Time{t[0], at("Client.Send"), t[1], t[2], at("Client.Recv"), time.Now()}
			} else {
				times = []time.Time{t[3], at("Server.Recv"), t[4], t[5], at("Server.Send"), time.Now()}
			}
		}
		x.mu.Unlock()
		us := []int{}
		for _, t := range times {
			d := t.Sub(x.start) / time.Microsecond
			if d < -1 || d > 1<<30 {
				d = -1
			}
			us = append(us, int(d))
		}
		ev["times"] = us
	}
	x.add(ev)
	return nil
}

// RoundTrip is the transport below the traced one.
func (x *httpRun) RoundTrip(req *http.Request) (*http.Response, error) {
	k, _ := strconv.Atoi(req.Header.Get("X-Call"))
	x.mu.Lock()
	c := x.calls[k-1]
	x.mu.Unlock()
	x.mark(c, 1)
	fail := func() (*http.Response, error) {
		x.mark(c, 2)
		x.add(Ev{"op": "raw", "k": k, "status": -1, "len": 0})
		return nil, errors.New("transport failure")
	}
	if c.fail == "before" {
		return fail()
	}
	if c.fail == "cancel" {
		ch := make(chan bool)
		x.mu.Lock()
		x.stop[req] = ch
		x.mu.Unlock()
		c.cancel()
		select {
		case <-ch:
			return fail()
		case <-time.After(5 * time.Second):
			x.add(Ev{"op": "the request was not cancelled", "k": k})
			return fail()
		}
	}
	x.wg.Add(1)
	resp, err := x.base.RoundTrip(req)
	x.mark(c, 2)
	if err != nil {
		x.add(Ev{"op": "raw error " + err.Error(), "k": k})
		time.Sleep(200 * time.Millisecond)
		x.mu.Lock()
		if !c.arrived {
			x.wg.Done()
		}
		x.mu.Unlock()
		return nil, err
	}
	if c.fail == "after" {
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		return fail()
	}
	x.add(Ev{"op": "raw", "k": k, "status": resp.StatusCode, "len": resp.ContentLength})
	return resp, nil
}

// ServeHTTP is the traced server.
func (x *httpRun) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	defer x.wg.Done()
	k, _ := strconv.Atoi(r.Header.Get("X-Call"))
	x.mu.Lock()
	c := x.calls[k-1]
	c.arrived = true
	x.mu.Unlock()
	x.mark(c, 3)
	hdr := noID
	if s := r.Header.Get("Span-ID"); s != "" {
		if id, err := appdash.ParseSpanID(s); err == nil {
			hdr = idEv(*id)
		}
	}
	x.add(Ev{"op": "arrive", "k": k, "hdr": hdr, "method": r.Method, "uri": r.RequestURI})
	msg := guard(func() {
		x.mw(w, r, func(w http.ResponseWriter, r *http.Request) { x.handle(c, w, r) })
	})
	if msg != "" {
		x.add(Ev{"op": "middleware " + msg, "k": k})
	}
}

func (x *httpRun) handle(c *httpCall, w http.ResponseWriter, r *http.Request) {
	x.mark(c, 4)
	defer x.mark(c, 5)
	var id appdash.SpanID
	if x.conf.SetContextSpan == nil {
		id = httptrace.SpanID(r)
	} else {
		x.mu.Lock()
		id = c.ctxSpan
		x.mu.Unlock()
	}
	x.add(Ev{"op": "see", "k": c.k, "id": idEv(id)})
	io.Copy(io.Discard, r.Body)
	x.callAll(c.k, id, c.kids, c.share, c.conc, r.Header)
	// logged before: a response may reach the caller before the handler returns
	x.add(Ev{"op": "served", "k": c.k, "ops": c.ops})
	for _, o := range c.ops {
		n := int(o[1].(float64))
		body := strings.Repeat("x", n)
		switch o[0].(string) {
		case "H":
			w.WriteHeader(n)
		case "F":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			} else {
				x.add(Ev{"op": "no flusher"})
			}
		case "L":
			w.Header().Set("Content-Length", fmt.Sprint(n))
		case "W":
			switch x.intn(3) {
			case 0:
				w.Write([]byte(body))
			case 1:
				io.WriteString(w, body)
			default:
				if n == 0 {
					w.Write(nil)
				} else {
					io.Copy(w, strings.NewReader(body))
				}
			}
		}
	}
}

func (x *httpRun) callAll(from int, id appdash.SpanID, kids []*httpCall, share, conc bool, in http.Header) {
	mk := func() *httptrace.Transport {
		t := &httptrace.Transport{Recorder: appdash.NewRecorder(id, x), Transport: x, SetName: x.intn(2) == 0}
		if x.intn(3) == 0 {
			t.Transport = nil // the default one
		}
		return t
	}
	tr := mk()
	var wg sync.WaitGroup
	for _, c := range kids {
		c := c
		t := tr
		if !share {
			t = mk()
		}
		f := func() { x.call(from, c, t, true, in) }
		if conc {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		} else {
			f()
		}
	}
	wg.Wait()
}

type reqSnap struct {
	r    http.Request
	hdr  http.Header
	url  string
	form string
}

func snap(r *http.Request) reqSnap {
	return reqSnap{r: *r, hdr: r.Header.Clone(), url: r.URL.String()}
}

func (s reqSnap) same(r *http.Request) bool {
	return reflect.DeepEqual(s.hdr, r.Header) && s.url == r.URL.String() && s.r.URL == r.URL && s.r.Method == r.Method &&
		s.r.Host == r.Host && s.r.ContentLength == r.ContentLength && s.r.Body == r.Body && reflect.DeepEqual(s.r.Trailer, r.Trailer) &&
		reflect.DeepEqual(s.r.TransferEncoding, r.TransferEncoding) && s.r.Close == r.Close && s.r.Proto == r.Proto &&
		s.r.RequestURI == r.RequestURI && s.r.RemoteAddr == r.RemoteAddr && s.r.Context() == r.Context()
}

func (x *httpRun) call(from int, c *httpCall, rt http.RoundTripper, traced bool, in http.Header) {
	var body io.Reader
	if c.body != "" {
		body = strings.NewReader(c.body)
	}
	req, err := http.NewRequest(c.method, x.url+c.uri, body)
	if err != nil {
		panic(err)
	}
	if c.method == "GET" && x.intn(4) == 0 {
		req.Method = ""
	}
	if c.forward && in != nil {
		req.Header = in.Clone()
	}
	path := req.URL.Path
	if path == "" {
		path = "/"
	}
	named := false
	if t, ok := rt.(*httptrace.Transport); ok {
		named = t.SetName
	}
	given := Ev{"kind": c.how, "id": idEv(c.given)}
	x.mu.Lock()
	x.calls = append(x.calls, c)
	c.k, c.from = len(x.calls), from
	x.rec.add(Ev{"op": "call", "k": c.k, "from": from, "method": c.method, "uri": req.URL.RequestURI(), "rlen": len(c.body), "traced": traced, "given": given, "route": c.route, "user": c.user,
		"path": httpEsc(path), "named": named})
	c.t[0] = time.Now().Round(0)
	x.mu.Unlock()
	req.Header.Set("X-Call", fmt.Sprint(c.k))
	req.Header["X-Multi"] = append(make([]string, 0, 4), "a", "b")
	switch c.how {
	case "span":
		req.Header.Set("Span-ID", c.given.String())
	case "parent":
		req.Header.Set("Parent-Span-ID", c.given.String())
	}
	c.cancel = func() {
		go rt.(interface{ CancelRequest(*http.Request) }).CancelRequest(req)
	}
	before := snap(req)
	var resp *http.Response
	msg := guard(func() {
		if c.direct || c.fail == "cancel" {
			resp, err = rt.RoundTrip(req)
		} else {
			resp, err = (&http.Client{Transport: rt}).Do(req)
		}
	})
	if msg != "" {
		x.add(Ev{"op": "round trip " + msg, "k": c.k})
		return
	}
	if t, ok := rt.(*httptrace.Transport); ok && x.intn(3) == 0 {
		t.CancelRequest(req) // it is over: there is nothing to cancel
	}
	got := Ev{"op": "got", "k": c.k, "ok": err == nil, "status": 0, "len": 0, "intact": before.same(req)}
	if err == nil {
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			got["op"] = "read " + err.Error()
		}
		resp.Body.Close()
		got["status"], got["len"] = resp.StatusCode, len(b)
	}
	x.add(got)
}

var httpURIs = []string{"/", "/a/b", "/a?x=1&y=%20", "/%2Fx", "//dbl", "/sp%20ace/", "?q", "/%C3%A9?%zz", "/a;b", "/x?", ""}

func randOps(r *rand.Rand) [][]any {
	ops := [][]any{}
	for k := r.Intn(5); k > 0; k-- {
		switch r.Intn(5) {
		case 0, 1:
			ops = append(ops, []any{"H", float64([]int{200, 201, 204, 400, 404, 500, 503, 103, 100, 102, 101}[r.Intn(11)])})
		case 2:
			ops = append(ops, []any{"F", 0.0})
		default:
			ops = append(ops, []any{"W", float64([]int{0, 1, 100, 2047, 2048, 2049, 5000, 70000}[r.Intn(8)])})
			if r.Intn(100) == 0 {
				ops[len(ops)-1][1] = float64(5<<20 + 1)
			}
		}
	}
	if len(ops) == 0 && r.Intn(2) == 0 { // a declared length, exceeded
		n := float64(1 + r.Intn(50))
		ops = [][]any{{"L", n}, {"W", n}, {"W", 3.0}}
	}
	return ops
}

// pipeListener accepts connections that are made in memory.
type pipeListener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "pipe"} }

func (l *pipeListener) dial(context.Context, string, string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.conns <- b:
		return a, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// httpBed is an HTTP server and a transport to it, with a new connection
// for every request.
type httpBed struct {
	ln  *pipeListener
	srv *http.Server
	tr  *http.Transport
	mu  sync.Mutex
	cur http.Handler
}

func newHTTPBed() *httpBed {
	b := &httpBed{ln: &pipeListener{conns: make(chan net.Conn), done: make(chan struct{})}}
	b.srv = &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b.mu.Lock()
		x := b.cur
		b.mu.Unlock()
		x.ServeHTTP(w, r)
	})}
	b.tr = &http.Transport{DialContext: b.ln.dial, DisableKeepAlives: true}
	go b.srv.Serve(b.ln)
	return b
}

func (b *httpBed) close() { b.srv.Close() }

func (b *httpBed) use(h http.Handler) {
	b.mu.Lock()
	b.cur = h
	b.mu.Unlock()
}

func (b *httpBed) run(e *env, name string, p httpProg, r *rand.Rand) {
	defer e.begin(p)()
	begun := time.Now()
	x := &httpRun{rec: newRec(name), r: r, base: b.tr, url: "http://bed.example", conf: &httptrace.MiddlewareConfig{},
		start: begun.Round(0), stop: map[*http.Request]chan bool{}}
	if r.Intn(3) == 0 {
		x.conf.SetContextSpan = func(q *http.Request, id appdash.SpanID) {
			k, _ := strconv.Atoi(q.Header.Get("X-Call"))
			x.mu.Lock()
			x.calls[k-1].ctxSpan = id
			x.mu.Unlock()
		}
	}
	named := r.Intn(3)
	if named == 0 {
		x.conf.RouteName = func(q *http.Request) string { return x.of(q).route }
		x.conf.CurrentUser = func(q *http.Request) string { return x.of(q).user }
	}
	x.mw = httptrace.Middleware(x, x.conf)
	b.use(x)
	http.DefaultTransport = x
	nodes := []*httpCall{{share: r.Intn(2) == 0, conc: r.Intn(2) == 0}}
	for _, pc := range p.Calls {
		c := &httpCall{fail: pc.Fail, method: p.Meth, ops: p.Ops, uri: httpURIs[r.Intn(len(httpURIs))], share: r.Intn(2) == 0,
			conc: r.Intn(2) == 0, direct: r.Intn(2) == 0, how: "none", forward: r.Intn(3) == 0}
		if named == 0 {
			c.route, c.user = fmt.Sprintf("route %d", len(nodes)), fmt.Sprintf("user %d", r.Intn(3))
		}
		if p.Meth == "" {
			c.method = []string{"GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH"}[r.Intn(7)]
		}
		if c.method == "POST" || c.method == "PUT" {
			c.body = strings.Repeat("b", r.Intn(20))
			if r.Intn(60) == 0 {
				c.body = strings.Repeat("b", 3<<20+r.Intn(3))
			}
		}
		if p.Ops == nil {
			c.ops = randOps(r)
		}
		nodes = append(nodes, c)
		nodes[pc.Up].kids = append(nodes[pc.Up].kids, c)
	}
	if p.Root == "rec" {
		id := oneSpan(r)
		if r.Intn(2) == 0 || id.Span == 0 || id.Span == id.Parent {
			id = appdash.NewRootSpanID()
		}
		rc := appdash.NewRecorder(id, x)
		x.add(Ev{"op": "open", "id": idEv(id)})
		rc.Name("outermost")
		if r.Intn(2) == 0 { // the recorder itself is the transport's
			tr := &httptrace.Transport{Recorder: rc, Transport: x}
			for _, c := range nodes[0].kids {
				x.call(0, c, tr, true, nil)
			}
		} else {
			x.callAll(0, id, nodes[0].kids, nodes[0].share, nodes[0].conc, nil)
		}
		rc.Finish()
	} else {
		c := nodes[0].kids[0]
		c.how = p.Root
		c.given = appdash.SpanID{Trace: appdash.ID(r.Uint64()), Span: appdash.ID(r.Uint64()), Parent: appdash.ID(r.Uint64() * uint64(r.Intn(2)))}
		x.call(-1, c, x, false, nil)
	}
	x.wg.Wait()
	x.add(Ev{"op": "end"})
	if d := time.Since(begun) - time.Now().Round(0).Sub(begun.Round(0)); d < -100*time.Microsecond || d > 100*time.Microsecond {
		for _, ev := range x.rec.Ev { // somebody set the clock
			if ev["times"] != nil {
				ev["times"] = make([]int, 6)
			}
		}
	}
	e.emit(x.rec)
}

func driveHTTP(e *env) {
	r := e.rng("http")
	b := newHTTPBed()
	defer b.close()
	for i, s := range e.stim {
		var p httpProg
		if err := json.Unmarshal(s, &p); err != nil {
			panic(err)
		}
		if len(p.Ops) == 0 && p.Meth == "" {
			p.Ops = nil
		}
		b.run(e, fmt.Sprintf("gen-%d", i), p, rand.New(rand.NewSource(r.Int63())))
	}
	for i := 0; i < e.n; i++ {
		p := httpProg{Root: []string{"rec", "rec", "none", "span", "parent"}[r.Intn(5)]}
		for k := 1 + r.Intn(9); k > 0; k-- {
			c := hcall{Fail: []string{"no", "no", "no", "before", "after", "cancel"}[r.Intn(6)]}
			var ok []int
			if p.Root == "rec" {
				ok = append(ok, 0)
			}
			for j, q := range p.Calls {
				if q.Fail != "before" && q.Fail != "cancel" {
					ok = append(ok, j+1)
				}
			}
			if len(p.Calls) == 0 {
				ok = []int{0}
				if p.Root != "rec" {
					c.Fail = "no"
				}
			}
			if len(ok) == 0 {
				break
			}
			c.Up = ok[r.Intn(len(ok))]
			p.Calls = append(p.Calls, c)
		}
		b.run(e, fmt.Sprintf("rand-%d", i), p, rand.New(rand.NewSource(r.Int63())))
	}
}
