package drive

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["pipeline"] = drivePipeline }

type pipStep struct {
	O string `json:"o"`
	C int    `json:"c"`
	Q int    `json:"q"`
}

type pipSpan struct {
	id   appdash.SpanID
	t, s int
	p    int
}

type pipClient struct {
	col appdash.Collector
	cc  *appdash.ChunkedCollector
	rc  *appdash.RemoteCollector
}

// pipe is one deployment.
type pipe struct {
	e      *env
	mu     sync.Mutex
	r      *rand.Rand
	rec    *Rec
	addr   string
	lns    []net.Listener
	store  appdash.DeleteStore
	mem    *appdash.MemoryStore
	cl     []*pipClient
	spans  []pipSpan
	traces []appdash.ID
	tl, sl map[appdash.ID]int
	pieces int
	anns   int // annotations of the spans finished so far
	fin    map[int]bool
	fl     int
	tls    bool
}

func (x *pipe) log(ev Ev) {
	x.mu.Lock()
	x.rec.add(ev)
	x.mu.Unlock()
}

func (x *pipe) intn(n int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.r.Intn(n)
}

func newPipe(e *env, name string, r *rand.Rand, clients int, faults, timed bool) *pipe {
	x := &pipe{e: e, r: rand.New(rand.NewSource(r.Int63())), rec: newRec(name), tl: map[appdash.ID]int{}, sl: map[appdash.ID]int{0: 0}, fin: map[int]bool{}, tls: r.Intn(4) == 0}
	x.mem = appdash.NewMemoryStore()
	switch r.Intn(3) {
	case 0:
		x.store = x.mem
	case 1:
		x.store = &appdash.RecentStore{MinEvictAge: time.Hour, DeleteStore: x.mem}
	default:
		x.store = &appdash.LimitStore{Max: 1000, DeleteStore: x.mem}
	}
	if faults {
		x.addr = freeAddr()
	} else {
		x.serve()
	}
	direct := []int{}
	for c := 1; c <= clients; c++ {
		cl := &pipClient{rc: newRemote(x.addr, x.tls, r.Intn(8) == 0)}
		cl.col = cl.rc
		if !faults && r.Intn(4) == 0 {
			direct = append(direct, c)
		} else {
			cl.cc = appdash.NewChunkedCollector(cl.rc)
			cl.cc.Log = log.New(io.Discard, "", 0)
			cl.cc.FlushTimeout = 0
			cl.cc.MinInterval = time.Hour
			if timed && r.Intn(2) == 0 {
				cl.cc.MinInterval = time.Duration(20+r.Intn(3000)) * time.Microsecond
			}
			cl.col = cl.cc
		}
		x.cl = append(x.cl, cl)
	}
	x.rec.Cfg = Ev{"direct": direct, "faults": faults}
	return x
}

// serve starts the collection server; false if its address is taken.
func (x *pipe) serve() bool {
	var ln *foreverListener
	if x.addr == "" {
		ln = listenLocal()
		x.addr = ln.Addr().String()
	} else {
		l, err := net.Listen("tcp", x.addr)
		if err != nil {
			return false
		}
		ln = &foreverListener{Listener: l, done: make(chan struct{})}
	}
	x.lns = append(x.lns, ln)
	var l net.Listener = ln
	if x.tls {
		l = &foreverListener{Listener: tls.NewListener(ln.Listener, tlsServer), done: ln.done}
	}
	srv := appdash.NewServer(l, appdash.NewLocalCollector(x.store))
	srv.Log = log.New(io.Discard, "", 0)
	go srv.Start()
	return true
}

// span makes a new span below the q-th one (0: a root), or gives the -q-th.
func (x *pipe) span(q int) pipSpan {
	x.mu.Lock()
	defer x.mu.Unlock()
	if q < 0 {
		return x.spans[-q-1]
	}
	var sp pipSpan
	if q == 0 {
		sp = pipSpan{id: appdash.NewRootSpanID(), t: len(x.traces) + 1}
		x.traces = append(x.traces, sp.id.Trace)
		x.tl[sp.id.Trace] = sp.t
	} else {
		up := x.spans[q-1]
		id := up.id
		if x.r.Intn(2) == 0 { // to another process
			got, err := appdash.ParseSpanID(id.String())
			if err != nil {
				panic(err)
			}
			id = *got
		}
		sp = pipSpan{t: up.t, p: up.s}
		if x.r.Intn(2) == 0 {
			sp.id = appdash.NewSpanID(id)
		} else {
			sp.id = appdash.NewRecorder(id, x.mem).Child().SpanID
		}
	}
	sp.s = len(x.spans) + 1
	x.sl[sp.id.Span] = sp.s
	x.spans = append(x.spans, sp)
	return sp
}

// finish records some events of a span and finishes it.
func (x *pipe) finish(c int, sp pipSpan) {
	cl := x.cl[c-1]
	rec := appdash.NewRecorder(sp.id, cl.col)
	var as []appdash.Annotation
	note := func(ev appdash.Event) {
		m, err := appdash.MarshalEvent(ev)
		if err != nil {
			panic(err)
		}
		as = append(as, m...)
	}
	x.mu.Lock()
	x.pieces++
	i := x.pieces
	x.mu.Unlock()
	for n := x.intn(4); n > 0; n-- {
		switch v := fmt.Sprintf("v%d-%d", i, x.intn(2)); x.intn(4) {
		case 0:
			rec.Name(v)
			note(appdash.SpanName(v))
		case 1:
			rec.Msg(v)
			note(appdash.Msg(v))
		case 2:
			ts := time.Unix(int64(x.intn(1<<30)), 5)
			rec.LogWithTimestamp(v, ts)
			note(appdash.LogWithTimestamp(v, ts))
		case 3:
			ev := pipEvent{K: map[string]string{v: "", "same": "same"}, N: x.intn(3)}
			rec.Event(ev)
			note(ev)
		}
	}
	x.log(Ev{"op": "fb", "i": i, "c": c, "t": sp.t, "s": sp.s, "p": sp.p, "a": annStrs(as)})
	rec.Finish()
	x.mu.Lock()
	errs := rec.Errors()
	ev := Ev{"op": "fe", "i": i, "errs": len(errs)}
	if len(errs) > 0 {
		ev["why"] = errs[0].Error()
	}
	x.rec.add(ev)
	x.anns += len(as)
	x.fin[sp.s] = true
	x.mu.Unlock()
}

type pipEvent struct {
	K map[string]string
	N int
}

func (pipEvent) Schema() string { return "pip" }

func (x *pipe) flush(c int) bool {
	if x.cl[c-1].cc == nil {
		return true
	}
	x.mu.Lock()
	x.fl++
	f := x.fl
	x.rec.add(Ev{"op": "Fb", "f": f, "c": c})
	x.mu.Unlock()
	err := x.cl[c-1].cc.Flush()
	x.log(Ev{"op": "Fe", "f": f, "err": err != nil, "why": errStr(err)})
	return err == nil
}

func (x *pipe) trace(t int) []node {
	x.mu.Lock()
	id := x.traces[t-1]
	x.mu.Unlock()
	tr, err := x.store.Trace(id)
	if err != nil {
		return []node{}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	out := []node{}
	var rec func(tr *appdash.Trace, up int)
	lab := func(m map[appdash.ID]int, id appdash.ID) int {
		if l, ok := m[id]; ok {
			return l
		}
		return -1
	}
	rec = func(tr *appdash.Trace, up int) {
		s := lab(x.sl, tr.ID.Span)
		out = append(out, node{S: s, P: lab(x.sl, tr.ID.Parent), U: up, T: lab(x.tl, tr.ID.Trace), A: annStrs(tr.Annotations)})
		for _, c := range tr.Sub {
			rec(c, s)
		}
	}
	rec(tr, 0)
	return out
}

func (x *pipe) query() {
	x.mu.Lock()
	n := len(x.traces)
	x.mu.Unlock()
	if n == 0 {
		return
	}
	t := 1 + x.intn(n)
	nodes := x.trace(t)
	x.log(Ev{"op": "q", "t": t, "n": nodes})
}

// pipMissed counts the runs that ended without everything having arrived.
var pipMissed atomic.Int32

// end flushes everything, waits until it has arrived and shows all traces.
func (x *pipe) end(lost bool) {
	for c := range x.cl {
		x.flush(c + 1)
	}
	var ts [][]node
	show := func() int {
		ts = [][]node{}
		n := 0
		for t := range x.traces {
			ts = append(ts, x.trace(t+1))
			for _, nd := range ts[t] {
				n += len(nd.A) + 1
			}
		}
		return n
	}
	last, same := -1, 0
	wait := 10 * time.Second
	if pipMissed.Load() > 1 { // something is wrong anyway
		wait = time.Second / 2
	}
	arrived := false
	for until := time.Now().Add(wait); time.Now().Before(until); time.Sleep(500 * time.Microsecond) {
		n := show()
		if n == last {
			same++
		} else {
			last, same = n, 0
		}
		if n == x.anns+len(x.fin) && same >= 2 || lost && same > 100 {
			arrived = true
			break
		}
	}
	if !arrived {
		pipMissed.Add(1)
	}
	n := 0
	if got, err := x.mem.Traces(appdash.TracesOpts{}); err == nil {
		n = len(got)
	}
	x.log(Ev{"op": "end", "ts": ts, "all": n})
	for _, cl := range x.cl {
		if cl.cc != nil {
			cl.cc.Stop()
		}
		cl.rc.Close()
	}
	for _, l := range x.lns {
		l.Close()
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.e.emit(x.rec)
}

// pipSteps runs steps one after another.
func pipSteps(e *env, name string, r *rand.Rand, steps []pipStep, faults bool) {
	defer e.begin(Ev{"name": name, "steps": steps, "faults": faults})()
	x := newPipe(e, name, r, 2, faults, !faults)
	up := !faults
	var done []pipSpan // of each finish step
	for _, s := range steps {
		switch s.O {
		case "f":
			var sp pipSpan
			switch {
			case s.Q < 0:
				sp = done[-s.Q-1]
			case s.Q > 0:
				sp = x.span(done[s.Q-1].s)
			default:
				sp = x.span(0)
			}
			x.finish(s.C, sp)
			done = append(done, sp)
		case "F":
			x.flush(s.C)
		case "q":
			x.query()
		case "U":
			if !up {
				if !x.serve() {
					return
				}
				up = true
			}
		}
	}
	if !up && !x.serve() {
		return
	}
	x.end(faults)
}

// pipConc runs clients, flushes and queries at the same time.
func pipConc(e *env, name string, r *rand.Rand) {
	defer e.begin(name)()
	x := newPipe(e, name, r, 1+r.Intn(3), false, true)
	for k := 1 + r.Intn(2); k > 0; k-- {
		x.span(0)
	}
	for k := r.Intn(4); k > 0; k-- {
		x.span(1 + r.Intn(len(x.spans)))
	}
	var wg, wq sync.WaitGroup
	stop := make(chan struct{})
	run := func(w *sync.WaitGroup, f func()) {
		w.Add(1)
		go func() { defer w.Done(); f() }()
	}
	given := len(x.spans)
	for _, i := range r.Perm(given) { // who finishes the first spans
		i, c := i, 1+r.Intn(len(x.cl))
		run(&wg, func() { x.finish(c, x.spanAt(i)) })
	}
	for k := 1 + r.Intn(5); k > 0; k-- {
		n := 1 + r.Intn(5)
		run(&wg, func() {
			for ; n > 0; n-- {
				c := 1 + x.intn(len(x.cl))
				q := 1 + x.intn(x.count())
				if x.intn(4) == 0 {
					q = -q
				}
				x.finish(c, x.span(q))
				if x.intn(5) == 0 {
					x.flush(c)
				}
			}
		})
	}
	if r.Intn(3) > 0 {
		run(&wg, func() {
			for n := x.intn(6); n > 0; n-- {
				x.flush(1 + x.intn(len(x.cl)))
			}
		})
	}
	if r.Intn(3) > 0 {
		run(&wq, func() {
			for k := 0; k < 12; k++ {
				select {
				case <-stop:
					return
				default:
					x.query()
					time.Sleep(100 * time.Microsecond)
				}
			}
		})
	}
	wg.Wait()
	close(stop)
	wq.Wait()
	x.end(false)
}

func (x *pipe) count() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.spans)
}

func (x *pipe) spanAt(i int) pipSpan {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.spans[i]
}

func drivePipeline(e *env) {
	initTLS()
	r := e.rng("pipeline" + e.mode)
	par := make(chan struct{}, 8)
	var wg sync.WaitGroup
	run := func(f func(r *rand.Rand)) {
		par <- struct{}{}
		wg.Add(1)
		r := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer func() { <-par; wg.Done() }()
			f(r)
		}()
	}
	for i, b := range e.stim {
		var steps []pipStep
		if err := json.Unmarshal(b, &steps); err != nil {
			panic(err)
		}
		faults := e.mode == "faults"
		if faults { // addresses are found one at a time
			pipSteps(e, fmt.Sprintf("pipeline-faults-%d", i), rand.New(rand.NewSource(r.Int63())), steps, true)
			continue
		}
		run(func(r *rand.Rand) { pipSteps(e, fmt.Sprintf("pipeline-%d", i), r, steps, false) })
	}
	for i := 0; i < 2 && e.n > 0; i++ { // one large trace, or many
		steps := []pipStep{}
		for k := 0; k < 300; k++ {
			s := pipStep{O: "f", C: 1 + k%2}
			if i == 0 && k > 0 {
				s.Q = 1 + r.Intn(k)
				s.C = 1
			}
			steps = append(steps, s)
		}
		run(func(r *rand.Rand) { pipSteps(e, fmt.Sprintf("pipeline-large-%d", i), r, steps, false) })
	}
	for i := 0; i < e.n; i++ {
		run(func(r *rand.Rand) { pipConc(e, fmt.Sprintf("pipeline-conc-%d", i), r) })
	}
	wg.Wait()
}
