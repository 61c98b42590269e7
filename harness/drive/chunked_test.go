package drive

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	drivers["chunked"] = driveChunked
	drivers["chunkedrace"] = driveChunkedRace
}

type chOp struct {
	Op string `json:"op"`
	S  int    `json:"s"` // span
	Z  int    `json:"z"` // size of the values
	W  int    `json:"w"` // wait before
	N  int    `json:"n"` // number of annotations
}

type chCfg struct {
	Interval, Timeout, Max int
	OnFlush, Log           bool
	Dur                    []int // of the underlying calls, in turn
	Err                    []bool
}

var markRE = regexp.MustCompile(`E\d+e`)

// marks lists the errors that an error is made of.
func marks(err error) []string {
	out := []string{}
	if err == nil {
		return out
	}
	s := err.Error()
	seen := map[string]bool{}
	for _, m := range markRE.FindAllString(s, -1) {
		if !seen[m] {
			out = append(out, m)
		}
		seen[m] = true
	}
	if strings.Contains(s, appdash.ErrQueueDropped.Error()) {
		out = append(out, "dropped")
	}
	if len(out) == 0 {
		if strings.Contains(s, "stop") {
			out = append(out, "stopped")
		} else {
			out = append(out, "other: "+short(s))
		}
	}
	return out
}

// chRun is one run of the chunked collector.
type chRun struct {
	mu    sync.Mutex
	rec   *Rec
	start time.Time
	cfg   chCfg
	cc    *appdash.ChunkedCollector
	nu    int // underlying calls
	ncall int
	nann  int
	spans []appdash.SpanID
	vals  map[int]appdash.Annotation
}

func (x *chRun) now() int { return int(time.Since(x.start) / tick) }

func (x *chRun) add(e Ev) {
	x.mu.Lock()
	e["now"] = x.now()
	x.rec.add(e)
	x.mu.Unlock()
}

// nums gives the numbers of annotations, -1 for one that was not given.
func (x *chRun) nums(as []appdash.Annotation) []int {
	out := []int{}
	for _, a := range as {
		var n int
		fmt.Sscanf(a.Key, "k%d", &n)
		v, ok := x.vals[n]
		if !ok || v.Key != a.Key || !bytes.Equal(v.Value, a.Value) {
			n = -1
		}
		out = append(out, n)
	}
	return out
}

func (x *chRun) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	label := 0
	for i, s := range x.spans {
		if s == id {
			label = i
		}
	}
	x.mu.Lock()
	k := x.nu
	x.nu++
	x.rec.add(Ev{"op": "u+", "span": label, "anns": x.nums(as), "now": x.now()})
	x.mu.Unlock()
	if d := x.cfg.Dur[k%len(x.cfg.Dur)]; d > 0 {
		time.Sleep(time.Duration(d) * tick)
	}
	if x.cfg.Err[k%len(x.cfg.Err)] {
		m := fmt.Sprintf("E%de", k)
		x.add(Ev{"op": "u-", "span": label, "err": m})
		return fmt.Errorf("underlying error %s", m)
	}
	x.add(Ev{"op": "u-", "span": label, "err": ""})
	return nil
}

func (x *chRun) do(o chOp, r *rand.Rand) {
	if o.W > 0 {
		time.Sleep(time.Duration(o.W) * tick)
	}
	x.mu.Lock()
	x.ncall++
	i := x.ncall
	x.mu.Unlock()
	switch o.Op {
	case "C":
		as := make([]appdash.Annotation, 0, o.N+r.Intn(3))
		size := 24
		ns := []int{}
		x.mu.Lock()
		for j := 0; j < o.N; j++ {
			x.nann++
			a := appdash.Annotation{Key: fmt.Sprintf("k%d", x.nann), Value: bytes.Repeat([]byte{byte(r.Intn(256))}, o.Z)}
			x.vals[x.nann] = appdash.Annotation{Key: a.Key, Value: append([]byte{}, a.Value...)}
			as = append(as, a)
			ns = append(ns, x.nann)
			size += len(a.Key) + len(a.Value)
		}
		x.mu.Unlock()
		x.add(Ev{"op": "cc", "i": i, "span": o.S, "anns": ns, "size": size})
		err := x.cc.Collect(x.spans[o.S], as...)
		x.add(Ev{"op": "cr", "i": i, "errs": marks(err)})
		// The slice is ours again.
		switch r.Intn(3) {
		case 0:
			for j := range as {
				as[j] = appdash.Annotation{Key: "scribbled"}
			}
		case 1:
			_ = append(as, appdash.Annotation{Key: "appended"}, appdash.Annotation{Key: "appended"})
		}
	case "F":
		x.add(Ev{"op": "f+", "i": i})
		err := x.cc.Flush()
		x.add(Ev{"op": "f-", "i": i, "errs": marks(err)})
	case "S":
		x.add(Ev{"op": "s+", "i": i})
		x.cc.Stop()
		x.add(Ev{"op": "s-", "i": i})
	}
}

func (e *env) chunkedRun(name string, cfg chCfg, threads [][]chOp, r *rand.Rand) {
	rec := newRec(name)
	rec.Cfg = Ev{"interval": cfg.Interval, "timeout": cfg.Timeout, "max": cfg.Max, "onflush": cfg.OnFlush}
	x := &chRun{rec: rec, cfg: cfg, vals: map[int]appdash.Annotation{}}
	x.spans = []appdash.SpanID{{}, {Trace: 1, Span: 2, Parent: 3}, {Trace: 1, Span: 2, Parent: 4}, {Trace: 2, Span: 2, Parent: 3}, {Trace: 0, Span: 0, Parent: 1}}
	for i := 5; i <= 200; i++ {
		x.spans = append(x.spans, appdash.SpanID{Trace: appdash.ID(i % 3), Span: appdash.ID(i), Parent: appdash.ID(i % 2)})
	}
	defer e.begin(Ev{"cfg": cfg, "threads": threads})()
	seeds := make([]int64, len(threads))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	panicked := false
	e.bubble(func() {
		x.start = time.Now()
		x.cc = &appdash.ChunkedCollector{Collector: x, MinInterval: time.Duration(cfg.Interval) * tick,
			FlushTimeout: time.Duration(cfg.Timeout) * tick, MaxQueueSize: uint64(cfg.Max)}
		if cfg.Log {
			x.cc.Log = log.New(io.Discard, "", 0)
		}
		if cfg.OnFlush {
			x.cc.OnFlush = func(n int) { x.add(Ev{"op": "of", "n": n}) }
		}
		var wg sync.WaitGroup
		for th, ops := range threads {
			wg.Add(1)
			th, ops := th, ops
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seeds[th]))
				for _, o := range ops {
					if msg := guard(func() { x.do(o, r) }); msg != "" {
						x.add(Ev{"op": "X", "msg": msg})
						panicked = true
						break
					}
				}
			}()
		}
		wg.Wait()
		if !panicked {
			// Let everything be flushed, then stop.
			for i := 0; i < 1000; i++ { // until nothing happens for an interval
				synctest.Wait()
				busy, n := x.calls()
				time.Sleep(time.Duration(cfg.Interval+1) * tick)
				synctest.Wait()
				if _, m := x.calls(); busy == 0 && n == m {
					break
				}
			}
			x.add(Ev{"op": "z"})
		}
		guard(x.cc.Stop)
		// A flush that is under way may go on.
		n := len(rec.Ev)
		time.Sleep(time.Duration(cfg.Interval+1) * tick)
		synctest.Wait()
		for i := 0; i < 10000; i++ {
			if busy, _ := x.calls(); busy == 0 {
				break
			}
			time.Sleep(tick)
			synctest.Wait()
		}
		rec.Ev = rec.Ev[:n]
	})
	e.emit(rec)
}

// calls counts the underlying calls: those that are running now, and all.
func (x *chRun) calls() (running, all int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, e := range x.rec.Ev {
		switch e["op"] {
		case "u+":
			running++
		case "u-":
			running--
		}
	}
	return running, x.nu
}

func randChCfg(r *rand.Rand, mode string) chCfg {
	cfg := chCfg{Interval: []int{10, 10, 5, 25}[r.Intn(4)], OnFlush: r.Intn(4) > 0, Log: r.Intn(2) == 0}
	for i := 0; i < 1+r.Intn(7); i++ {
		cfg.Dur = append(cfg.Dur, []int{0, 0, 1, 3, 8, 15}[r.Intn(6)])
	}
	for i := 0; i < 1+r.Intn(7); i++ {
		cfg.Err = append(cfg.Err, false)
	}
	switch mode {
	case "c10":
		cfg.Timeout = []int{0, 1000000}[r.Intn(2)]
		cfg.Max = []int{0, 1 << 30}[r.Intn(2)]
		for i := range cfg.Err {
			cfg.Err[i] = r.Intn(4) == 0
		}
	case "c11":
		cfg.Timeout = []int{0, 1, 3, 4, 9}[r.Intn(5)]
		cfg.Max = []int{0, 24, 26, 50, 52, 80, 130}[r.Intn(7)]
	case "c12":
		cfg.Timeout = []int{0, 0, 4, 1000000}[r.Intn(4)]
		cfg.Max = []int{0, 0, 80}[r.Intn(3)]
		for i := range cfg.Err {
			cfg.Err[i] = r.Intn(2) == 0
		}
	}
	return cfg
}

func driveChunked(e *env) {
	r := e.rng("chunked" + e.mode)
	for _, s := range e.stim {
		var ops []chOp
		if err := json.Unmarshal(s, &ops); err != nil {
			e.t.Fatal(err)
		}
		e.chunkedRun("seq", randChCfg(r, e.mode), [][]chOp{ops}, r)
	}
	// many spans, or many annotations of a span, in one flush
	for i := 0; i < 3+e.n/1000; i++ {
		cfg := randChCfg(r, e.mode)
		if e.mode == "c11" {
			cfg.Max = []int{0, 2000, 4000}[i%3]
		}
		var ops []chOp
		n := 60 + r.Intn(90)
		for j := 0; j < n; j++ {
			o := chOp{Op: "C", S: 1 + j, N: 1, Z: r.Intn(10)}
			if r.Intn(4) == 0 {
				o.S = 1 + r.Intn(n)
			}
			if r.Intn(10) == 0 {
				o.N = r.Intn(70)
			}
			ops = append(ops, o)
		}
		if i%3 == 2 { // large values
			cfg.Max = cfg.Max * 500 * (1 + r.Intn(4))
			for j := range ops {
				ops[j].Z = []int{3, 65535, 65536, 70000, 300000}[r.Intn(5)]
				ops[j].N %= 4
			}
		}
		if r.Intn(2) == 0 {
			ops = append(ops, chOp{Op: "F"})
		}
		ops = append(ops, chOp{Op: "C", S: 3, N: 2, W: 30})
		e.chunkedRun("bulk", cfg, [][]chOp{ops}, r)
	}
	for i := 0; i < e.n; i++ {
		cfg := randChCfg(r, e.mode)
		var threads [][]chOp
		for th := 0; th < 2+r.Intn(2); th++ {
			var ops []chOp
			for j := 0; j < 2+r.Intn(4); j++ {
				o := chOp{Op: "C", S: 1 + r.Intn(4), Z: []int{0, 1, 5, 20}[r.Intn(4)], W: []int{0, 0, 0, 1, 5, 10}[r.Intn(6)], N: r.Intn(4)}
				if r.Intn(4) == 0 {
					o.Op = "F"
				}
				if e.mode == "c12" && r.Intn(12) == 0 {
					o.Op = "S"
				}
				ops = append(ops, o)
			}
			threads = append(threads, ops)
		}
		e.chunkedRun("conc", cfg, threads, r)
	}
}

// driveChunkedRace runs many callers in real time, for the race detector and
// for the account of what was passed on.
func driveChunkedRace(e *env) {
	r := e.rng("chunkedrace")
	for i := 0; i < 3; i++ { // one large flush
		stop := e.begin(Ev{"large": i})
		got, calls, want := map[string]int{}, 0, 0
		var mu sync.Mutex
		cc := &appdash.ChunkedCollector{MinInterval: time.Hour, Collector: collectFunc(func(id appdash.SpanID, as ...appdash.Annotation) error {
			mu.Lock()
			defer mu.Unlock()
			calls++
			for j, a := range as {
				if i != 1 || a.Key == fmt.Sprint(j) { // in order
					got[fmt.Sprintf("%v %s", id, a.Key)]++
				}
			}
			return nil
		})}
		spans := []int{5000, 1, 70000}[i]
		for k := 0; k < []int{7000, 20000, 70000}[i]; k++ {
			if err := cc.Collect(appdash.SpanID{Trace: 1, Span: appdash.ID(1 + k%spans)}, appdash.Annotation{Key: fmt.Sprint(k), Value: []byte("v")}); err == nil {
				want++
			}
		}
		cc.Flush()
		cc.Stop()
		rec := newRec("large")
		once := 0
		for _, n := range got {
			if n == 1 {
				once++
			}
		}
		rec.add(Ev{"op": "one", "want": want, "once": once, "all": len(got), "calls": calls, "spans": spans})
		stop()
		e.emit(rec)
	}
	for i := 0; i < e.n; i++ {
		defer e.begin(Ev{"race": i})()
		var mu sync.Mutex
		got := map[string]int{}
		col := collectFunc(func(id appdash.SpanID, as ...appdash.Annotation) error {
			mu.Lock()
			defer mu.Unlock()
			for _, a := range as {
				got[fmt.Sprintf("%v %s", id, a.Key)]++
			}
			return nil
		})
		cc := &appdash.ChunkedCollector{Collector: col, MinInterval: time.Duration(1+r.Intn(300)) * time.Microsecond, MaxQueueSize: 1 << 30}
		var wg sync.WaitGroup
		want := 0
		spans := []int{5, 5, 1, 1000}[i%4]
		for g := 0; g < 6; g++ {
			n := 50 + r.Intn(100)
			want += n
			g, fl := g, r.Intn(30)
			wg.Add(1)
			go func() {
				defer wg.Done()
				buf := make([]appdash.Annotation, 0, 4)
				for k := 0; k < n; k++ {
					as := append(buf, appdash.Annotation{Key: fmt.Sprintf("%d-%d", g, k), Value: []byte("v")})
					cc.Collect(appdash.SpanID{Trace: appdash.ID(k % 3), Span: appdash.ID(k % spans)}, as...)
					if k%30 == fl {
						cc.Flush()
					}
				}
			}()
		}
		wg.Wait()
		rec := newRec("race")
		cc.Flush()
		// A timed flush may be under way; on a busy machine it takes its time.
		for t := time.Now(); time.Since(t) < 20*time.Second; {
			time.Sleep(2 * time.Millisecond)
			mu.Lock()
			n := len(got)
			mu.Unlock()
			if n >= want {
				break
			}
		}
		time.Sleep(2 * time.Millisecond) // for what comes twice
		cc.Stop()
		mu.Lock()
		once := 0
		for _, n := range got {
			if n == 1 {
				once++
			}
		}
		mu.Unlock()
		rec.add(Ev{"op": "sum", "want": want, "once": once, "all": len(got)})
		e.emit(rec)
	}
}

type collectFunc func(appdash.SpanID, ...appdash.Annotation) error

func (f collectFunc) Collect(id appdash.SpanID, as ...appdash.Annotation) error { return f(id, as...) }
