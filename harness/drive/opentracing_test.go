package drive

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	basictracer "github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"

	"sourcegraph.com/sourcegraph/appdash"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
)

func init() { drivers["opentracing"] = driveOpenTracing }

type otOp struct {
	O string `json:"o"`
	K int    `json:"k"`
	D int    `json:"d"`
}

type otKV struct {
	K string `json:"k"`
	V string `json:"v"`
}

type otSent struct {
	ID   []int    `json:"id"`
	A    []string `json:"a"`
	L    []otMsg  `json:"l"`
	Note string   `json:"note"`
	Err  string   `json:"err"`
}

type otMsg struct {
	Msg   string `json:"msg"`
	Obj   []otKV `json:"obj"`
	IsObj bool   `json:"isobj"`
	T     string `json:"t"`
}

// otTracer is a tracer with a collector that fails as told.
type otTracer struct {
	t     ot.Tracer
	mu    sync.Mutex
	fail  func() bool
	sent  []otSent
	nfail int
	lines int
	asked []int
	dec   bool
	rec   basictracer.SpanRecorder
	ids   *otIDs
}

// otIDs numbers the IDs that come up.
type otIDs struct {
	mu sync.Mutex
	n  map[appdash.ID]int
}

func (m *otIDs) label(id appdash.ID) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	if id == 0 {
		return 0
	}
	if m.n[id] == 0 {
		m.n[id] = len(m.n) + 1
	}
	return m.n[id]
}

// Write counts the lines logged.
func (t *otTracer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.lines += bytes.Count(p, []byte{'\n'})
	return len(p), nil
}

func otTime(t time.Time) string { return strconv.FormatInt(t.UnixNano(), 10) }

func otParseTime(s string) string {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return esc(s)
	}
	return otTime(t)
}

func (t *otTracer) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := otSent{ID: []int{t.ids.label(id.Trace), t.ids.label(id.Span), t.ids.label(id.Parent)}, A: []string{}, L: []otMsg{}}
	isLog := false
	for _, a := range as {
		isLog = isLog || a.Key == "_schema:log"
	}
	var times []string
	for _, a := range as {
		switch {
		case isLog && a.Key == "_schema:log":
		case isLog && a.Key == "Time":
			times = append(times, otParseTime(string(a.Value)))
		case isLog && a.Key == "Msg":
			if strings.HasPrefix(string(a.Value), "fail-") {
				s.Note = string(a.Value)
				continue
			}
			m := otMsg{Msg: esc(string(a.Value)), Obj: []otKV{}}
			obj := map[string]string{}
			if json.Unmarshal(a.Value, &obj) == nil && obj != nil {
				m.IsObj = true
				for k, v := range obj {
					m.Obj = append(m.Obj, otKV{esc(k), otFloat(k, esc(v))})
				}
				sort.Slice(m.Obj, func(i, j int) bool { return m.Obj[i].K < m.Obj[j].K })
			}
			s.L = append(s.L, m)
		case a.Key == "Span.Start" || a.Key == "Span.End":
			s.A = append(s.A, a.Key+"="+otParseTime(string(a.Value)))
		default:
			s.A = append(s.A, esc(a.Key)+"="+esc(string(a.Value)))
		}
	}
	if s.Note == "" {
		for i := range s.L {
			if i < len(times) {
				s.L[i].T = times[i]
			}
		}
		if len(times) != len(s.L) {
			s.A = append(s.A, "unpaired log times")
		}
	}
	var err error
	if t.fail() {
		t.nfail++
		s.Err = fmt.Sprintf("fail-%d", t.nfail)
		err = errors.New(s.Err)
	}
	t.sent = append(t.sent, s)
	return err
}

// otFloat rounds the text of a floating-point field.
func otFloat(k, v string) string {
	if f, err := strconv.ParseFloat(v, 64); strings.HasPrefix(k, "float") && err == nil {
		return fmt.Sprintf("%.6f", f)
	}
	return v
}

type otRun struct {
	rec    *Rec
	r      *rand.Rand
	m      *otIDs
	ts     []*otTracer
	spans  []ot.Span
	tracer []int
	ctxs   []ot.SpanContext
	done   map[int]bool
}

func (x *otRun) texts() string {
	return pick(x.r, "", "v", "a=b", "é", "two words", "<tag&>", `{"a":"b"}`, "x\ny", "true", "1")
}

// tag makes a tag and says what its text is.
func (x *otRun) tag() (string, any, string) {
	k := pick(x.r, "tag", "t1", "t2", "Tag", "http.url", "sampling.priority", "component", "", "k.k")
	switch x.r.Intn(9) {
	case 0:
		v := x.r.Intn(2) == 0
		return k, v, strconv.FormatBool(v)
	case 1:
		v := x.r.Int63() - x.r.Int63()
		return k, v, strconv.FormatInt(v, 10)
	case 2:
		return k, nil, "<nil>"
	case 3:
		return k, []string{"a", "b"}, "[a b]"
	case 4:
		return k, struct {
			A int
			B *int
		}{A: 1}, "{A:1 B:<nil>}"
	case 5:
		return k, errors.New("bad"), "bad"
	case 6:
		return k, 500 * time.Microsecond, "500µs"
	}
	v := x.texts()
	return k, v, v
}

// field makes a log field and says what it is recorded as.
func (x *otRun) field() (otlog.Field, []otKV) {
	k := pick(x.r, "event", "event", "a", "b", "c.d", "message", "Event")
	one := func(f otlog.Field, k, v string) (otlog.Field, []otKV) { return f, []otKV{{esc(k), otFloat(k, esc(v))}} }
	switch x.r.Intn(14) {
	case 0:
		v := x.r.Intn(2) == 0
		return one(otlog.Bool(k, v), k, strconv.FormatBool(v))
	case 1:
		v := int(x.r.Int63()) - 5
		return one(otlog.Int(k, v), k, strconv.Itoa(v))
	case 2:
		v := -int32(x.r.Int31())
		return one(otlog.Int32(k, v), k, strconv.Itoa(int(v)))
	case 3:
		v := pick(x.r, -1<<63, 1<<63-1, x.r.Int63())
		return one(otlog.Int64(k, v), k, strconv.FormatInt(v, 10))
	case 4:
		v := uint32(x.r.Int63())
		return one(otlog.Uint32(k, v), k, strconv.FormatUint(uint64(v), 10))
	case 5:
		v := x.r.Uint64()
		return one(otlog.Uint64(k, v), k, strconv.FormatUint(v, 10))
	case 6:
		v := pick(x.r, float32(0.5), -3.25, 7, 0)
		return one(otlog.Float32("float32", v), "float32", fmt.Sprint(v))
	case 7:
		v := pick(x.r, 0.5, -3.25, 1e6, 0)
		return one(otlog.Float64("float64", v), "float64", fmt.Sprint(v))
	case 8:
		f := otlog.Error(errors.New("oops"))
		return one(f, f.Key(), "oops")
	case 9:
		return one(otlog.Object(k, struct{ A, B string }{"x", ""}), k, "{A:x B:}")
	case 10:
		v, w := x.texts(), x.texts()
		return otlog.Lazy(func(e otlog.Encoder) { e.EmitString("lazy", v); e.EmitString("a", w) }), []otKV{{"lazy", esc(v)}, {"a", esc(w)}}
	case 11:
		return otlog.Noop(), []otKV{}
	}
	v := x.texts()
	return one(otlog.String(k, v), k, v)
}

func (x *otRun) fields() (fs []otlog.Field, kvs []otKV) {
	kvs = []otKV{}
	for i := pick(x.r, 1, 1, 1, 2, 3, 0, 6); i > 0; i-- {
		f, kv := x.field()
		fs = append(fs, f)
		kvs = append(kvs, kv...)
	}
	return fs, kvs
}

func (x *otRun) start(from string, ref, g int) {
	t := x.ts[g-1]
	t.asked = []int{}
	name := pick(x.r, "op", "", "GET /", "é")
	var opts []ot.StartSpanOption
	switch from {
	case "span":
		opts = append(opts, x.refTo(x.spans[ref-1].Context()))
	case "ctx":
		opts = append(opts, x.refTo(x.ctxs[ref-1]))
	}
	tags := []otKV{}
	if x.r.Intn(3) == 0 {
		for i := 0; i < 2; i++ {
			k, v, s := x.tag()
			opts = append(opts, ot.Tag{Key: k, Value: v})
			tags = append(tags, otKV{esc(k), esc(s)})
		}
	}
	start := time.Now()
	if x.r.Intn(2) == 0 {
		start = start.Add(time.Duration(x.r.Int63n(2e12) - 1e12)).In(time.FixedZone("z", 3600*x.r.Intn(5)))
		opts = append(opts, ot.StartTime(start))
	}
	sp := t.t.StartSpan(name, opts...)
	x.spans, x.tracer = append(x.spans, sp), append(x.tracer, g)
	c := sp.Context().(basictracer.SpanContext)
	asked := append([]int{}, t.asked...)
	x.rec.add(Ev{"op": "start", "from": from, "ref": ref, "g": g, "tr": x.m.label(appdash.ID(c.TraceID)), "sp": x.m.label(appdash.ID(c.SpanID)),
		"name": esc(name), "tags": tags, "start": otTime(start), "asked": asked, "dec": t.dec})
}

func (x *otRun) refTo(c ot.SpanContext) ot.SpanReference {
	if x.r.Intn(3) == 0 {
		return ot.FollowsFrom(c)
	}
	return ot.ChildOf(c)
}

func (x *otRun) finish(k int) {
	t := x.ts[x.tracer[k-1]-1]
	t.mu.Lock()
	t.sent, t.lines = nil, 0
	t.mu.Unlock()
	opts := ot.FinishOptions{}
	end := time.Now()
	logs := []Ev{}
	plain := x.r.Intn(3) == 0
	if !plain {
		if x.r.Intn(2) == 0 {
			end = end.Add(time.Duration(x.r.Int63n(2e12) - 1e12))
			opts.FinishTime = end
		}
		for i := x.r.Intn(3); i > 0; i-- {
			fs, kvs := x.fields()
			at := end.Add(-time.Duration(x.r.Int63n(1e9)))
			opts.LogRecords = append(opts.LogRecords, ot.LogRecord{Timestamp: at, Fields: fs})
			logs = append(logs, Ev{"f": kvs, "t": otTime(at)})
		}
	}
	msg := guard(func() {
		if plain {
			x.spans[k-1].Finish()
		} else {
			x.spans[k-1].FinishWithOptions(opts)
		}
	})
	t.mu.Lock()
	sent := append([]otSent{}, t.sent...)
	lines := t.lines
	t.mu.Unlock()
	if msg != "" {
		sent = append(sent, otSent{ID: []int{}, A: []string{msg}, L: []otMsg{}})
	}
	x.rec.add(Ev{"op": "fin", "s": k, "g": x.tracer[k-1], "end": otTime(end), "logs": logs, "sent": sent, "lines": lines})
}

// raw hands a span to a recorder directly.
func (x *otRun) raw(g int) {
	t := x.ts[g-1]
	rs := basictracer.RawSpan{Operation: x.texts(), Start: time.Now().Add(-time.Duration(x.r.Int63n(1e12))), Duration: time.Duration(pick(x.r, 0, 1, -1, x.r.Int63n(1e12)))}
	rs.Context = basictracer.SpanContext{TraceID: pick(x.r, x.r.Uint64(), 1<<63, ^uint64(0), 1), SpanID: x.r.Uint64(), Sampled: x.r.Intn(4) > 0}
	if x.r.Intn(2) == 0 {
		rs.ParentSpanID = pick(x.r, x.r.Uint64(), 1<<63+1)
	}
	tags, bag, logs := []otKV{}, []otKV{}, []Ev{}
	for i := x.r.Intn(5); i > 0; i-- {
		k, v, s := x.tag()
		if rs.Tags == nil {
			rs.Tags = ot.Tags{}
		}
		rs.Tags[k] = v
		tags = append(tags, otKV{esc(k), esc(s)})
	}
	for i := x.r.Intn(4); i > 0; i-- {
		k, v := pick(x.r, "b1", "b2", "B1", "tag"), x.texts()
		if rs.Context.Baggage == nil {
			rs.Context.Baggage = map[string]string{}
		}
		rs.Context.Baggage[k] = v
		bag = append(bag, otKV{esc(k), esc(v)})
	}
	for i := pick(x.r, 0, 1, 3, 150); i > 0; i-- {
		fs, kvs := x.fields()
		at := rs.Start.Add(time.Duration(x.r.Int63n(1e9)))
		rs.Logs = append(rs.Logs, ot.LogRecord{Timestamp: at, Fields: fs})
		logs = append(logs, Ev{"f": kvs, "t": otTime(at)})
	}
	t.sent, t.lines = nil, 0
	x.spans, x.tracer = append(x.spans, nil), append(x.tracer, g)
	id := len(x.spans)
	x.done[id] = true
	x.rec.add(Ev{"op": "raw", "tr": x.m.label(appdash.ID(rs.Context.TraceID)), "sp": x.m.label(appdash.ID(rs.Context.SpanID)), "pa": x.m.label(appdash.ID(rs.ParentSpanID)),
		"sampled": rs.Context.Sampled, "bag": bag, "tags": tags, "name": esc(rs.Operation), "start": otTime(rs.Start), "logs": logs})
	msg := guard(func() { t.rec.RecordSpan(rs) })
	sent := append([]otSent{}, t.sent...)
	if msg != "" {
		sent = append(sent, otSent{ID: []int{}, A: []string{msg}, L: []otMsg{}})
	}
	x.rec.add(Ev{"op": "fin", "s": id, "g": g, "end": otTime(rs.Start.Add(rs.Duration)), "logs": []Ev{}, "sent": sent, "lines": t.lines})
}

func (x *otRun) do(o otOp) {
	time.Sleep(time.Duration(1 + x.r.Intn(1000)))
	switch o.O {
	case "root":
		g := 1 + x.r.Intn(len(x.ts))
		x.ts[g-1].dec = o.D == 1
		x.start("root", 0, g)
	case "child":
		x.start("span", o.K, x.tracer[o.K-1])
	case "cont":
		x.start("ctx", o.K, 1+x.r.Intn(len(x.ts)))
	case "inj":
		var err error
		var c ot.SpanContext
		from, to := x.ts[x.tracer[o.K-1]-1].t, x.ts[x.r.Intn(len(x.ts))].t
		sc := x.spans[o.K-1].Context()
		switch x.r.Intn(3) {
		case 0:
			m := ot.TextMapCarrier{}
			if err = from.Inject(sc, ot.TextMap, m); err == nil {
				c, err = to.Extract(ot.TextMap, m)
			}
		case 1:
			m := ot.HTTPHeadersCarrier(http.Header{"Accept": {"*/*"}})
			if err = from.Inject(sc, ot.HTTPHeaders, m); err == nil {
				c, err = to.Extract(ot.HTTPHeaders, m)
			}
		case 2:
			var b bytes.Buffer
			if err = from.Inject(sc, ot.Binary, &b); err == nil {
				c, err = to.Extract(ot.Binary, &b)
			}
		}
		x.ctxs = append(x.ctxs, c)
		x.rec.add(Ev{"op": "inj", "s": o.K, "err": errStr(err)})
	case "tag":
		k, v, s := x.tag()
		if o.D > 0 {
			k = fmt.Sprintf("tag%d", o.D)
		}
		x.spans[o.K-1].SetTag(k, v)
		x.rec.add(Ev{"op": "tag", "s": o.K, "k": esc(k), "v": esc(s)})
	case "bag":
		k, v := pick(x.r, "b1", "b2", "user", "tag", "t1"), pick(x.r, "x", "y", "", "a b", "v")
		if o.D > 0 {
			k = fmt.Sprintf("bag%d", o.D)
		}
		x.spans[o.K-1].SetBaggageItem(k, v)
		x.rec.add(Ev{"op": "bag", "s": o.K, "k": esc(k), "v": esc(v)})
	case "name":
		v := x.texts()
		x.spans[o.K-1].SetOperationName(v)
		x.rec.add(Ev{"op": "name", "s": o.K, "v": esc(v)})
	case "prio":
		v := uint16(x.r.Intn(3))
		x.spans[o.K-1].SetTag("sampling.priority", v)
		x.rec.add(Ev{"op": "prio", "s": o.K, "on": v != 0})
	case "log":
		fs, kvs := x.fields()
		if x.r.Intn(8) == 0 {
			v := x.texts()
			fs, kvs = nil, []otKV{{"event", esc(v)}}
			x.spans[o.K-1].LogEvent(v)
		} else {
			x.spans[o.K-1].LogFields(fs...)
		}
		x.rec.add(Ev{"op": "log", "s": o.K, "f": kvs, "t": otTime(time.Now())})
	case "fin":
		if !x.done[o.K] {
			x.done[o.K] = true
			x.finish(o.K)
		}
	}
}

func newOtRun(name string, r *rand.Rand, fails string, asks bool) *otRun {
	x := &otRun{rec: newRec(name), r: r, m: &otIDs{n: map[appdash.ID]int{}}, done: map[int]bool{}}
	verbose := []bool{}
	for g := 0; g < 2; g++ {
		t := &otTracer{ids: x.m}
		n := 0
		t.fail = func() bool {
			n++
			switch fails {
			case "all":
				return true
			case "odd":
				return n%2 == 1
			case "some":
				return r.Intn(3) == 0
			case "rare":
				return r.Intn(12) == 0
			}
			return false
		}
		o := aot.Options{Verbose: r.Intn(2) == 0, Logger: log.New(t, "x ", 0)}
		verbose = append(verbose, o.Verbose)
		o.ShouldSample = func(id uint64) bool {
			t.asked = append(t.asked, x.m.label(appdash.ID(id)))
			return t.dec
		}
		if !asks { // the default: all are sampled
			o.ShouldSample = aot.DefaultOptions().ShouldSample
		}
		t.t = aot.NewTracerWithOptions(t, o)
		if !asks && fails == "" {
			t.t = aot.NewTracer(t)
		}
		t.rec = t.t.(basictracer.Tracer).Options().Recorder
		x.ts = append(x.ts, t)
	}
	x.rec.Cfg = Ev{"verbose": verbose, "asks": asks}
	return x
}

// otStorm finishes spans of one tracer from several goroutines.
func otStorm(r *rand.Rand, name string) *Rec {
	x := newOtRun(name, r, "", true)
	t := x.ts[0]
	n := 0
	seed := r.Intn(5)
	t.fail = func() bool { n++; return seed > 0 && n%seed == 0 }
	var wg sync.WaitGroup
	t.dec = true
	var all []ot.Span
	for i := 0; i < 24; i++ {
		t.asked = nil
		all = append(all, t.t.StartSpan(fmt.Sprintf("op%d", i)))
	}
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(all); i += 6 {
				all[i].SetTag("i", i)
				all[i].LogEvent(fmt.Sprintf("log%d", i))
				all[i].Finish()
			}
		}()
	}
	wg.Wait()
	lost, bad := 0, 0
	type key struct{ sp, n int }
	count := map[int]map[string]int{}
	for _, s := range t.sent {
		if s.Note != "" {
			if s.Err != "" {
				lost++
			}
			continue
		}
		if count[s.ID[1]] == nil {
			count[s.ID[1]] = map[string]int{}
		}
		for _, a := range s.A {
			count[s.ID[1]][a]++
		}
		for _, l := range s.L {
			count[s.ID[1]]["log "+l.Msg]++
		}
	}
	for i, sp := range all {
		c := count[x.m.label(appdash.ID(sp.Context().(basictracer.SpanContext).SpanID))]
		for _, w := range []string{fmt.Sprintf("Name=op%d", i), fmt.Sprintf("i=%d", i), fmt.Sprintf("log log%d", i)} {
			if c[w] != 1 {
				bad++
			}
		}
	}
	x.rec.add(Ev{"op": "storm", "bad": bad, "lost": lost, "lines": t.lines, "verbose": x.rec.Cfg["verbose"].([]bool)[0]})
	return x.rec
}

func driveOpenTracing(e *env) {
	if e.mode == "race" {
		for i := 0; i < e.n; i++ {
			r := e.rng(fmt.Sprintf("storm%d", i))
			stop := e.begin(i)
			e.emit(otStorm(r, fmt.Sprintf("storm-%d", i)))
			stop()
		}
		return
	}
	run := func(name string, ops []otOp, fails string, asks bool, raws int) {
		r := e.rng(name)
		x := newOtRun(name, r, fails, asks)
		defer e.begin(ops)()
		e.bubble(func() {
			for _, o := range ops {
				x.do(o)
			}
			for k := range x.spans {
				if !x.done[k+1] {
					x.do(otOp{O: "fin", K: k + 1})
				}
			}
			for ; raws > 0; raws-- {
				x.raw(1 + r.Intn(len(x.ts)))
			}
		})
		e.emit(x.rec)
	}
	for i, s := range e.stim {
		var st struct {
			Ops   []otOp
			Fails string
		}
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		run(fmt.Sprintf("gen-%d", i), st.Ops, st.Fails, true, 0)
	}
	r := e.rng("opentracing")
	for i := 0; i < 4; i++ { // much of each
		var ops []otOp
		ops = append(ops, otOp{O: "root", D: 1})
		for j := 1; j <= 150; j++ {
			switch i {
			case 0:
				ops = append(ops, otOp{O: "child", K: pick(r, 1, j)})
			case 1:
				ops = append(ops, otOp{O: "tag", K: 1, D: j})
			case 2:
				if j <= 70 {
					ops = append(ops, otOp{O: "bag", K: 1, D: j})
				}
			case 3:
				if j <= 95 {
					ops = append(ops, otOp{O: "log", K: 1})
				}
			}
		}
		if i == 2 {
			ops = append(ops, otOp{O: "child", K: 1}, otOp{O: "inj", K: 2}, otOp{O: "cont", K: 1})
		}
		run(fmt.Sprintf("many-%d", i), ops, pick(r, "", "rare"), true, 0)
	}
	for i := 0; i < e.n; i++ {
		var ops []otOp
		spans, ctxs := 0, 0
		asks := r.Intn(8) > 0
		for j := r.Intn(30); j >= 0; j-- {
			o := otOp{O: pick(r, "root", "child", "child", "cont", "inj", "tag", "bag", "log", "log", "name", "prio", "fin"), D: r.Intn(3)}
			if spans == 0 || (o.O == "cont" && ctxs == 0) {
				o.O = "root"
			}
			switch o.O {
			case "root":
				o.D = min(o.D, 1)
				if !asks {
					o.D = 1
				}
				spans++
			case "cont":
				o.K = 1 + r.Intn(ctxs)
				spans++
			case "child":
				o.K = 1 + r.Intn(spans)
				spans++
			case "inj":
				o.K = 1 + r.Intn(spans)
				ctxs++
			default:
				o.K = 1 + r.Intn(spans)
			}
			ops = append(ops, o)
		}
		run(fmt.Sprintf("rnd-%d", i), ops, pick(r, "", "", "rare", "some", "odd", "all"), asks, r.Intn(3))
	}
}
