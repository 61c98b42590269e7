package drive

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["multi"] = driveMulti }

type multiOp struct {
	O string `json:"o"`
	P int    `json:"p"`
	T int    `json:"t"`
	K string `json:"k"`
}

// multiPart is a store that can fail; the time of a trace is its number.
type multiPart struct {
	*appdash.MemoryStore
	c, t, l error
}

func (p *multiPart) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if p.c != nil {
		return p.c
	}
	return p.MemoryStore.Collect(id, as...)
}

func (p *multiPart) Trace(id appdash.ID) (*appdash.Trace, error) {
	if p.t != nil {
		return nil, p.t
	}
	return p.MemoryStore.Trace(id)
}

func (p *multiPart) Traces(opts appdash.TracesOpts) ([]*appdash.Trace, error) {
	if p.l != nil {
		return nil, p.l
	}
	ts, err := p.MemoryStore.Traces(appdash.TracesOpts{TraceIDs: opts.TraceIDs})
	if err != nil || opts.Timespan == (appdash.Timespan{}) {
		return ts, err
	}
	var out []*appdash.Trace
	for _, t := range ts {
		if at := multiTime(int(t.ID.Trace)); !at.Before(opts.Timespan.S) && !at.After(opts.Timespan.E) {
			out = append(out, t)
		}
	}
	return out, nil
}

func multiTime(t int) time.Time { return time.Unix(int64(t), 0).UTC() }

type multiRun struct {
	rec    *Rec
	r      *rand.Rand
	parts  []*multiPart
	traces int
	s      appdash.Store
	q      appdash.Queryer
	na     int
	twins  bool
}

func (x *multiRun) combine() {
	var ss []appdash.Store
	var qs []appdash.Queryer
	for _, p := range x.parts {
		ss = append(ss, p)
		qs = append(qs, p)
	}
	// Some neighbouring parts are combined on their own first.
	for len(ss) > 0 && x.r.Intn(3) == 0 {
		i := x.r.Intn(len(ss))
		j := i + x.r.Intn(len(ss)-i+1)
		ss = append(append(append([]appdash.Store{}, ss[:i]...), appdash.MultiStore(ss[i:j]...)), ss[j:]...)
		qs = append(append(append([]appdash.Queryer{}, qs[:i]...), appdash.MultiQueryer(qs[i:j]...)), qs[j:]...)
	}
	x.s, x.q = appdash.MultiStore(ss...), appdash.MultiQueryer(qs...)
}

func multiErr(err error) string {
	if err == appdash.ErrTraceNotFound {
		return "notfound"
	}
	return errStr(err)
}

func (x *multiRun) labels(t *appdash.Trace, want int) []string {
	if t == nil {
		return []string{}
	}
	out := annStrs(t.Annotations)
	if int(t.ID.Trace) != want || len(t.Sub) != 0 {
		out = append(out, fmt.Sprintf("of trace %d", t.ID.Trace))
	}
	return out
}

func (x *multiRun) newAnn(t int) (appdash.SpanID, []appdash.Annotation, string) {
	x.na++
	a := appdash.Annotation{Key: fmt.Sprintf("a%d", x.na), Value: []byte{'v'}}
	as, str := []appdash.Annotation{a}, annStr(a)
	if x.r.Intn(4) == 0 { // a span without annotations
		as, str = nil, ""
	}
	span := t
	if x.twins { // the traces' spans have the same IDs
		span = 1
	}
	return appdash.SpanID{Trace: appdash.ID(t), Span: appdash.ID(span)}, as, str
}

func (x *multiRun) do(o multiOp) {
	switch o.O {
	case "col":
		id, a, s := x.newAnn(o.T)
		x.rec.add(Ev{"op": "col", "t": o.T, "a": s, "err": multiErr(x.s.Collect(id, a...))})
	case "pre":
		id, a, s := x.newAnn(o.T)
		if err := x.parts[o.P-1].MemoryStore.Collect(id, a...); err != nil {
			panic(err)
		}
		x.rec.add(Ev{"op": "pre", "p": o.P, "t": o.T, "a": s})
	case "flt":
		p := x.parts[o.P-1]
		f := map[string]*error{"c": &p.c, "t": &p.t, "l": &p.l}[o.K]
		if *f == nil {
			*f = fmt.Errorf("%s%d", o.K, o.P)
		} else {
			*f = nil
		}
		x.rec.add(Ev{"op": "flt", "p": o.P, "k": o.K, "e": errStr(*f)})
	}
}

func (x *multiRun) look() {
	has := [][][]string{}
	for _, p := range x.parts {
		h := [][]string{}
		for t := 1; t <= x.traces; t++ {
			tr, err := p.MemoryStore.Trace(appdash.ID(t))
			if err != nil && err != appdash.ErrTraceNotFound {
				panic(err)
			}
			l := x.labels(tr, t)
			if tr != nil {
				l = append([]string{""}, l...)
			}
			h = append(h, l)
		}
		has = append(has, h)
	}
	x.rec.add(Ev{"op": "parts", "has": has})
	for t := 1; t <= x.traces; t++ {
		var tr *appdash.Trace
		var err error
		if p := guard(func() { tr, err = x.s.Trace(appdash.ID(t)) }); p != "" {
			err = errors.New(p)
		}
		x.rec.add(Ev{"op": "look", "t": t, "err": multiErr(err), "v": x.labels(tr, t)})
	}
	for k := 0; k < 3; k++ {
		var opts appdash.TracesOpts
		want := map[int]bool{}
		for t := 1; t <= x.traces; t++ {
			want[t] = true
		}
		if k > 0 {
			for t := range want {
				want[t] = false
			}
			for i := x.r.Intn(x.traces + 1); i >= 0; i-- {
				t := 1 + x.r.Intn(x.traces+1) // the last one does not exist
				want[t] = true
				opts.TraceIDs = append(opts.TraceIDs, appdash.ID(t))
			}
		}
		if k == 2 {
			lo := 1 + x.r.Intn(x.traces)
			hi := lo + x.r.Intn(x.traces)
			opts.Timespan = appdash.Timespan{S: multiTime(lo), E: multiTime(hi)}
			if x.r.Intn(2) == 0 {
				opts.TraceIDs = nil
				for t := 1; t <= x.traces; t++ {
					want[t] = true
				}
			}
			for t := range want {
				want[t] = want[t] && lo <= t && t <= hi
			}
		}
		w := []int{}
		for t := 1; t <= x.traces; t++ {
			if want[t] {
				w = append(w, t)
			}
		}
		var ts []*appdash.Trace
		var err error
		if p := guard(func() { ts, err = x.q.Traces(opts) }); p != "" {
			err = errors.New(p)
		}
		v := []Ev{}
		for _, t := range ts {
			v = append(v, Ev{"t": int(t.ID.Trace), "v": x.labels(t, int(t.ID.Trace))})
		}
		x.rec.add(Ev{"op": "list", "want": w, "err": errStr(err), "v": v})
	}
}

func driveMulti(e *env) {
	run := func(name string, r *rand.Rand, n, traces int, ops []multiOp, always bool) {
		x := &multiRun{rec: newRec(name), r: r, traces: traces, twins: r.Intn(2) == 0}
		x.rec.Cfg = Ev{"n": n, "traces": traces}
		for i := 0; i < n; i++ {
			x.parts = append(x.parts, &multiPart{MemoryStore: appdash.NewMemoryStore()})
		}
		x.combine()
		defer e.begin(ops)()
		for i, o := range ops {
			x.do(o)
			if always || i == len(ops)-1 || r.Intn(max(4, len(ops)/3)) == 0 {
				x.look()
			}
		}
		x.look()
		e.emit(x.rec)
	}
	r := e.rng("multi")
	for i := 0; i < 3; i++ { // many traces, or many parts
		n, traces := []int{2, 40, 3}[i], []int{1100, 5, 200}[i]
		var ops []multiOp
		for t := 1; t <= traces; t++ {
			if i < 2 && t > 1 && r.Intn(4) > 0 {
				ops = append(ops, multiOp{O: "pre", P: 1 + r.Intn(n), T: t})
			}
			ops = append(ops, multiOp{O: pick(r, "col", "pre"), P: 1 + r.Intn(n), T: t})
		}
		run(fmt.Sprintf("many-%d", i), r, n, traces, ops[:len(ops)-1], false)
	}
	for i, s := range e.stim {
		var st struct {
			N   int
			Ops []multiOp
		}
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		run(fmt.Sprintf("gen-%d", i), r, st.N, 2, st.Ops, false)
	}
	for i := 0; i < e.n; i++ {
		n, traces := r.Intn(5), 1+r.Intn(4)
		var ops []multiOp
		for j := r.Intn(25); j >= 0; j-- {
			o := multiOp{O: pick(r, "col", "col", "pre", "pre", "flt"), P: 1, T: 1 + r.Intn(traces), K: pick(r, "c", "t", "l")}
			if n > 0 {
				o.P = 1 + r.Intn(n)
			} else {
				o.O = "col"
			}
			ops = append(ops, o)
		}
		run(fmt.Sprintf("rnd-%d", i), r, n, traces, ops, true)
	}
}
