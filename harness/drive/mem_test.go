package drive

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["mem"] = driveMem }

// memOp is one operation of a stimulus.
type memOp struct {
	Op   string `json:"op"`
	T    int    `json:"t"`
	S    int    `json:"s"`
	P    int    `json:"p"`
	A    int    `json:"a"`
	H    int    `json:"h"`
	N    int    `json:"n"`
	C    int    `json:"c"`
	I    int    `json:"i"`
	K    int    `json:"k"`
	X    int    `json:"x"`
	F    []int  `json:"f"`
	IDs  []int  `json:"ids"`
	Mode string `json:"mode"`
	Cut  int    `json:"cut"`
}

type memRun struct {
	r      *rand.Rand
	m      *ids
	rec    *Rec
	ms     *appdash.MemoryStore
	hs     map[int][]appdash.Annotation
	saves  map[int][]byte
	snaps  []*appdash.Trace // nil once scribbled over
	keep   bool
	nann   int
	last   appdash.Annotation
	probe  []int
	failed bool
}

// newAnn makes an annotation, mostly one that differs from all others of the
// run.
func (x *memRun) newAnn() (a appdash.Annotation) {
	if x.nann > 0 && x.r.Intn(8) == 0 {
		return x.last
	}
	defer func() { x.last = a }()
	x.nann++
	k := fmt.Sprintf("k%d", x.nann)
	v := []byte(fmt.Sprintf("v%d", x.nann))
	switch x.r.Intn(8) {
	case 0:
		v = nil
	case 1:
		v = make([]byte, x.r.Intn(300))
		x.r.Read(v)
	case 2:
		k = "" // empty keys are distinguished by their values
	case 3:
		k = fmt.Sprintf("\x00\xff%d\n", x.nann)
	case 4:
		k = appdash.SchemaPrefix + k
		v = nil
	case 5:
		k = "Name"
	}
	return appdash.Annotation{Key: k, Value: v}
}

func (x *memRun) anns(n int) []appdash.Annotation {
	var as []appdash.Annotation
	for i := 0; i < n; i++ {
		as = append(as, x.newAnn())
	}
	return as
}

func (x *memRun) call(e Ev, f func()) bool {
	if msg := guard(f); msg != "" {
		x.rec.add(Ev{"op": "X", "in": e["op"], "msg": msg})
		x.failed = true
		return false
	}
	x.rec.add(e)
	return true
}

func (x *memRun) trace(t int) {
	e := Ev{"op": "T", "t": t}
	x.call(e, func() {
		tr, err := x.ms.Trace(x.m.tid(t))
		nodes, cyc := []node{}, false
		find := []int{}
		e["nf"], e["err"], e["k"] = err == appdash.ErrTraceNotFound, "", 0
		if err != nil && err != appdash.ErrTraceNotFound {
			e["err"] = errStr(err)
		}
		if err == nil {
			if x.keep {
				x.snaps = append(x.snaps, tr)
				e["k"] = len(x.snaps)
			}
			nodes, cyc = flat(tr, x.m)
			if !cyc {
				for _, s := range x.probe {
					if f := tr.FindSpan(x.m.id(s)); f != nil && f.ID.Span == x.m.id(s) {
						find = append(find, s)
					}
				}
			}
		}
		e["tree"], e["cyc"], e["find"], e["probe"] = nodes, cyc, find, x.probe
	})
}

func (x *memRun) list(f []int) {
	e := Ev{"op": "L", "f": append([]int{}, f...), "k": 0, "err": ""}
	x.call(e, func() {
		var opts appdash.TracesOpts
		for _, t := range f {
			opts.TraceIDs = append(opts.TraceIDs, x.m.tid(t))
		}
		trs, err := x.ms.Traces(opts)
		e["err"] = errStr(err)
		if x.keep && len(trs) > 0 {
			e["k"] = len(x.snaps) + 1
		}
		var out = []Ev{}
		for _, tr := range trs {
			if x.keep {
				x.snaps = append(x.snaps, tr)
			}
			nodes, cyc := flat(tr, x.m)
			out = append(out, Ev{"t": x.m.traceLabel(tr.ID.Trace), "tree": nodes, "cyc": cyc})
		}
		e["trees"] = out
	})
}

func (x *memRun) reread() {
	for k, tr := range x.snaps {
		if tr == nil {
			continue
		}
		e := Ev{"op": "RR", "k": k + 1}
		tr := tr
		x.call(e, func() {
			nodes, cyc := flat(tr, x.m)
			if cyc {
				nodes = append(nodes, node{S: -2})
			}
			e["tree"] = nodes
		})
	}
}

// scribble changes a returned trace in every way its holder can.
func (x *memRun) scribble(k int) {
	tr := x.snaps[k]
	if tr == nil {
		return
	}
	var all []*appdash.Trace
	var rec func(t *appdash.Trace)
	rec = func(t *appdash.Trace) {
		all = append(all, t)
		for _, c := range t.Sub {
			rec(c)
		}
	}
	rec(tr)
	for i, t := range all {
		for j := range t.Annotations {
			t.Annotations[j] = appdash.Annotation{Key: "scribbled"}
		}
		t.Annotations = append(t.Annotations, appdash.Annotation{Key: "scribbled too"})
		t.ID.Parent = 12345
		t.ID.Span += 7
		switch x.r.Intn(3) {
		case 0:
			t.Sub = append(t.Sub, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 1, Span: 2, Parent: 3}}})
		case 1:
			for j := range t.Sub {
				t.Sub[j] = all[(i+j)%len(all)]
			}
		default:
			t.Sub = nil
		}
	}
	x.snaps[k] = nil
	x.rec.add(Ev{"op": "MR", "k": k + 1})
}

func (x *memRun) do(o memOp) {
	switch o.Op {
	case "C":
		as := x.anns(o.A)
		e := Ev{"op": "C", "t": o.T, "s": o.S, "p": o.P, "a": annStrs(as)}
		x.call(e, func() { e["err"] = errStr(x.ms.Collect(x.m.span(o.T, o.S, o.P), as...)) })
	case "NS":
		as := x.anns(o.N + o.C)[:o.N]
		x.hs[o.H] = as
		x.rec.add(Ev{"op": "NS", "h": o.H, "n": o.N, "els": annStrs(as[:cap(as)][:o.N+o.C])})
	case "CS":
		as, ok := x.hs[o.H]
		if !ok {
			return
		}
		e := Ev{"op": "CS", "t": o.T, "s": o.S, "p": o.P, "h": o.H}
		x.call(e, func() { e["err"] = errStr(x.ms.Collect(x.m.span(o.T, o.S, o.P), as...)) })
	case "MS":
		as := x.hs[o.H]
		if len(as) < o.I {
			return
		}
		a := x.newAnn()
		as[o.I-1] = a
		x.rec.add(Ev{"op": "MS", "h": o.H, "i": o.I, "v": annStr(a)})
	case "AS":
		as, ok := x.hs[o.H]
		if !ok {
			return
		}
		a := x.newAnn()
		x.hs[o.H] = append(as, a)
		x.rec.add(Ev{"op": "AS", "h": o.H, "v": annStr(a)})
	case "T":
		x.trace(o.T)
	case "L":
		x.list(o.F)
	case "D":
		e := Ev{"op": "D", "ids": append([]int{}, o.IDs...)}
		x.call(e, func() {
			var l []appdash.ID
			for _, t := range o.IDs {
				l = append(l, x.m.tid(t))
			}
			e["err"] = errStr(x.ms.Delete(l...))
		})
	case "W":
		e := Ev{"op": "W", "k": o.K}
		x.call(e, func() {
			var b bytes.Buffer
			e["err"] = errStr(x.ms.Write(&b))
			x.saves[o.K] = b.Bytes()
		})
		if n := len(x.saves[o.K]) * 9 / 10; n > 0 && x.r.Intn(3) == 0 {
			e := Ev{"op": "WF"}
			left := x.r.Intn(n)
			x.call(e, func() {
				e["err"] = errStr(x.ms.Write(shortWriter{&left}))
			})
		}
	case "R":
		b, ok := x.saves[o.K]
		if !ok {
			return
		}
		e := Ev{"op": "R", "k": o.K, "cut": false, "fresh": o.Mode == "new"}
		if o.Cut < 1000 {
			n := len(b) * o.Cut / 1000
			if o.Cut == 999 {
				n = len(b) - 1
			}
			if n < len(b) {
				b = b[:n]
				e["cut"] = true
			}
		}
		x.call(e, func() {
			if o.Mode == "new" {
				x.ms = appdash.NewMemoryStore()
			}
			n, err := x.ms.ReadFrom(bytes.NewReader(b))
			e["n"], e["err"] = n, errStr(err)
		})
	case "MR":
		if len(x.snaps) > 0 {
			x.scribble(len(x.snaps) - 1 - o.X%len(x.snaps))
		}
	}
}

// shortWriter fails when it is full.
type shortWriter struct{ left *int }

func (w shortWriter) Write(b []byte) (int, error) {
	n := min(len(b), *w.left)
	*w.left -= n
	if n < len(b) {
		return n, errors.New("full")
	}
	return n, nil
}

func driveMem(e *env) {
	r := e.rng("mem" + e.mode)
	count := 0
	start := func(name string, probe int) *memRun {
		x := &memRun{r: r, m: newIDs(r, count%5), rec: newRec(name), ms: appdash.NewMemoryStore(),
			hs: map[int][]appdash.Annotation{}, saves: map[int][]byte{}}
		count++
		for i := 1; i <= probe; i++ {
			x.probe = append(x.probe, i)
		}
		return x
	}
	// vectors of parents
	vector := func(v []int, observe bool) {
		x := start("vec", len(v)+1)
		if len(v) > 12 {
			x.probe = []int{1, len(v) / 2, len(v), len(v) + 1}
		}
		x.rec.Cfg = Ev{"v": v}
		defer e.begin(v)()
		for i, p := range v {
			x.do(memOp{Op: "C", T: 1, S: i + 1, P: p, A: r.Intn(3)})
			if r.Intn(4) == 0 { // annotations that come later
				j := r.Intn(i + 1)
				x.do(memOp{Op: "C", T: 1, S: j + 1, P: v[j], A: 1})
			}
			if observe || i == len(v)-1 {
				x.do(memOp{Op: "T", T: 1})
			}
			if x.failed {
				break
			}
		}
		if !x.failed && e.mode == "mal" {
			// must also be listable, savable and loadable, and leave others alone
			x.do(memOp{Op: "C", T: 2, S: 1, P: 0, A: 1})
			x.do(memOp{Op: "L"})
			if !x.failed && !lastCyc(x.rec) {
				x.do(memOp{Op: "W", K: 1})
				x.do(memOp{Op: "R", K: 1, Mode: "new", Cut: 1000})
				x.do(memOp{Op: "L"})
			}
		}
		e.emit(x.rec)
	}
	bulk := func() {
		for i := 0; i < max(6, e.n/50); i++ {
			x := start("bulk", 0)
			x.keep = e.mode == "c03"
			done := e.begin([]int{i % 6})
			x.bulk(e.mode, i%6, e.first && i < 6)
			done()
			e.emit(x.rec)
		}
	}
	bulk()
	switch e.mode {
	case "wf", "mal":
		for _, b := range e.stim {
			var v []int
			if err := json.Unmarshal(b, &v); err != nil {
				e.t.Fatal(err)
			}
			vector(v, true)
		}
		for i := 0; i < e.n; i++ {
			n := 6 + r.Intn(9)
			if i%20 == 19 {
				n = 30 + r.Intn(40)
			}
			if e.mode == "wf" {
				vector(randForest(r, n), n < 16)
			} else {
				v := make([]int, n)
				for j := range v {
					v[j] = r.Intn(n + 1)
					if r.Intn(6) == 0 {
						v[j] = 99
					}
					if r.Intn(3) == 0 { // short cycles
						v[j] = 1 + (j+1)%n
					}
				}
				vector(v, n < 16)
			}
		}
		// several traces at once, spans repeated, with different parents if malformed
		for i := 0; i < e.n; i++ {
			x := start("mix", 6)
			ops := []memOp{}
			var par [3][]int
			for t := range par {
				par[t] = randForest(r, 6)
			}
			for j := 0; j < 14; j++ {
				t, s := r.Intn(3), r.Intn(6)
				p := par[t][s]
				if e.mode == "mal" && r.Intn(3) == 0 {
					p = r.Intn(7)
				}
				ops = append(ops, memOp{Op: "C", T: t + 1, S: s + 1, P: p, A: r.Intn(2)})
				if r.Intn(3) == 0 {
					ops = append(ops, memOp{Op: "L"})
				} else {
					ops = append(ops, memOp{Op: "T", T: t + 1})
				}
			}
			done := e.begin(ops)
			for _, o := range ops {
				if x.do(o); x.failed {
					break
				}
			}
			done()
			e.emit(x.rec)
		}
	default:
		for _, b := range e.stim {
			var ops []memOp
			if err := json.Unmarshal(b, &ops); err != nil {
				e.t.Fatal(err)
			}
			x := start(e.mode, 4)
			x.keep = e.mode == "c03"
			done := e.begin(ops)
			for _, o := range ops {
				if x.do(o); x.failed {
					break
				}
				switch e.mode {
				case "c02":
					x.trace(1)
					x.trace(2)
					var hs []int
					for h := range x.hs {
						hs = append(hs, h)
					}
					sort.Ints(hs)
					for _, h := range hs {
						as := x.hs[h]
						x.rec.add(Ev{"op": "SL", "h": h, "obs": annStrs(as[:cap(as)])})
					}
				case "c05", "c06":
					x.list(nil)
					x.trace(1)
					x.trace(2)
				case "c03":
					x.reread()
					x.keep = false
					x.list(nil)
					x.keep = true
				}
				if x.failed {
					break
				}
			}
			done()
			e.emit(x.rec)
		}
	}
}

// bulk fills a store with much more than the generated histories do: many
// traces, wide and deep ones, spans with many annotations, large values.
func (x *memRun) bulk(mode string, kind int, first bool) {
	x.probe = []int{1, 2, 17, 150, 9999}
	r := x.r
	c := func(t, s, p, a int) { x.do(memOp{Op: "C", T: t, S: s, P: p, A: a}) }
	raw := func(t, s, p int, as ...appdash.Annotation) {
		e := Ev{"op": "C", "t": t, "s": s, "p": p, "a": annStrs(as)}
		x.call(e, func() { e["err"] = errStr(x.ms.Collect(x.m.span(t, s, p), as...)) })
	}
	ntraces, nspans := 1, 300+r.Intn(900)
	switch kind {
	case 0: // many traces of a few spans
		ntraces, nspans = 300+r.Intn(300), 2
		if first {
			ntraces += 800
		}
		for t := 1; t <= ntraces; t++ {
			c(t, 1, 0, 1)
			if t%3 == 0 {
				c(t, 2, 1, 1)
			}
		}
	case 1: // one big tree
		for i, p := range randForest(r, nspans) {
			c(1, i+1, p, r.Intn(2))
		}
		c(2, 1, 0, 1)
		ntraces = 2
	case 2: // a wide one
		for i := 0; i < nspans; i++ {
			c(1, i+1, min(i, 1), 1)
		}
	case 3: // a deep one, the deepest first in half of the cases
		for i := 0; i < nspans; i++ {
			s := i + 1
			if nspans%2 == 0 {
				s = nspans - i
			}
			c(1, s, s-1, 1)
		}
	case 4: // many annotations of one span
		for i := 0; i < 40; i++ {
			n := 1 + r.Intn(20)
			if i%9 == 3 {
				n = 200 + r.Intn(400)
			}
			c(1, 1, 0, n)
			if i%5 == 0 {
				c(1, 2+i, 1, 1)
			}
		}
	case 5: // large keys and values
		for i := 0; i < 6; i++ {
			v := make([]byte, []int{70, 5000, 70000, 1 << 20, 3<<20 + 1, 1<<16 - 1}[i])
			r.Read(v)
			raw(1+i%2, 1+i/2, i/2, appdash.Annotation{Key: fmt.Sprint("k", i), Value: v},
				appdash.Annotation{Key: string(v[:len(v)/8]), Value: []byte("x")})
		}
		ntraces = 2
	}
	see := func() {
		x.list(nil)
		x.trace(1)
		x.trace(ntraces)
		if mode == "c03" {
			x.reread()
		}
	}
	see()
	if x.failed || mode == "wf" || mode == "mal" && lastCyc(x.rec) {
		return
	}
	if mode == "c03" {
		x.do(memOp{Op: "MR", X: 0})
		x.do(memOp{Op: "MR", X: r.Intn(ntraces)})
		see()
	}
	if kind == 0 && !x.failed {
		half := r.Perm(ntraces + 10)[:ntraces*3/4]
		for i := range half {
			half[i]++
		}
		x.list(half)
		if mode == "c05" || mode == "c06" {
			x.do(memOp{Op: "W", K: 1})
			x.do(memOp{Op: "D", IDs: half})
			see()
			x.do(memOp{Op: "R", K: 1, Cut: 1000})
		}
	} else if !x.failed {
		x.do(memOp{Op: "W", K: 1})
		c(1, 1, 0, 1)
		c(3, 1, 0, 1)
		if mode != "c06" {
			return
		}
		x.do(memOp{Op: "R", K: 1, Cut: []int{999, 500, 990}[r.Intn(3)], Mode: "new"})
		x.do(memOp{Op: "R", K: 1, Cut: 1000, Mode: []string{"new", "old"}[r.Intn(2)]})
	}
	if !x.failed {
		see()
	}
}

func lastCyc(r *Rec) bool {
	e := r.Ev[len(r.Ev)-1]
	if l, ok := e["trees"].([]Ev); ok {
		for _, t := range l {
			if t["cyc"] == true {
				return true
			}
		}
	}
	return false
}

// randForest gives the parents of n spans (1..n) of a well-formed trace in
// arrival order: 0 for the root, 99 for a parent that never arrives.
func randForest(r *rand.Rand, n int) []int {
	perm := r.Perm(n)
	v := make([]int, n)
	kind := r.Intn(4)
	for i := 1; i < n; i++ {
		var j int
		switch kind {
		case 0:
			j = r.Intn(i)
		case 1: // deep
			j = i - 1 - r.Intn(min(i, 2))
		case 2: // wide
			j = r.Intn(min(i, 3))
		default:
			j = r.Intn(i)
		}
		v[perm[i]] = perm[j] + 1
		if r.Intn(12) == 0 {
			v[perm[i]] = 99
		}
	}
	if r.Intn(5) == 0 {
		v[perm[0]] = 99
	}
	return v
}
