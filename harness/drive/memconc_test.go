package drive

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	drivers["memconc"] = driveMemConc
	drivers["memrace"] = driveMemRace
}

// listOf logs the traces of a store.
func listOf(trs []*appdash.Trace, m *ids) []Ev {
	out := []Ev{}
	for _, tr := range trs {
		nodes, cyc := flat(tr, m)
		out = append(out, Ev{"t": m.traceLabel(tr.ID.Trace), "tree": nodes, "cyc": cyc})
	}
	return out
}

func driveMemConc(e *env) {
	r := e.rng("memconc")
	for it := 0; it < e.n; it++ {
		m := newIDs(r, it%5)
		for i := 1; i < 12; i++ { // fill the maps: read-only afterwards
			m.id(i)
			m.tid(i)
		}
		m.id(99)
		rec := newRec("conc")
		ms := appdash.NewMemoryStore()
		// A save that may be loaded.
		blobStore := appdash.NewMemoryStore()
		blob := []Ev{}
		for i := 0; i < 3; i++ {
			a := appdash.Annotation{Key: fmt.Sprintf("b%d", i), Value: []byte("x")}
			t, s, p := 1+r.Intn(2), i+1, []int{0, 1, 1}[i]
			blobStore.Collect(m.span(t, s, p), a)
			blob = append(blob, Ev{"t": t, "s": s, "p": p, "a": []string{annStr(a)}})
		}
		var bb bytes.Buffer
		if err := blobStore.Write(&bb); err != nil {
			e.t.Fatal(err)
		}
		rec.Cfg = Ev{"blob": blob}
		par := [3][]int{nil, randForest(r, 5), randForest(r, 5)}
		threads := 2 + r.Intn(3)
		type cop struct {
			e    Ev
			f    func(e Ev) []*appdash.Trace // returned traces to re-read later
			kept []*appdash.Trace
			id   int
			gos  int
		}
		progs := make([][]*cop, threads)
		var all []*cop
		nops := 3 + r.Intn(3)
		mostly := r.Intn(3)
		for th := range progs {
			for k := 0; k < nops; k++ {
				c := &cop{gos: r.Intn(4)}
				kind := r.Intn(20)
				if mostly == 0 && kind >= 10 { // collect and look up one trace
					kind = 10 + kind%4
				}
				t := 1 + r.Intn(2)
				switch {
				case kind < 10:
					s := 1 + r.Intn(5)
					p := par[t][s-1]
					if it%4 == 3 && r.Intn(3) == 0 {
						p = r.Intn(6)
					}
					var as []appdash.Annotation
					for i := r.Intn(3); i > 0; i-- {
						as = append(as, appdash.Annotation{Key: fmt.Sprintf("k%d.%d.%d", th, k, i), Value: []byte("v")})
					}
					c.e = Ev{"op": "C", "t": t, "s": s, "p": p, "a": annStrs(as)}
					c.f = func(e Ev) []*appdash.Trace {
						e["err"] = errStr(ms.Collect(m.span(t, s, p), as...))
						return nil
					}
				case kind < 14:
					c.e = Ev{"op": "T", "t": t}
					c.f = func(e Ev) []*appdash.Trace {
						tr, err := ms.Trace(m.tid(t))
						e["nf"], e["err"], e["cyc"], e["tree"] = err == appdash.ErrTraceNotFound, "", false, []node{}
						if err != nil {
							if err != appdash.ErrTraceNotFound {
								e["err"] = errStr(err)
							}
							return nil
						}
						return []*appdash.Trace{tr}
					}
				case kind < 16:
					f := [][]int{{}, {1}, {2}}[r.Intn(3)]
					c.e = Ev{"op": "L", "f": f}
					c.f = func(e Ev) []*appdash.Trace {
						var o appdash.TracesOpts
						for _, t := range f {
							o.TraceIDs = append(o.TraceIDs, m.tid(t))
						}
						trs, err := ms.Traces(o)
						e["err"] = errStr(err)
						return trs
					}
				case kind < 18:
					c.e = Ev{"op": "D", "ids": []int{t}}
					c.f = func(e Ev) []*appdash.Trace { e["err"] = errStr(ms.Delete(m.tid(t))); return nil }
				case kind < 19:
					c.e = Ev{"op": "W"}
					c.f = func(e Ev) []*appdash.Trace {
						var b bytes.Buffer
						err := ms.Write(&b)
						e["err"] = errStr(err)
						x := appdash.NewMemoryStore()
						if err == nil {
							if _, err := x.ReadFrom(&b); err != nil {
								e["err"] = errStr(err)
							}
						}
						trs, _ := x.Traces(appdash.TracesOpts{})
						return trs
					}
				default:
					c.e = Ev{"op": "R"}
					c.f = func(e Ev) []*appdash.Trace {
						n, err := ms.ReadFrom(bytes.NewReader(bb.Bytes()))
						e["n"], e["err"] = n, errStr(err)
						return nil
					}
				}
				progs[th] = append(progs[th], c)
				all = append(all, c)
				c.id = len(all)
			}
		}
		done := e.begin(rec.Cfg)
		var mu sync.Mutex
		log := func(ev Ev) { mu.Lock(); rec.add(ev); mu.Unlock() }
		var wg sync.WaitGroup
		gate := make(chan bool)
		for _, prog := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for _, c := range prog {
					log(Ev{"op": "call", "i": c.id})
					for i := 0; i < c.gos; i++ {
						runtime.Gosched()
					}
					msg := guard(func() { c.kept = c.f(c.e) })
					if msg != "" {
						c.e["op"] = "X"
						c.e["msg"] = msg
					}
					log(Ev{"op": "ret", "i": c.id})
					// Read the result only now, while others go on.
					runtime.Gosched()
					if msg == "" {
						readResult(c.e, c.kept, m)
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
		// Read all results again.
		for _, c := range all {
			for j, tr := range c.kept {
				nodes, _ := flat(tr, m)
				rec.add(Ev{"op": "RR", "i": c.id, "j": j + 1, "tree": nodes})
			}
		}
		trs, err := ms.Traces(appdash.TracesOpts{})
		fin := Ev{"op": "L", "f": []int{}, "err": errStr(err), "trees": listOf(trs, m)}
		rec.add(Ev{"op": "call", "i": len(all) + 1})
		rec.add(Ev{"op": "ret", "i": len(all) + 1})
		var ops []Ev
		for _, c := range all {
			ops = append(ops, c.e)
		}
		rec.Cfg["ops"] = append(ops, fin)
		done()
		e.emit(rec)
	}
}

func readResult(e Ev, trs []*appdash.Trace, m *ids) {
	switch e["op"] {
	case "T":
		if len(trs) == 1 {
			nodes, cyc := flat(trs[0], m)
			e["tree"], e["cyc"] = nodes, cyc
		}
	case "L", "W":
		e["trees"] = listOf(trs, m)
	}
}

// driveMemRace hammers one store from many goroutines, without the logging
// that would order them; the race detector watches.
func driveMemRace(e *env) {
	r := e.rng("memrace")
	for it := 0; it < e.n; it++ {
		done := e.begin(it)
		ms := appdash.NewMemoryStore()
		var wg sync.WaitGroup
		par := randForest(r, 8)
		m := newIDs(r, 0)
		for i := 0; i < 12; i++ {
			m.id(i)
			m.tid(i)
		}
		m.id(99)
		for th := 0; th < 6; th++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var held []*appdash.Trace
				for k := 0; k < 40; k++ {
					t := 1 + rr.Intn(2)
					switch rr.Intn(12) {
					case 0:
						trs, _ := ms.Traces(appdash.TracesOpts{})
						held = append(held, trs...)
					case 1, 2:
						if tr, err := ms.Trace(m.tid(t)); err == nil {
							held = append(held, tr)
						}
					case 3:
						if rr.Intn(4) == 0 {
							ms.Delete(m.tid(t))
						}
					case 4:
						var b bytes.Buffer
						ms.Write(&b)
						if rr.Intn(3) == 0 {
							ms.ReadFrom(&b)
						}
					case 5: // change what was returned
						for _, tr := range held {
							for i := range tr.Annotations {
								tr.Annotations[i].Key = "mine"
							}
							tr.Annotations = append(tr.Annotations, appdash.Annotation{Key: "mine"})
							tr.Sub = append(tr.Sub, nil)[:len(tr.Sub)]
						}
					default:
						s := 1 + rr.Intn(8)
						ms.Collect(m.span(t, s, par[s-1]), appdash.Annotation{Key: "k", Value: []byte("v")})
					}
					for _, tr := range held {
						flat(tr, m)
					}
					if len(held) > 3 {
						held = held[len(held)-3:]
					}
				}
			}()
		}
		wg.Wait()
		done()
	}
}
