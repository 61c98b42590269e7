package drive

import (
	"encoding/json"
	"errors"
	"math/rand"
	"strconv"
	"sync"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["limit"] = driveLimit }

// traceIDs gives the trace IDs used for labels 1.. k; they include the
// extreme ones.
func traceIDs(r *rand.Rand, k int) []appdash.ID {
	special := []appdash.ID{0, 1, 1 << 63, ^appdash.ID(0), 1<<63 - 1, 1 << 32, 0xffffffff, 2, 1<<63 + 1}
	r.Shuffle(len(special), func(i, j int) { special[i], special[j] = special[j], special[i] })
	if r.Intn(2) == 0 { // zero often, anywhere
		for i := range special {
			if special[i] == 0 {
				j := r.Intn(3)
				special[i], special[j] = special[j], special[i]
				break
			}
		}
	}
	out := []appdash.ID{0: 0}
	seen := map[appdash.ID]bool{}
	for i := 1; i <= k; i++ {
		v := appdash.ID(r.Uint64())
		if i <= len(special) && r.Intn(4) > 0 {
			v = special[i-1]
		}
		if seen[v] {
			v = appdash.ID(r.Uint64())
		}
		seen[v] = true
		out = append(out, v)
	}
	return out
}

// heldStore is an underlying store whose contents can be logged and whose
// deletions can be made to fail.
type heldStore struct {
	*appdash.MemoryStore
	mu    sync.Mutex
	fail  int // the number of deletions that will fail
	failC int // and of collections
}

func (h *heldStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	h.mu.Lock()
	f := h.failC > 0
	if f {
		h.failC--
	}
	h.mu.Unlock()
	if f {
		return errors.New("collect failed")
	}
	return h.MemoryStore.Collect(id, as...)
}

func (h *heldStore) Delete(ids ...appdash.ID) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.fail > 0 {
		h.fail--
		return errors.New("delete failed")
	}
	return h.MemoryStore.Delete(ids...)
}

// held logs what the store holds: per trace the numbers of its annotations.
func held(ms *appdash.MemoryStore, ts []appdash.ID) []Ev {
	out := []Ev{}
	trs, err := ms.Traces(appdash.TracesOpts{})
	if err != nil {
		return []Ev{{"t": -1, "a": []int{}}}
	}
	for _, tr := range trs {
		label := -1
		for i := 1; i < len(ts); i++ {
			if ts[i] == tr.ID.Trace {
				label = i
			}
		}
		as := []int{}
		var rec func(t *appdash.Trace)
		rec = func(t *appdash.Trace) {
			for _, a := range t.Annotations {
				n, err := strconv.Atoi(string(a.Value))
				if err != nil || a.Key != "n" {
					n = -1
				}
				as = append(as, n)
			}
			for _, c := range t.Sub {
				rec(c)
			}
		}
		rec(tr)
		out = append(out, Ev{"t": label, "a": as})
	}
	return out
}

func numAnn(n int) appdash.Annotation {
	return appdash.Annotation{Key: "n", Value: []byte(strconv.Itoa(n))}
}

func driveLimit(e *env) {
	r := e.rng("limit")
	run := func(max int, ops []int, faults bool, obs int) {
		k := 0
		for _, t := range ops {
			k = max3(k, t, -t)
		}
		ts := traceIDs(r, k)
		rec := newRec("limit")
		rec.Cfg = Ev{"max": max}
		hs := &heldStore{MemoryStore: appdash.NewMemoryStore()}
		ls := &appdash.LimitStore{Max: max, DeleteStore: hs}
		end := e.begin(Ev{"max": max, "ops": ops, "ids": ts})
		defer end()
		nfail := 0
		for i, t := range ops {
			hs.failC = 0
			if faults && r.Intn(3) == 0 {
				hs.fail = 1
			}
			// (few of them: the specification leaves open what comes of each)
			if faults && nfail < 3 && max < 10 && r.Intn(5) == 0 {
				hs.failC = 1
				nfail++
			}
			del := []int{}
			ids := []appdash.ID{}
			if t < 0 { // a deletion
				del, t = append(del, -t), -t
				for r.Intn(3) == 0 {
					del = append(del, 1+r.Intn(k))
				}
				for _, d := range del {
					ids = append(ids, ts[d])
				}
			}
			rec.add(Ev{"op": "c", "i": i, "t": t, "a": i, "d": del})
			var err error
			had, hadC := hs.fail, hs.failC
			f := func() { err = ls.Collect(appdash.SpanID{Trace: ts[t], Span: 7}, numAnn(i)) }
			if len(ids) > 0 {
				f = func() { err = ls.Delete(ids...) }
			}
			if msg := guard(f); msg != "" {
				rec.add(Ev{"op": "X", "msg": msg})
				break
			}
			rec.add(Ev{"op": "r", "i": i, "err": errStr(err), "fault": had > hs.fail, "faultC": hadC > hs.failC})
			if obs == 0 || i%obs == 0 || i == len(ops)-1 {
				rec.add(Ev{"op": "o", "held": held(hs.MemoryStore, ts)})
			}
		}
		e.emit(rec)
	}
	for _, s := range e.stim {
		var v struct {
			Max int   `json:"max"`
			Ops []int `json:"ops"`
		}
		if err := json.Unmarshal(s, &v); err != nil {
			e.t.Fatal(err)
		}
		run(v.Max, v.Ops, false, 1)
	}
	for i := 0; i < e.n; i++ {
		max := r.Intn(7)
		k := max + 1 + r.Intn(4)
		ops := make([]int, 10+r.Intn(60))
		for j := range ops {
			ops[j] = 1 + r.Intn(k)
			if j > 0 && r.Intn(4) == 0 {
				ops[j] = ops[r.Intn(j)]
			}
			if i%3 == 0 && r.Intn(4) == 0 {
				ops[j] = -1 - r.Intn(k)
			}
		}
		run(max, ops, i%2 == 0, 1)
	}
	// larger limits
	for i := 0; i < 2+e.n/200; i++ {
		max := []int{30, 1030, 64, 300}[i%4] + r.Intn(30)
		var ops []int
		for j := 1; j <= max; j++ {
			ops = append(ops, j)
		}
		for j := 0; j < max; j++ {
			ops = append(ops, 1+r.Intn(max), max+1+r.Intn(max/2), 1+r.Intn(max+max/2))
			if i%2 == 1 && r.Intn(4) == 0 {
				ops = append(ops, -1-r.Intn(max+max/2))
			}
		}
		run(max, ops, i%3 == 1, max/6)
	}
	if e.first { // limits that no small number holds
		for _, max := range []int{257, 1 << 15, 1<<16 + r.Intn(5000)} {
			e.emit(limitSum(e, r, max, max+1+r.Intn(3*max/2)))
		}
	}
	for i := 0; i < e.n; i++ {
		driveLimitConc(e, r)
	}
}

func max3(a, b, c int) int { return max(a, max(b, c)) }

func limitSum(e *env, r *rand.Rand, max, n int) *Rec {
	rec := newRec("limitsum")
	rec.Cfg = Ev{"max": max}
	defer e.begin(Ev{"max": max, "sum": n})()
	ms := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: max, DeleteStore: ms}
	f := r.Uint64() | 1
	id := func(i int) appdash.SpanID {
		return appdash.SpanID{Trace: appdash.ID(uint64(i) * f), Span: appdash.ID(i)}
	}
	msg := guard(func() {
		for i := 1; i <= n; i++ {
			for k := 0; k < 2; k++ {
				j := i
				if k == 1 { // one that is held
					j = i - r.Intn(min(i, max))
				}
				if err := ls.Collect(id(j), numAnn(j)); err != nil {
					rec.add(Ev{"op": "X", "msg": err.Error()})
				}
			}
		}
	})
	if msg != "" {
		rec.add(Ev{"op": "X", "msg": msg})
	}
	lo, hi, count, whole := 0, 0, 0, 0
	for i := 1; i <= n; i++ {
		t, err := ms.Trace(id(i).Trace)
		if err != nil {
			continue
		}
		if lo == 0 {
			lo = i
		}
		hi = i
		count++
		if t.Span.ID == id(i) && len(t.Sub) == 0 && len(t.Annotations) > 0 {
			whole++
		}
	}
	if ts, err := ms.Traces(appdash.TracesOpts{}); err != nil || len(ts) != count {
		count = -1
	}
	rec.add(Ev{"op": "sum", "n": n, "lo": lo, "hi": hi, "count": count, "whole": whole})
	return rec
}

// driveLimitConc runs rounds of concurrent collections and looks at the store
// between the rounds.
func driveLimitConc(e *env, r *rand.Rand) {
	max := 1 + r.Intn(4)
	k := max + 2 + r.Intn(2)
	ts := traceIDs(r, k)
	rec := newRec("limitconc")
	rec.Cfg = Ev{"max": max}
	hs := &heldStore{MemoryStore: appdash.NewMemoryStore()}
	ls := &appdash.LimitStore{Max: max, DeleteStore: hs}
	defer e.begin(Ev{"max": max, "ids": ts, "conc": true})()
	var mu sync.Mutex
	n := 0
	for round := 0; round < 2+r.Intn(2); round++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 2+r.Intn(2); g++ {
			var labels, nums []int
			var dels []bool
			for j := 0; j < 1+r.Intn(2); j++ {
				dels = append(dels, r.Intn(5) == 0)
				labels = append(labels, 1+r.Intn(k))
				nums = append(nums, n)
				n++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j, t := range labels {
					mu.Lock()
					del := []int{}
					if dels[j] {
						del = append(del, t)
					}
					rec.add(Ev{"op": "c", "i": nums[j], "t": t, "a": nums[j], "d": del})
					mu.Unlock()
					var err error
					if dels[j] {
						err = ls.Delete(ts[t])
					} else {
						err = ls.Collect(appdash.SpanID{Trace: ts[t], Span: 7}, numAnn(nums[j]))
					}
					mu.Lock()
					rec.add(Ev{"op": "r", "i": nums[j], "err": errStr(err), "fault": false, "faultC": false})
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		rec.add(Ev{"op": "o", "held": held(hs.MemoryStore, ts)})
	}
	e.emit(rec)
}
