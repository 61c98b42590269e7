package drive

import (
	"encoding/json"
	"errors"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["recent"] = driveRecent }

const tick = time.Millisecond

// slowStore is the underlying store: it logs and can be slow.
type slowStore struct {
	*appdash.MemoryStore
	mu      sync.Mutex
	got     map[string]int // collections by text
	fail    bool
	before  func() // runs before a collection is stored
	deleted func(ids []appdash.ID)
}

func (s *slowStore) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	k := id.String()
	for _, a := range as {
		k += " " + annStr(a)
	}
	s.mu.Lock()
	s.got[k]++
	fail := s.fail
	s.mu.Unlock()
	if s.before != nil {
		s.before()
	}
	if fail {
		return errors.New("collect failed")
	}
	return s.MemoryStore.Collect(id, as...)
}

func (s *slowStore) Delete(ids ...appdash.ID) error {
	if s.deleted != nil {
		s.deleted(ids)
	}
	return s.MemoryStore.Delete(ids...)
}

func (s *slowStore) count(id appdash.SpanID, a appdash.Annotation) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.got[id.String()+" "+annStr(a)]
}

// bubble runs f in virtual time.
func (e *env) bubble(f func()) {
	synctest.Test(e.t, func(*testing.T) { f() })
}

func driveRecent(e *env) {
	r := e.rng("recent")
	type op struct {
		T int `json:"t"`
		D int `json:"d"`
	}
	run := func(min int, ops []op, faults bool, look int) {
		k := 0
		for _, o := range ops {
			k = max3(k, o.T, -o.T)
		}
		ts := traceIDs(r, k)
		rec := newRec("recent")
		rec.Cfg = Ev{"min": min}
		slow := r.Intn(3)
		defer e.begin(Ev{"min": min, "ops": ops, "slow": slow})()
		e.bubble(func() {
			start := time.Now()
			ss := &slowStore{MemoryStore: appdash.NewMemoryStore(), got: map[string]int{}}
			switch slow {
			case 1:
				ss.before = func() { time.Sleep(1) }
			}
			rs := &appdash.RecentStore{MinEvictAge: time.Duration(min) * tick, DeleteStore: ss, Debug: r.Intn(4) == 0}
			for i, o := range ops {
				time.Sleep(time.Duration(o.D) * tick)
				now := int(time.Since(start) / tick)
				if o.T < 0 { // a deletion
					labels, ids := []int{-o.T}, []appdash.ID{ts[-o.T]}
					for r.Intn(3) == 0 {
						labels = append(labels, 1+r.Intn(k))
						ids = append(ids, ts[labels[len(labels)-1]])
					}
					var err error
					if msg := guard(func() { err = rs.Delete(ids...) }); msg != "" {
						rec.add(Ev{"op": "X", "msg": msg})
						break
					}
					rec.add(Ev{"op": "x", "ids": labels, "err": errStr(err), "held": held(ss.MemoryStore, ts)})
					continue
				}
				id := appdash.SpanID{Trace: ts[o.T], Span: 7}
				ss.fail = faults && r.Intn(4) == 0
				want := ""
				if ss.fail {
					want = "collect failed"
				}
				var err error
				if msg := guard(func() { err = rs.Collect(id, numAnn(i)) }); msg != "" {
					rec.add(Ev{"op": "X", "msg": msg})
					break
				}
				synctest.Wait()
				if slow == 1 {
					time.Sleep(1)
					synctest.Wait()
				}
				ev := Ev{"op": "c", "t": o.T, "a": i, "now": now, "err": errStr(err), "want": want,
					"passed": ss.count(id, numAnn(i)) == 1, "look": i%look == 0 || i == len(ops)-1}
				if ev["look"] == true {
					ev["held"] = held(ss.MemoryStore, ts)
				}
				rec.add(ev)
			}
		})
		e.emit(rec)
	}
	for _, s := range e.stim {
		var ops []op
		if err := json.Unmarshal(s, &ops); err != nil {
			e.t.Fatal(err)
		}
		run(4, ops, false, 1)
	}
	for i := 0; i < e.n; i++ {
		min := []int{0, 1, 4, 10, 100000}[r.Intn(5)]
		ops := make([]op, 5+r.Intn(40))
		k := 1 + r.Intn(6)
		for j := range ops {
			ops[j].T = 1 + r.Intn(k)
			if i%3 == 0 && r.Intn(6) == 0 {
				ops[j].T = -ops[j].T
			}
			switch r.Intn(4) {
			case 0:
				ops[j].D = r.Intn(3)
			case 1:
				ops[j].D = r.Intn(min + 3)
			case 2:
				ops[j].D = min + r.Intn(3) - r.Intn(2)
			}
			if ops[j].D < 0 {
				ops[j].D = 0
			}
			if ops[j].D > 200000 {
				ops[j].D = 200000
			}
		}
		run(min, ops, i%4 == 0, 1)
	}
	// many traces, evicted together; no trace ever has exactly the evictable age
	for i := 0; i < 2+e.n/300; i++ {
		var ops []op
		next, look := 1, 25+r.Intn(10)
		huge := i == 0
		for phase := 0; phase < 4; phase++ {
			d := []int{0, 17 + r.Intn(20)}[min(phase, 1)]
			n := []int{150, 400, 20, 300}[(i+phase)%4] + r.Intn(60)
			if huge {
				n = []int{1800, 5, 30, 10}[phase]
				look = 300
			}
			for j := 0; j < n; j++ {
				t := next
				if j > 0 && r.Intn(3) == 0 {
					t = 1 + r.Intn(next) // of this phase, or seen again
				} else {
					next++
				}
				if j == n/2 {
					d = 1 + r.Intn(3)
				}
				ops = append(ops, op{T: t, D: d})
				d = 0
			}
		}
		run(10, ops, false, look)
	}
	for i := 0; i < e.n; i++ {
		driveRecentConc(e, r)
	}
}

func driveRecentConc(e *env, r *rand.Rand) {
	min := 4
	k := 1 + r.Intn(3)
	ts := traceIDs(r, k+3)
	rec := newRec("recentconc")
	rec.Cfg = Ev{"min": min}
	var mu sync.Mutex
	defer e.begin(Ev{"min": min, "conc": true})()
	seed := r.Int63()
	e.bubble(func() {
		r := rand.New(rand.NewSource(seed))
		start := time.Now()
		now := func() int { return int(time.Since(start) / tick) }
		delays := make([]int, 64)
		for i := range delays {
			delays[i] = []int{0, 0, 1, 2, 5}[r.Intn(5)]
		}
		nd := 0
		ss := &slowStore{MemoryStore: appdash.NewMemoryStore(), got: map[string]int{}}
		ss.before = func() {
			mu.Lock()
			d := delays[nd%len(delays)]
			nd++
			mu.Unlock()
			if d > 0 {
				time.Sleep(time.Duration(d) * tick)
			}
		}
		ss.deleted = func(ids []appdash.ID) {
			labels := []int{}
			for _, id := range ids {
				for i := 1; i < len(ts); i++ {
					if ts[i] == id {
						labels = append(labels, i)
					}
				}
			}
			mu.Lock()
			rec.add(Ev{"op": "d", "ids": labels, "now": now()})
			mu.Unlock()
		}
		rs := &appdash.RecentStore{MinEvictAge: time.Duration(min) * tick, DeleteStore: ss}
		n := 0
		collect := func(i, t int) {
			id := appdash.SpanID{Trace: ts[t], Span: 7}
			mu.Lock()
			rec.add(Ev{"op": "b", "i": i, "t": t, "now": now()})
			mu.Unlock()
			err := rs.Collect(id, numAnn(i))
			mu.Lock()
			rec.add(Ev{"op": "e", "i": i, "now": now(), "err": errStr(err), "passed": ss.count(id, numAnn(i)) == 1})
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for g := 0; g < 2+r.Intn(3); g++ {
			var waits, labels, nums []int
			for j := 0; j < 2+r.Intn(5); j++ {
				waits = append(waits, []int{0, 1, 2, 4, 5, 6}[r.Intn(6)])
				labels = append(labels, 1+r.Intn(k))
				nums = append(nums, n)
				n++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range waits {
					time.Sleep(time.Duration(waits[j]) * tick)
					collect(nums[j], labels[j])
				}
			}()
		}
		wg.Wait()
		synctest.Wait()
		ss.before = nil
		time.Sleep(time.Duration(min+1) * tick)
		collect(n, k+1)
		time.Sleep(time.Duration(min+1) * tick)
		collect(n+1, k+2)
		synctest.Wait()
		rec.add(Ev{"op": "z", "held": held(ss.MemoryStore, ts), "fresh": []int{k + 2}})
	})
	e.emit(rec)
}
