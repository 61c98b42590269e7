package drive

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sync"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	drivers["ids"] = driveIDs
	drivers["idsproc"] = driveIDsProc
}

// idNum numbers IDs in the order in which they are met.
type idNum struct {
	m map[appdash.ID]int
}

func (x *idNum) of(v appdash.ID) int {
	n, ok := x.m[v]
	if !ok {
		n = len(x.m)
		x.m[v] = n
	}
	return n
}

func (x *idNum) span(s appdash.SpanID) Ev {
	return Ev{"t": x.of(s.Trace), "s": x.of(s.Span), "p": x.of(s.Parent)}
}

type idsRun struct {
	mu  sync.Mutex
	rec *Rec
	num idNum
}

func newIDsRun(name string) *idsRun {
	return &idsRun{rec: newRec(name), num: idNum{m: map[appdash.ID]int{0: 0}}}
}

func (x *idsRun) root() appdash.SpanID {
	id := appdash.NewRootSpanID()
	x.mu.Lock()
	x.rec.add(Ev{"op": "root", "id": x.num.span(id)})
	x.mu.Unlock()
	return id
}

func (x *idsRun) child(par appdash.SpanID, rec bool) appdash.SpanID {
	var id appdash.SpanID
	if rec {
		id = appdash.NewRecorder(par, appdash.NewLocalCollector(appdash.NewMemoryStore())).Child().SpanID
	} else {
		id = appdash.NewSpanID(par)
	}
	x.mu.Lock()
	x.rec.add(Ev{"op": "child", "par": x.num.span(par), "id": x.num.span(id), "rec": rec})
	x.mu.Unlock()
	return id
}

// oddParent is a parent that was not made here.
func oddParent(r *rand.Rand) appdash.SpanID {
	v := func() appdash.ID {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return ^appdash.ID(0)
		case 2:
			return appdash.ID(r.Intn(5))
		}
		return appdash.ID(r.Uint64())
	}
	return appdash.SpanID{Trace: v(), Span: v(), Parent: v()}
}

// idsBulk makes n IDs with g callers at once.
func idsBulk(n, g int) (all [][]uint64, linked bool) {
	all = make([][]uint64, g)
	ok := make([]bool, g)
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := make([]uint64, 0, n/g+2)
			good := true
			cur := appdash.NewRootSpanID()
			out = append(out, uint64(cur.Trace), uint64(cur.Span))
			for len(out) < n/g {
				if len(out)%7 < 2 {
					cur = appdash.NewRootSpanID()
					good = good && cur.Parent == 0
					out = append(out, uint64(cur.Trace), uint64(cur.Span))
					continue
				}
				ch := appdash.NewSpanID(cur)
				good = good && ch.Trace == cur.Trace && ch.Parent == cur.Span
				out = append(out, uint64(ch.Span))
				cur = ch
			}
			all[i], ok[i] = out, good
		}(i)
	}
	wg.Wait()
	linked = true
	for _, b := range ok {
		linked = linked && b
	}
	return all, linked
}

// distinct counts the different values other than zero.
func distinct(lists [][]uint64) (n, uniq int) {
	const P = 64
	for _, l := range lists {
		n += len(l)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	for p := 0; p < P; p++ {
		wg.Add(1)
		sem <- true
		go func(p uint64) {
			defer wg.Done()
			defer func() { <-sem }()
			var mine []uint64
			for _, l := range lists {
				for _, v := range l {
					if v*0x9e3779b97f4a7c15>>58 == p {
						mine = append(mine, v)
					}
				}
			}
			slices.Sort(mine)
			u := 0
			for i, v := range mine {
				if v != 0 && (i == 0 || mine[i-1] != v) {
					u++
				}
			}
			mu.Lock()
			uniq += u
			mu.Unlock()
		}(uint64(p))
	}
	wg.Wait()
	return n, uniq
}

// driveIDsProc is another process that makes IDs.
func driveIDsProc(e *env) {
	all, linked := idsBulk(e.n, 1+int(e.seed)%4)
	f, err := os.Create(filepath.Join(e.dir, "ids.bin"))
	if err != nil {
		e.t.Fatal(err)
	}
	defer f.Close()
	for _, l := range all {
		b := make([]byte, 8*len(l))
		for i, v := range l {
			binary.LittleEndian.PutUint64(b[8*i:], v)
		}
		if _, err := f.Write(b); err != nil {
			e.t.Fatal(err)
		}
	}
	r := newRec("proc")
	r.add(Ev{"op": "linked", "ok": linked})
	e.emit(r)
}

func driveIDs(e *env) {
	r := e.rng("ids")
	if e.mode == "bulk" {
		driveIDsBulk(e)
		return
	}
	// programs of the specification: each caller is a goroutine
	for k, s := range e.stim {
		var prog []struct{ C, Q int }
		if err := json.Unmarshal(s, &prog); err != nil {
			e.t.Fatal(err)
		}
		done := e.begin(prog)
		x := newIDsRun(fmt.Sprintf("stim%d", k+1))
		spans := []appdash.SpanID{{}}
		work := map[int]chan func(){}
		for _, p := range prog {
			if work[p.C] == nil {
				ch := make(chan func())
				work[p.C] = ch
				go func() {
					for f := range ch {
						f()
					}
				}()
			}
			back := make(chan bool)
			q := p.Q
			work[p.C] <- func() {
				if q == 0 {
					spans = append(spans, x.root())
				} else {
					spans = append(spans, x.child(spans[q], k%2 == 1))
				}
				close(back)
			}
			<-back
		}
		for _, ch := range work {
			close(ch)
		}
		e.emit(x.rec)
		done()
	}
	// callers at the same time
	for i := 0; i < e.n; i++ {
		seed := r.Int63()
		done := e.begin(seed)
		x := newIDsRun(fmt.Sprintf("rand%d", i+1))
		g := 1 + r.Intn(6)
		var pool []appdash.SpanID
		var mu sync.Mutex
		var wg sync.WaitGroup
		start := make(chan bool)
		for c := 0; c < g; c++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(seed + int64(c)))
			go func() {
				defer wg.Done()
				<-start
				for k := 3 + rr.Intn(12); k > 0; k-- {
					mu.Lock()
					var par *appdash.SpanID
					if len(pool) > 0 && rr.Intn(3) > 0 {
						par = &pool[rr.Intn(len(pool))]
					}
					mu.Unlock()
					var id appdash.SpanID
					switch {
					case par != nil:
						id = x.child(*par, rr.Intn(3) == 0)
					case rr.Intn(4) == 0:
						id = x.child(oddParent(rr), rr.Intn(3) == 0)
					default:
						id = x.root()
					}
					mu.Lock()
					pool = append(pool, id)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		e.emit(x.rec)
		done()
	}
}

// driveIDsBulk makes n IDs in this process and some more in others.
func driveIDsBulk(e *env) {
	done := e.begin("bulk")
	all, linked := idsBulk(e.n, 4)
	for p := 0; p < 6; p++ {
		dir := filepath.Join(e.dir, fmt.Sprintf("proc%d", p))
		if err := os.Mkdir(dir, 0o777); err != nil {
			e.t.Fatal(err)
		}
		cmd := exec.Command(os.Args[0], "-test.run", "^TestDrive$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "DRV=idsproc", "DRV_MODE=", "DRV_IN=", "DRV_N=300000", "DRV_DIR="+dir, "DRV_OUT="+filepath.Join(dir, "out"), fmt.Sprintf("VERIF_SEED=%d", p))
		if out, err := cmd.CombinedOutput(); err != nil {
			e.t.Fatalf("%v: %s", err, out)
		}
		rec, err := os.ReadFile(filepath.Join(dir, "out"))
		if err != nil {
			e.t.Fatal(err)
		}
		var got Rec
		if err := json.Unmarshal(rec, &got); err != nil {
			e.t.Fatal(err)
		}
		linked = linked && got.Ev[0]["ok"] == true
		b, err := os.ReadFile(filepath.Join(dir, "ids.bin"))
		if err != nil {
			e.t.Fatal(err)
		}
		l := make([]uint64, len(b)/8)
		for i := range l {
			l[i] = binary.LittleEndian.Uint64(b[8*i:])
		}
		all = append(all, l)
	}
	x := newIDsRun("bulk")
	n, uniq := distinct(all)
	x.rec.add(Ev{"op": "bulk", "n": n, "new": uniq, "linked": linked})
	e.emit(x.rec)
	done()
}
