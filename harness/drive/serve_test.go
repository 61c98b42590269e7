package drive

import (
	"encoding/json"
	"fmt"
	"html"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["serve"] = driveServe }

type serveRun struct {
	r    *rand.Rand
	m    *ids
	rec  *Rec
	x    *tappRun
	mu   sync.Mutex
	dir  string
	file string
	args []string
	p    *appProc
	cols []*appdash.RemoteCollector
	// spans by owner, and the number of packets
	spans   [][]Ev
	traces  int
	nspans  int
	packets int
}

func (x *serveRun) start() bool {
	x.p = startApp(x.dir, false, x.args...)
	if x.p == nil {
		x.rec.add(Ev{"op": "up", "ok": false, "n": []Ev{}})
		return false
	}
	n, err := x.shown()
	ev := Ev{"op": "up", "ok": err == nil, "n": n}
	if err != nil {
		ev["err"] = err.Error()
	}
	x.rec.add(ev)
	x.cols = nil
	for i := 0; i < 2; i++ {
		x.cols = append(x.cols, appdash.NewRemoteCollector(x.p.coll))
	}
	return true
}

// shown lists the spans that the server shows.
func (x *serveRun) shown() ([]Ev, error) {
	out := []Ev{}
	st, text, err := x.p.get("/traces", nil)
	if err != nil || st != 200 {
		return out, fmt.Errorf("status %d, %v", st, err)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, m := range reText.FindAllStringSubmatch(text, -1) {
		d, err := x.x.parseDoc([]byte(html.UnescapeString(m[1])))
		if err != nil {
			return out, err
		}
		for _, n := range d.N {
			out = append(out, Ev{"t": n.T, "s": n.S, "p": n.P, "a": n.A})
		}
	}
	return out, nil
}

func (x *serveRun) see() bool {
	n, err := x.shown()
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		x.rec.add(Ev{"op": "dead", "err": err.Error()})
		return false
	}
	x.rec.add(Ev{"op": "seen", "n": n})
	return true
}

// packet makes the next packet for connection c.
func (x *serveRun) packet(r *rand.Rand, c int) (appdash.SpanID, appdash.Annotations) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.packets++
	var sp Ev
	mine := x.spans[c]
	switch {
	case len(mine) > 0 && r.Intn(3) == 0:
		sp = mine[r.Intn(len(mine))]
	default:
		x.nspans++
		if len(mine) == 0 || r.Intn(3) == 0 {
			x.traces++
			sp = Ev{"t": x.traces, "s": x.nspans, "p": 0}
		} else {
			par := mine[r.Intn(len(mine))]
			sp = Ev{"t": par["t"], "s": x.nspans, "p": par["s"]}
		}
		x.spans[c] = append(mine, sp)
	}
	as := appdash.Annotations{{Key: "n", Value: []byte(fmt.Sprint(x.packets))}}
	for r.Intn(3) == 0 {
		b := make([]byte, r.Intn(60))
		r.Read(b)
		as = append(as, appdash.Annotation{Key: "k" + fmt.Sprint(r.Intn(3)), Value: b})
	}
	if r.Intn(30) == 0 || x.rec.Name == "much" && r.Intn(10) == 0 {
		as = append(as, appdash.Annotation{Key: "big", Value: make([]byte, 40000)})
	}
	x.rec.add(Ev{"op": "send", "c": c, "t": sp["t"], "s": sp["s"], "p": sp["p"], "a": annStrs(as)})
	return x.m.span(sp["t"].(int), sp["s"].(int), sp["p"].(int)), as
}

// send reports whether the collector took it.
func (x *serveRun) send(r *rand.Rand, c int) bool {
	id, as := x.packet(r, c)
	return x.cols[c].Collect(id, as...) == nil
}

type fileState struct {
	ino   uint64
	mt, n int64
}

func (x *serveRun) stat() fileState {
	var st syscall.Stat_t
	if err := syscall.Stat(x.file, &st); err != nil {
		return fileState{}
	}
	return fileState{st.Ino, st.Mtim.Nano(), st.Size}
}

// saves waits until the file was replaced n times from now on.
func (x *serveRun) saves(n int) bool {
	end := time.Now().Add(20 * time.Second)
	cur := x.stat()
	for n > 0 {
		if s := x.stat(); s != cur {
			cur = s
			n--
			continue
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(300 * time.Microsecond)
	}
	return true
}

func (x *serveRun) saved() {
	if !x.saves(2) {
		x.rec.add(Ev{"op": "dead", "err": "the file does not change"})
		return
	}
	x.mu.Lock()
	x.rec.add(Ev{"op": "saved"})
	x.mu.Unlock()
}

func (x *serveRun) kill(sig syscall.Signal) {
	x.p.kill(sig)
	for _, c := range x.cols {
		c.Close()
	}
	x.rec.add(Ev{"op": "kill"})
}

func newServeRun(e *env, r *rand.Rand, name string, k int) *serveRun {
	x := &serveRun{r: r, m: newIDs(r, r.Intn(4)), rec: newRec(name), spans: make([][]Ev, 2), dir: filepath.Join(e.dir, fmt.Sprintf("d%d", k))}
	if x.m.mode == 3 {
		x.m.mode = 0
	}
	x.x = &tappRun{m: x.m}
	if err := os.Mkdir(x.dir, 0o777); err != nil {
		e.t.Fatal(err)
	}
	x.file = filepath.Join(x.dir, "store.gob")
	iv := []string{"1ms", "5ms", "20ms"}[r.Intn(3)]
	x.args = []string{"--store-file=" + x.file, "--persist-interval=" + iv}
	if r.Intn(2) == 0 {
		x.args = append(x.args, "--delete-after=0")
	}
	if r.Intn(3) == 0 {
		// a file of the same name in the working directory
		x.args[0] = "--store-file=store.gob"
	}
	return x
}

func driveServe(e *env) {
	r := e.rng("serve")
	k := 0
	for _, s := range e.stim {
		var prog []string
		if err := json.Unmarshal(s, &prog); err != nil {
			e.t.Fatal(err)
		}
		k++
		done := e.begin(prog)
		x := newServeRun(e, r, fmt.Sprintf("stim%d", k), k)
		alive := x.start()
		for _, st := range prog {
			if !alive {
				break
			}
			switch st {
			case "s", "v":
				for i := 1 + r.Intn(3); i > 0; i-- {
					x.send(r, r.Intn(2))
				}
				if st == "v" {
					alive = x.settle()
				}
			case "w":
				x.saved()
			case "k":
				x.kill(syscall.SIGKILL)
				alive = x.start()
			case "m":
				time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
				x.kill(syscall.SIGKILL)
				alive = x.start()
			}
		}
		if alive {
			x.kill(syscall.SIGTERM)
			alive = x.start()
		}
		if alive {
			x.p.kill(syscall.SIGKILL)
		}
		os.RemoveAll(x.dir)
		e.emit(x.rec)
		done()
	}
	// much at once
	k++
	func() {
		defer e.begin("much")()
		x := newServeRun(e, r, "much", k)
		alive := x.start()
		for round := 0; round < 3 && alive; round++ {
			for i := 0; i < 400; i++ {
				x.send(r, i%2)
			}
			if alive = x.settle(); alive {
				x.saved()
				time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
				x.kill(syscall.SIGKILL)
				alive = x.start()
			}
		}
		if alive {
			x.p.kill(syscall.SIGKILL)
		}
		os.RemoveAll(x.dir)
		e.emit(x.rec)
	}()
	// packets all the time, and kills at any time
	for i := 0; i < e.n; i++ {
		k++
		done := e.begin(i)
		x := newServeRun(e, r, fmt.Sprintf("rand%d", i+1), k)
		alive := x.start()
		for life := 2 + r.Intn(3); life > 0 && alive; life-- {
			var wg sync.WaitGroup
			stop := make(chan bool)
			for c := 0; c < 2; c++ {
				wg.Add(1)
				rr := rand.New(rand.NewSource(r.Int63()))
				go func(c int) {
					defer wg.Done()
					for j := 0; j < 25; j++ {
						select {
						case <-stop:
							return
						case <-time.After(time.Duration(rr.Intn(1500)) * time.Microsecond):
						}
						if !x.send(rr, c) {
							return
						}
					}
				}(c)
			}
			for j := r.Intn(5); j > 0 && alive; j-- {
				if alive = x.see(); alive && r.Intn(2) == 0 {
					x.saved()
				}
			}
			time.Sleep(time.Duration(r.Intn(15000)) * time.Microsecond)
			sig := syscall.SIGKILL
			if r.Intn(4) == 0 {
				sig = syscall.SIGTERM
			}
			x.p.kill(sig)
			close(stop)
			wg.Wait()
			x.kill(sig)
			alive = x.start()
		}
		if alive {
			x.p.kill(syscall.SIGKILL)
		}
		os.RemoveAll(x.dir)
		e.emit(x.rec)
		done()
	}
}

// settle waits until everything sent in this life is shown.
func (x *serveRun) settle() bool {
	end := time.Now().Add(5 * time.Second)
	last := ""
	for {
		n, err := x.shown()
		if err != nil || time.Now().After(end) {
			return x.see()
		}
		b, _ := json.Marshal(n)
		if all := len(b); last == fmt.Sprint(all) {
			return x.see()
		} else {
			last = fmt.Sprint(all)
		}
		time.Sleep(2 * time.Millisecond)
	}
}
