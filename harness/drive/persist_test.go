package drive

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"testing/synctest"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	drivers["persist"] = drivePersist
	drivers["persistkill"] = drivePersistKill
	drivers["persistchild"] = drivePersistChild
}

// verOf tells which version of the store a save holds: 1000*b+n if the
// annotations are 1000*b+1..1000*b+n, in one span, otherwise -1.
func verOf(b []byte) int {
	ms := appdash.NewMemoryStore()
	n, err := ms.ReadFrom(bytes.NewReader(b))
	if err != nil {
		return -1
	}
	if n == 0 {
		return -1
	}
	tr, err := ms.Trace(1)
	if err != nil || n != 1 {
		return -1
	}
	last := -1
	for i, a := range tr.Annotations {
		v, err := strconv.Atoi(string(a.Value[:bytes.IndexByte(append(a.Value, '.'), '.')]))
		if err != nil || i == 0 && v%1000 != 1 || i > 0 && v != last+1 {
			return -1
		}
		last = v
	}
	return last
}

func fileVer(file string) int {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return 0
	}
	if err != nil {
		return -2
	}
	return verOf(b)
}

func strays(file string, dirs ...string) int {
	n := 0
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, x := range es {
			if filepath.Join(d, x.Name()) != filepath.Clean(file) {
				n++
			}
		}
	}
	return n
}

type savePlan struct {
	Chunks int `json:"chunks"`
	Pause  int `json:"pause"`
	Fail   int `json:"fail"`
	Add    int `json:"add"`
	Swap   bool
}

// planStore is a persistent store whose saves follow a plan.
type planStore struct {
	*appdash.MemoryStore
	write func(enc []byte, w io.Writer) error
}

func (p *planStore) Write(w io.Writer) error {
	var b bytes.Buffer
	if err := p.MemoryStore.Write(&b); err != nil {
		return err
	}
	return p.write(b.Bytes(), w)
}

func verAnn(n, size int) appdash.Annotation {
	v := []byte(fmt.Sprintf("%06d.", n))
	return appdash.Annotation{Key: "n", Value: append(v, make([]byte, size)...)}
}

// otherFS returns a scratch directory on another filesystem than the
// temporary directory, or "".
func otherFS() string {
	d, err := os.MkdirTemp("/dev/shm", "appdash-verif-")
	if err != nil {
		return ""
	}
	return d
}

func drivePersist(e *env) {
	r := e.rng("persist")
	shm := otherFS()
	if shm != "" {
		defer os.RemoveAll(shm)
	}
	num := 0
	run := func(plan []savePlan, variant string, file0, size int) {
		num++
		dir := filepath.Join(e.dir, strconv.Itoa(num))
		tmp := filepath.Join(e.dir, "tmp"+strconv.Itoa(num))
		if variant == "shm" {
			if shm == "" {
				return
			}
			dir = filepath.Join(shm, strconv.Itoa(num))
		}
		if variant == "rel" {
			dir = filepath.Join(e.dir, "with space "+strconv.Itoa(num))
		}
		for _, d := range []string{dir, tmp} {
			if err := os.Mkdir(d, 0700); err != nil {
				e.t.Fatal(err)
			}
			defer os.RemoveAll(d)
		}
		os.Setenv("TMPDIR", tmp)
		defer os.Setenv("TMPDIR", e.dir)
		target := filepath.Join(dir, "store file")
		arg := target
		switch variant {
		case "rel":
			if err := os.Chdir(dir); err != nil {
				e.t.Fatal(err)
			}
			defer os.Chdir(e.dir)
			arg = "store file"
		case "nodir":
			target = filepath.Join(dir, "missing", "store")
			arg = target
		case "norename":
			if err := os.MkdirAll(filepath.Join(target, "x"), 0700); err != nil {
				e.t.Fatal(err)
			}
		}
		interval := 5
		rec := newRec("persist")
		rec.Cfg = Ev{"interval": interval, "store0": 1, "file0": file0, "timed": true, "norename": variant == "norename", "nodir": variant == "nodir"}
		ms := appdash.NewMemoryStore()
		root := appdash.SpanID{Trace: 1, Span: 2}
		ver := 1
		ms.Collect(root, verAnn(1, size))
		if file0 == 1 {
			var b bytes.Buffer
			ms.Write(&b)
			if err := os.WriteFile(target, b.Bytes(), 0600); err != nil {
				e.t.Fatal(err)
			}
		}
		defer e.begin(Ev{"plan": plan, "variant": variant, "file0": file0, "size": size})()
		e.bubble(func() {
			start := time.Now()
			now := func() int { return int(time.Since(start) / tick) }
			var mu sync.Mutex
			add := func(ev Ev) {
				mu.Lock()
				rec.add(ev)
				mu.Unlock()
			}
			see := func() int {
				if variant == "norename" {
					return file0
				}
				return fileVer(target)
			}
			observe := func() {
				add(Ev{"op": "o", "f": see(), "stray": strays(target, dir, tmp), "now": now()})
			}
			over := make(chan bool)
			returned := false
			k := 0
			ps := &planStore{MemoryStore: ms}
			ps.write = func(enc []byte, w io.Writer) error {
				if k >= len(plan) { // the end: leave without further effect
					add(Ev{"op": "b", "v": verOf(enc), "now": now()})
					close(over)
					runtime.Goexit()
				}
				p := plan[k]
				k++
				v := verOf(enc)
				add(Ev{"op": "b", "v": v, "now": now()})
				fail := func() error {
					add(Ev{"op": "w", "v": v, "err": "failed", "now": now()})
					return errors.New("save failed")
				}
				for c := 0; c < p.Chunks; c++ {
					if p.Fail == c+1 {
						return fail()
					}
					lo, hi := len(enc)*c/p.Chunks, len(enc)*(c+1)/p.Chunks
					if _, err := w.Write(enc[lo:hi]); err != nil {
						return err
					}
					observe()
					if p.Pause > 0 {
						time.Sleep(time.Duration(p.Pause) * tick)
						observe()
					}
					if c == 0 {
						if p.Swap { // as large as before
							ms.Delete(1)
							lo := ver/1000*1000 + 1000
							for i := 1; i <= ver%1000; i++ {
								ms.Collect(root, verAnn(lo+i, size))
							}
							ver = lo + ver%1000
							add(Ev{"op": "c", "v": ver})
						}
						for i := 0; i < p.Add; i++ {
							ver++
							ms.Collect(root, verAnn(ver, size))
							add(Ev{"op": "c", "v": ver})
						}
					}
				}
				if p.Fail > p.Chunks {
					return fail()
				}
				add(Ev{"op": "w", "v": v, "err": "", "now": now()})
				return nil
			}
			go func() {
				defer func() {
					if x := recover(); x != nil {
						add(Ev{"op": "X", "msg": "panic"})
					}
				}()
				err := appdash.PersistEvery(ps, time.Duration(interval)*tick, arg)
				returned = true
				add(Ev{"op": "ret", "err": errStr(err), "f": see(), "stray": strays(target, dir, tmp), "now": now()})
				close(over)
			}()
			stop, gone := make(chan bool), make(chan bool)
			go func() { // an observer
				defer close(gone)
				for {
					select {
					case <-stop:
						return
					case <-time.After(tick):
					}
					synctest.Wait()
					observe()
				}
			}()
			<-over
			close(stop)
			<-gone
			synctest.Wait()
			add(Ev{"op": "end", "returned": returned})
		})
		e.emit(rec)
	}
	for i, s := range e.stim {
		var plan []savePlan
		if err := json.Unmarshal(s, &plan); err != nil {
			e.t.Fatal(err)
		}
		run(plan, []string{"", "shm", "rel"}[i%3], i/3%2, 0)
	}
	run([]savePlan{{Chunks: 2}}, "nodir", 0, 0)
	run([]savePlan{{Chunks: 2}}, "norename", 0, 0)
	if e.first { // a large store: saves of 5, 10 and 15 MB
		run([]savePlan{{Chunks: 4, Add: 1}, {Chunks: 3, Pause: 1, Swap: true}, {Chunks: 2, Add: 1}, {Chunks: 5, Fail: 3}}, "", 0, 5<<20)
		run([]savePlan{{Chunks: 1, Add: 1}, {Chunks: 200, Fail: 150}}, "shm", 1, 5<<20)
	}
	for i := 0; i < e.n; i++ {
		var plan []savePlan
		for j := 0; j < 1+r.Intn(8); j++ {
			plan = append(plan, savePlan{Chunks: 1 + r.Intn(9), Pause: r.Intn(4) * r.Intn(6), Add: r.Intn(5) * r.Intn(2), Swap: r.Intn(3) == 0})
		}
		if r.Intn(2) == 0 {
			plan[len(plan)-1].Fail = 1 + r.Intn(9)
		}
		run(plan, []string{"", "shm", "rel", "norename"}[r.Intn(4)], 0, []int{0, 0, 0, 0, 0, 5000, 70000}[r.Intn(7)])
	}
}

// drivePersistKill kills a process that persists at a random moment, while
// sampling its file.
func drivePersistKill(e *env) {
	r := e.rng("persistkill")
	shm := otherFS()
	if shm != "" {
		defer os.RemoveAll(shm)
	}
	for i := 0; i < e.n; i++ {
		dir := filepath.Join(e.dir, "k"+strconv.Itoa(i))
		if i%3 == 2 && shm != "" {
			dir = filepath.Join(shm, "k"+strconv.Itoa(i))
		}
		if err := os.Mkdir(dir, 0700); err != nil {
			e.t.Fatal(err)
		}
		file := filepath.Join(dir, "store")
		rec := newRec("persistkill")
		rec.Cfg = Ev{"interval": 0, "store0": 0, "file0": 0, "timed": false, "norename": false, "nodir": false}
		end := e.begin(Ev{"kill": i})
		big := i%8 == 5
		for life := 0; life < 1+r.Intn(2); life++ {
			cmd := exec.Command(os.Args[0], "-test.run", "^TestDrive$")
			cmd.Env = append(os.Environ(), "DRV=persistchild", "DRV_IN=", "DRV_OUT="+filepath.Join(dir, "..", "child.out"), "DRV_FILE="+file, "TMPDIR="+e.dir,
				"DRV_CHUNK="+strconv.Itoa([]int{100, 1000, 100000}[r.Intn(3)]))
			if big {
				cmd.Env = append(cmd.Env, "DRV_BIG=12000000", "DRV_CHUNK=4000000")
			}
			if err := cmd.Start(); err != nil {
				e.t.Fatal(err)
			}
			last := -5
			t0 := time.Now()
			first := 0
			life := time.Duration(r.Intn(60000)) * time.Microsecond
			if big {
				life *= 5
			}
			gone := watchGone(file)
			for {
				f := fileVer(file)
				if f != last {
					rec.add(Ev{"op": "s", "f": f, "max": 1 << 30})
					last = f
				}
				if f > 0 && first == 0 { // count from the first save
					first = 1
					t0 = time.Now()
				}
				if first == 1 && time.Since(t0) > life || time.Since(t0) > 10*time.Second {
					break
				}
			}
			cmd.Process.Kill()
			cmd.Wait()
			if gone() && renameIsAtomic(dir) {
				rec.add(Ev{"op": "X", "msg": "the file was missing for a moment after a save"})
			}
			rec.add(Ev{"op": "s", "f": fileVer(file), "max": 1 << 30})
			if first == 0 {
				rec.add(Ev{"op": "X", "msg": "nothing was saved in 10 s"})
			}
		}
		end()
		os.RemoveAll(dir)
		e.emit(rec)
	}
}

// watchGone looks for moments at which file, once it exists, does not.
func watchGone(file string) func() bool {
	stop, res := make(chan bool), make(chan bool)
	go func() {
		seen, gone := false, false
		for {
			select {
			case <-stop:
				res <- gone
				return
			default:
			}
			if _, err := os.Lstat(file); err == nil {
				seen = true
			} else if seen && os.IsNotExist(err) {
				gone = true
			}
		}
	}()
	return func() bool { close(stop); return <-res }
}

// renameIsAtomic tells whether a file replaced by renaming is always there
// on the file system of dir, as watchGone sees it.
func renameIsAtomic(dir string) bool {
	f, t := filepath.Join(dir, "from"), filepath.Join(dir, "to")
	gone := watchGone(t)
	for t0 := time.Now(); time.Since(t0) < 2*time.Second; {
		os.WriteFile(f, []byte("x"), 0600)
		os.Rename(f, t)
	}
	ok := !gone()
	os.Remove(t)
	return ok
}

// drivePersistChild is the process that is killed.
func drivePersistChild(e *env) {
	file := os.Getenv("DRV_FILE")
	chunk := envInt("DRV_CHUNK", 1000)
	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	ms := appdash.NewMemoryStore()
	ver := 0
	if b, err := os.ReadFile(file); err == nil {
		if _, err := ms.ReadFrom(bytes.NewReader(b)); err != nil {
			e.t.Fatal(err)
		}
		ver = verOf(b)
	}
	root := appdash.SpanID{Trace: 1, Span: 2}
	if n := envInt("DRV_BIG", 0); n > 0 {
		ms.Collect(appdash.SpanID{Trace: 1, Span: 3, Parent: 2}, appdash.Annotation{Key: "pad", Value: make([]byte, n)})
	}
	size := []int{200, 200, 20000, 300000}[r.Intn(4)]
	more := func() {
		ver++
		ms.Collect(root, verAnn(ver, r.Intn(size)))
	}
	more()
	ps := &planStore{MemoryStore: ms}
	ps.write = func(enc []byte, w io.Writer) error {
		for len(enc) > 0 {
			k := chunk
			if k > len(enc) {
				k = len(enc)
			}
			if _, err := w.Write(enc[:k]); err != nil {
				return err
			}
			enc = enc[k:]
			if r.Intn(4) == 0 {
				time.Sleep(100 * time.Microsecond)
			}
		}
		return nil
	}
	go func() {
		for ver < 400 {
			time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			more()
		}
	}()
	go func() {
		time.Sleep(30 * time.Second)
		os.Exit(3)
	}()
	err := appdash.PersistEvery(ps, time.Duration(1+r.Intn(3))*time.Millisecond, file)
	e.t.Fatal(err)
}
