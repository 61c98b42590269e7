// Package drive holds the drivers that run the real appdash code and log
// what it does, for validation against the specifications in ../../specs.
package drive

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

// Ev is one event of a recorded trace.
type Ev map[string]any

// Rec is one recorded trace.
type Rec struct {
	Name string `json:"name"`
	Cfg  Ev     `json:"cfg"`
	Ev   []Ev   `json:"ev"`
}

func newRec(name string) *Rec { return &Rec{Name: name, Cfg: Ev{"_": 0}, Ev: []Ev{}} }

func (r *Rec) add(e Ev) { r.Ev = append(r.Ev, e) }

// env gives the parameters of a run.
type env struct {
	t    *testing.T
	seed int64
	n    int    // amount of work
	mode string // variant of the driver
	dir  string // scratch directory
	stim [][]byte

	mu    sync.Mutex
	out   *bufio.Writer
	cur   *os.File
	num   int
	first bool // of several processes, the one to do the most expensive runs
}

var drivers = map[string]func(*env){}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func TestDrive(t *testing.T) {
	name := os.Getenv("DRV")
	f := drivers[name]
	if f == nil {
		t.Fatalf("no driver %q", name)
	}
	debug.SetMaxStack(256 << 20)
	log.SetOutput(io.Discard)
	e := &env{t: t, seed: int64(envInt("VERIF_SEED", 1)), n: envInt("DRV_N", 100), mode: os.Getenv("DRV_MODE"), first: envInt("DRV_SHARD", 0) == 0 && envInt("DRV_RACE", 0) == 0, dir: os.Getenv("DRV_DIR")}
	if p := os.Getenv("DRV_IN"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				e.stim = append(e.stim, []byte(l))
			}
		}
	}
	o, err := os.Create(os.Getenv("DRV_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	e.out = bufio.NewWriterSize(o, 1<<20)
	e.cur, err = os.Create(os.Getenv("DRV_OUT") + ".cur")
	if err != nil {
		t.Fatal(err)
	}
	f(e)
	if err := e.out.Flush(); err != nil {
		t.Fatal(err)
	}
	if err := o.Close(); err != nil {
		t.Fatal(err)
	}
	fmt.Printf("DRIVE-DONE %d\n", e.num)
}

// rng returns the generator of random choices for a named purpose.
func (e *env) rng(name string) *rand.Rand {
	h := fnv.New64a()
	io.WriteString(h, name)
	return rand.New(rand.NewSource(e.seed*1000003 + int64(h.Sum64()>>1)))
}

// begin notes what is being run, so that a crash can be attributed, and
// starts a watchdog; the returned function ends both.
func (e *env) begin(what any) func() {
	b, _ := json.Marshal(what)
	if len(b) > 20000 {
		b = b[:20000]
	}
	e.mu.Lock()
	if time.Since(started) > budget { // what there is has to do
		e.out.Flush()
		fmt.Printf("DRIVE-DONE %d (stopped early)\n", e.num)
		os.Exit(0)
	}
	e.cur.Truncate(0)
	e.cur.WriteAt(b, 0)
	e.mu.Unlock()
	w := time.AfterFunc(watchdogTime, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "WATCHDOG: %s still running\n%s\n", b, buf)
		os.Exit(7)
	})
	return func() { w.Stop() }
}

// A driver begins no further run when its time is up.
var (
	started = time.Now()
	budget  = time.Duration(envInt("DRV_BUDGET", 1000000)) * time.Second
)

var watchdogTime = time.Duration(envInt("DRV_WATCHDOG", 60)) * time.Second

// emit writes a trace.
func (e *env) emit(r *Rec) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	e.mu.Lock()
	e.out.Write(b)
	e.out.WriteByte('\n')
	e.num++
	e.mu.Unlock()
}

// guard runs f and returns the panic message, if any.
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
			if os.Getenv("DRV_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
			}
		}
	}()
	f()
	return ""
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	if err.Error() == "" {
		return "(empty error)"
	}
	return err.Error()
}

// ids maps small labels to 64-bit IDs and back.
type ids struct {
	mode      int
	r         *rand.Rand
	to, tto   map[int]appdash.ID // spans, traces
	from, tfr map[appdash.ID]int
	base      uint64
	share     bool // IDs of traces may be those of spans
}

func newIDs(r *rand.Rand, mode int) *ids {
	return &ids{mode: mode, r: r, to: map[int]appdash.ID{0: 0}, from: map[appdash.ID]int{0: 0},
		tto: map[int]appdash.ID{}, tfr: map[appdash.ID]int{}, base: r.Uint64(), share: r.Intn(2) == 0}
}

func (m *ids) fresh(label int, to map[int]appdash.ID, from map[appdash.ID]int) appdash.ID {
	if v, ok := to[label]; ok {
		return v
	}
	for {
		var v uint64
		switch m.mode {
		case 0:
			v = m.r.Uint64()
		case 1: // same low half
			v = uint64(m.r.Uint32())<<32 | m.base&0xffffffff
		case 2: // same high half
			v = m.base&^0xffffffff | uint64(m.r.Uint32())
		case 3:
			v = uint64(label)
		default:
			v = ^uint64(0) - uint64(m.r.Intn(4096))
		}
		if _, used := from[appdash.ID(v)]; used || v == 0 {
			if m.mode == 3 {
				m.mode = 0
			}
			continue
		}
		to[label] = appdash.ID(v)
		from[appdash.ID(v)] = label
		return to[label]
	}
}

// id is the ID of a span, tid that of a trace (which may be the ID of one of
// its spans, or of a span of another trace).
func (m *ids) id(label int) appdash.ID { return m.fresh(label, m.to, m.from) }

func (m *ids) tid(label int) appdash.ID {
	if _, ok := m.tto[label]; !ok && m.share {
		v := m.id(1 + m.r.Intn(3))
		if _, used := m.tfr[v]; !used && m.r.Intn(2) == 0 {
			m.tto[label], m.tfr[v] = v, label
		}
	}
	return m.fresh(label, m.tto, m.tfr)
}

func (m *ids) label(id appdash.ID) int {
	if l, ok := m.from[id]; ok {
		return l
	}
	return -1
}

func (m *ids) span(t, s, p int) appdash.SpanID {
	return appdash.SpanID{Trace: m.tid(t), Span: m.id(s), Parent: m.id(p)}
}

func (m *ids) traceLabel(id appdash.ID) int {
	if l, ok := m.tfr[id]; ok {
		return l
	}
	return -1
}

// annStr is the canonical text of an annotation.
func annStr(a appdash.Annotation) string {
	return short(a.Key) + "=" + short(string(a.Value))
}

func short(s string) string {
	plain := len(s) <= 64
	for i := 0; plain && i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 || s[i] == '"' || s[i] == '\\' || s[i] == '=' || s[i] == '~' {
			plain = false
		}
	}
	if plain {
		return s
	}
	if len(s) <= 32 {
		return "~" + hex.EncodeToString([]byte(s))
	}
	h := fnv.New64a()
	io.WriteString(h, s)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], h.Sum64())
	return fmt.Sprintf("~%d#%s", len(s), hex.EncodeToString(b[:]))
}

func annStrs(as []appdash.Annotation) []string {
	out := make([]string, 0, len(as))
	for _, a := range as {
		out = append(out, annStr(a))
	}
	return out
}

// node is one span of a returned tree.
type node struct {
	S int      `json:"s"`
	P int      `json:"p"`
	U int      `json:"u"`
	T int      `json:"t"`
	A []string `json:"a"`
}

// flat lists a returned tree depth first; cyc tells that it is not a tree
// (a node is reached twice) or has a nil child.
func flat(tr *appdash.Trace, m *ids) (nodes []node, cyc bool) {
	nodes = []node{}
	seen := map[*appdash.Trace]bool{}
	var rec func(t *appdash.Trace, up int)
	rec = func(t *appdash.Trace, up int) {
		if t == nil || seen[t] {
			cyc = true
			return
		}
		seen[t] = true
		s := m.label(t.ID.Span)
		nodes = append(nodes, node{S: s, P: m.label(t.ID.Parent), U: up, T: m.traceLabel(t.ID.Trace), A: annStrs(t.Annotations)})
		for _, c := range t.Sub {
			rec(c, s)
		}
	}
	rec(tr, 0)
	return nodes, cyc
}
