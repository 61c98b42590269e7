package drive

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
)

func init() { drivers["view"] = driveView }

// vwTimed is a registered event with a duration and important keys.
type vwTimed struct {
	From time.Time `trace:"vw.From"`
	To   time.Time `trace:"vw.To"`
	Note string    `trace:"vw.Note"`
}

func (vwTimed) Schema() string      { return "vwTimed" }
func (e vwTimed) Start() time.Time  { return e.From }
func (e vwTimed) End() time.Time    { return e.To }
func (vwTimed) Important() []string { return []string{"vw.Note", "vw note"} }

// vwPlain is neither timed nor important.
type vwPlain struct {
	Note string `trace:"vwp.Note"`
}

func (vwPlain) Schema() string { return "vwPlain" }

// vwAlien is timed but not registered.
type vwAlien struct {
	From time.Time `trace:"vwa.From"`
	To   time.Time `trace:"vwa.To"`
}

func (vwAlien) Schema() string      { return "vwAlien" }
func (e vwAlien) Start() time.Time  { return e.From }
func (e vwAlien) End() time.Time    { return e.To }
func (vwAlien) Important() []string { return []string{"vwa.From"} }

type vwKV struct {
	K string `json:"k"`
	V string `json:"v"`
	L string `json:"l"` // as a line
}

type vwNode struct {
	ID [3]string `json:"id"` // trace, span, parent
	D  int       `json:"d"`
	At int       `json:"at"` // its line in the rendered tree
	A  []vwKV    `json:"a"`
}

type vwProg struct {
	Up []int   `json:"up"` // up[i] < i
	ID []int   `json:"id"`
	T  [][]int `json:"t"` // of the root: start and end of each timed event
}

func vwNodes(t *appdash.Trace) []vwNode {
	out := []vwNode{}
	at := 1
	var rec func(t *appdash.Trace, d int)
	rec = func(t *appdash.Trace, d int) {
		h := func(v appdash.ID) string { return strconv.FormatUint(uint64(v), 16) }
		n := vwNode{ID: [3]string{h(t.ID.Trace), h(t.ID.Span), h(t.ID.Parent)}, D: d, At: at, A: []vwKV{}}
		for _, a := range t.Annotations {
			n.A = append(n.A, vwKV{short(a.Key), short(string(a.Value)), short(a.Key + " = " + string(a.Value))})
		}
		at += 1 + len(t.Annotations)
		out = append(out, n)
		for _, s := range t.Sub {
			rec(s, d+1)
		}
	}
	rec(t, 0)
	return out
}

var vwSpanLine = regexp.MustCompile(`^[|\- ]*\+ (Trace|Span) ([0-9a-f]+)`)

// vwLines reads a rendered tree.
func vwLines(s string) []Ev {
	out := []Ev{}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if m := vwSpanLine.FindStringSubmatch(l); m != nil {
			out = append(out, Ev{"kind": m[1], "id": m[2], "col": strings.Index(l, "+")})
		} else {
			out = append(out, Ev{"kind": "ann", "l": short(strings.TrimLeft(l, "| "))})
		}
	}
	return out
}

type vwTime struct{ s, e time.Time }

// vwEvent makes an event of one of several kinds, each at most once per span.
func vwEvent(kind int, t vwTime) (appdash.Event, bool) {
	switch kind {
	case 0:
		return appdash.Timespan{S: t.s, E: t.e}, true
	case 1:
		return sqltrace.SQLEvent{SQL: "SELECT 1", Tag: "t", ClientSend: t.s, ClientRecv: t.e}, true
	case 2:
		return httptrace.ServerEvent{Route: "r", ServerRecv: t.s, ServerSend: t.e}, true
	case 3:
		return httptrace.ClientEvent{ClientSend: t.s, ClientRecv: t.e}, true
	case 4:
		return vwTimed{From: t.s, To: t.e, Note: "note"}, true
	case 5:
		// the event that a trace returns can be recorded as well
		as, _ := appdash.MarshalEvent(appdash.Timespan{S: t.s, E: t.e})
		ev, err := (&appdash.Trace{Span: appdash.Span{Annotations: as}}).TimespanEvent()
		if err != nil {
			panic(err)
		}
		return ev, true
	case 6:
		return vwAlien{From: t.s, To: t.e}, false
	case 7:
		return vwPlain{Note: "x"}, false
	default:
		return appdash.LogWithTimestamp("m", t.s), false
	}
}

func runView(e *env, name string, p vwProg, r *rand.Rand) {
	defer e.begin(p)()
	rec := newRec(name)
	scale := []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Hour}[r.Intn(5)]
	base := time.Date(1700+r.Intn(480), 3, 4, 5, 6, 7, r.Intn(1e9), time.UTC)
	at := func(n int) time.Time {
		t := base.Add(time.Duration(n) * scale)
		if r.Intn(2) == 0 {
			t = t.In(time.FixedZone("", 60*(r.Intn(1400)-700)))
		}
		return t
	}
	unit := func(t time.Time) int {
		d := t.Sub(base)
		if d%scale != 0 || d/scale > 1<<30 || d < 0 {
			return -1
		}
		return int(d / scale)
	}
	m := newIDs(r, r.Intn(5))
	all := make([]*appdash.Trace, len(p.Up))
	times := make([][][]int, len(p.Up))
	for i := range p.Up {
		id := appdash.SpanID{Trace: m.tid(1), Span: m.id(p.ID[i])}
		if i > 0 {
			id.Parent = all[p.Up[i]-1].ID.Span
		} else if r.Intn(4) == 0 {
			id.Parent = m.id(100)
		}
		t := &appdash.Trace{Span: appdash.Span{ID: id}}
		times[i] = [][]int{}
		plan := [][]int{}
		if i == 0 {
			plan = p.T
		}
		if p.T == nil || i > 0 {
			for k := r.Intn(4); k > 0; k-- {
				plan = append(plan, []int{r.Intn(50), r.Intn(50)})
			}
		}
		kinds := r.Perm(9)
		for _, pl := range plan {
			for {
				if len(kinds) == 0 {
					break
				}
				ev, timed := vwEvent(kinds[0], vwTime{at(pl[0]), at(pl[1])})
				kinds = kinds[1:]
				as, err := appdash.MarshalEvent(ev)
				if err != nil {
					panic(err)
				}
				t.Annotations = append(t.Annotations, as...)
				if timed {
					times[i] = append(times[i], pl)
					break
				}
				if r.Intn(2) == 0 {
					break
				}
			}
		}
		for k := r.Intn(5); k > 0; k-- {
			a := appdash.Annotation{Key: []string{"Name", "Name", "name", "Name ", "k", "a = b", "Msg", "é", "SQL", "Tag", "sql",
				"Client.Request.Headers.If-None-Match", "Client.Request.Headers.If-Modified-Since", "vw note", "vwa.From", "vwp.Note"}[r.Intn(16)],
				Value: []byte([]string{"", "v", "two words", "x = y", "ü€", "+ Span 5", strings.Repeat("w", 300)}[r.Intn(7)])}
			j := r.Intn(len(t.Annotations) + 1)
			t.Annotations = append(t.Annotations[:j], append(appdash.Annotations{a}, t.Annotations[j:]...)...)
		}
		all[i] = t
		if i > 0 {
			up := all[p.Up[i]-1]
			up.Sub = append(up.Sub, t)
		}
	}
	// depth first
	var order []*appdash.Trace
	var ts [][][]int
	num := map[*appdash.Trace]int{}
	idx := map[*appdash.Trace]int{}
	for i, t := range all {
		idx[t] = i
	}
	var walk func(t *appdash.Trace)
	walk = func(t *appdash.Trace) {
		order = append(order, t)
		num[t] = len(order)
		ts = append(ts, times[idx[t]])
		for _, s := range t.Sub {
			walk(s)
		}
	}
	walk(all[0])
	rec.Cfg = Ev{"nodes": vwNodes(all[0]), "times": ts}
	for i, t := range order {
		if len(order) > 30 && r.Intn(len(order)) > 6 {
			continue
		}
		for k := 0; k < 3; k++ {
			q := order[r.Intn(len(order))].ID.Span
			if r.Intn(4) == 0 {
				q = m.id(50 + r.Intn(3))
			}
			var got *appdash.Trace
			ev := Ev{"op": "find", "i": i + 1, "q": strconv.FormatUint(uint64(q), 16)}
			if msg := guard(func() { got = t.FindSpan(q) }); msg != "" {
				ev["op"] = msg
			}
			ev["got"] = 0
			if got != nil {
				ev["got"] = -1
				if n, ok := num[got]; ok {
					ev["got"] = n
				}
			}
			rec.add(ev)
		}
		ev := Ev{"op": "text", "i": i + 1}
		if msg := guard(func() { ev["lines"] = vwLines(t.TreeString()) }); msg != "" {
			ev["op"] = msg
		}
		rec.add(ev)
		ev = Ev{"op": "name", "i": i + 1}
		if msg := guard(func() { ev["got"] = short(t.Name()) }); msg != "" {
			ev["op"] = msg
		}
		rec.add(ev)
		ev = Ev{"op": "times", "i": i + 1, "ok": false, "s": 0, "e": 0}
		if msg := guard(func() {
			if te, err := t.TimespanEvent(); err == nil {
				ev["ok"], ev["s"], ev["e"] = true, unit(te.Start()), unit(te.End())
			}
		}); msg != "" {
			ev["op"] = msg
		}
		rec.add(ev)
		ev = Ev{"op": "json", "i": i + 1}
		if msg := guard(func() {
			var back appdash.Trace
			if err := json.Unmarshal([]byte(t.String()), &back); err != nil {
				panic(err)
			}
			ev["nodes"] = vwNodes(&back)
			var span appdash.Span
			if err := json.Unmarshal([]byte(t.Span.String()), &span); err != nil {
				panic(err)
			}
			ev["span"] = vwNodes(&appdash.Trace{Span: span})
		}); msg != "" {
			ev["op"] = msg
		}
		rec.add(ev)
		ev = Ev{"op": "map", "i": i + 1, "m": []vwKV{}}
		if msg := guard(func() {
			kvs := []vwKV{}
			for k, v := range t.Annotations.StringMap() {
				kvs = append(kvs, vwKV{short(k), short(v), short(k + " = " + v)})
			}
			ev["m"] = kvs
		}); msg != "" {
			ev["op"] = msg
		}
		rec.add(ev)
		imp := []int{}
		for j, a := range t.Annotations {
			if a.Important() {
				imp = append(imp, j+1)
			}
		}
		rec.add(Ev{"op": "imp", "i": i + 1, "got": imp})
	}
	rec.add(Ev{"op": "same", "nodes": vwNodes(all[0])})
	e.emit(rec)
}

func driveView(e *env) {
	appdash.RegisterEvent(vwTimed{})
	appdash.RegisterEvent(vwPlain{})
	r := e.rng("view")
	for i, s := range e.stim {
		var p vwProg
		if err := json.Unmarshal(s, &p); err != nil {
			panic(err)
		}
		runView(e, fmt.Sprintf("gen-%d", i), p, rand.New(rand.NewSource(r.Int63())))
	}
	for i := 0; i < e.n; i++ {
		var p vwProg
		n := 1 + r.Intn(12)
		deep := 0
		if i == 0 && e.first {
			n, deep = 400, 1
		} else if i == 1 && e.first {
			n, deep = 1200, 2
		}
		for j := 0; j < n; j++ {
			up := 0
			if j > 0 {
				up = 1 + r.Intn(j)
				switch {
				case deep == 1: // a chain
					up = j
				case deep == 2: // many children
					up = 1 + r.Intn(min(j, 3))
				}
			}
			p.Up = append(p.Up, up)
			p.ID = append(p.ID, 1+j)
			if r.Intn(3) == 0 && deep == 0 {
				p.ID[j] = 1 + r.Intn(n)
			}
		}
		runView(e, fmt.Sprintf("rand-%d", i), p, rand.New(rand.NewSource(r.Int63())))
	}
}
