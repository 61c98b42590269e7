package drive

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["recorder"] = driveRecorder }

type recOp struct {
	O string `json:"o"`
	K int    `json:"k"`
}

// markEvent marshals itself: into annotations or into an error.
type markEvent struct {
	as  appdash.Annotations
	err error
}

func (markEvent) Schema() string { return "mark" }

func (e markEvent) MarshalEvent() (appdash.Annotations, error) {
	return append(appdash.Annotations(nil), e.as...), e.err
}

type plainEvent struct {
	A int
	B string
	C map[string]string
}

func (plainEvent) Schema() string { return "plain" }

type writerFunc func([]byte)

func (f writerFunc) Write(b []byte) (int, error) { f(b); return len(b), nil }

var failRE = regexp.MustCompile(`X\d+x`)

// failOf names the failure that a text is about.
func failOf(s string) string {
	m := failRE.FindAllString(s, -1)
	switch len(m) {
	case 0:
		if strings.Contains(strings.ToLower(s), "finish") {
			return "twice"
		}
		return "other: " + short(s)
	default:
		return strings.Join(m, "+")
	}
}

// keptErrs is an error list that was read and its contents then.
type keptErrs struct{ list, was []error }

type recRun struct {
	kept  []keptErrs
	rec   *Rec
	recs  []*appdash.Recorder
	own   map[string]bool // texts that we logged
	fail  []bool
	ncol  int
	known map[appdash.SpanID]int
}

func (x *recRun) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	note := false
	for _, a := range as {
		if a.Key == appdash.SchemaPrefix+"log" {
			note = true
		}
	}
	for _, a := range as {
		if a.Key == "Msg" && x.own[string(a.Value)] {
			note = false
		}
	}
	k := x.known[id]
	err := ""
	if x.fail[x.ncol%len(x.fail)] {
		err = fmt.Sprintf("X%dx", x.ncol+1000)
	}
	x.ncol++
	if note {
		x.rec.add(Ev{"op": "note", "k": k, "err": err})
	} else {
		x.rec.add(Ev{"op": "col", "k": k, "anns": annStrs(as), "err": err})
	}
	if err != "" {
		return errors.New("collector " + err)
	}
	return nil
}

func runRecorder(e *env, name string, ops []recOp, r *rand.Rand) {
	defer e.begin(ops)()
	x := &recRun{rec: newRec(name), own: map[string]bool{}, known: map[appdash.SpanID]int{}}
	switch r.Intn(3) {
	case 0:
		x.fail = []bool{false}
	default:
		for k := 1 + r.Intn(4); k > 0; k-- {
			x.fail = append(x.fail, r.Intn(2) == 0)
		}
	}
	logger := []bool{}
	mk := func(rc *appdash.Recorder) {
		x.recs = append(x.recs, rc)
		k := len(x.recs)
		x.known[rc.SpanID] = k
		lg := r.Intn(3) == 0
		logger = append(logger, lg)
		rc.Logger = nil
		if lg {
			rc.Logger = log.New(writerFunc(func(b []byte) {
				x.rec.add(Ev{"op": "log", "what": failOf(string(b))})
			}), "", 0)
		}
	}
	root := appdash.NewRootSpanID()
	if r.Intn(3) == 0 {
		root.Parent = 5
	}
	mk(appdash.NewRecorder(root, x))
	n := 0
	e.bubble(func() { // where time stands still
		for _, o := range ops {
			n++
			if o.K > len(x.recs) {
				o.K = 1
			}
			rc := x.recs[o.K-1]
			ret := Ev{"op": "ret", "k": o.K, "o": o.O}
			msg := ""
			switch o.O {
			case "E":
				var ev appdash.Event
				var do func()
				text := fmt.Sprintf("text %d", n)
				switch r.Intn(7) {
				case 0:
					ev, do = appdash.SpanNameEvent{Name: text}, func() { rc.Name(text) }
				case 1:
					ev, do = appdash.Msg(text), func() { rc.Msg(text) }
				case 2:
					x.own[text] = true
					ev, do = appdash.Log(text), func() { rc.Log(text) }
				case 3:
					x.own[text] = true
					t := time.Unix(int64(r.Intn(1000)), 5)
					ev, do = appdash.LogWithTimestamp(text, t), func() { rc.LogWithTimestamp(text, t) }
				case 4:
					ev = plainEvent{A: n, B: "b", C: map[string]string{"x": text}}
				case 5:
					ev = &plainEvent{A: n}
				default:
					ev = markEvent{as: appdash.Annotations{{Key: "m1", Value: []byte(text)}, {Key: "", Value: nil}}[:r.Intn(3)]}
				}
				if do == nil {
					do = func() { rc.Event(ev) }
				}
				as, err := appdash.MarshalEvent(ev)
				if err != nil {
					panic(err)
				}
				x.rec.add(Ev{"op": "call", "k": o.K, "o": "E", "anns": annStrs(as)})
				msg = guard(do)
			case "B":
				f := fmt.Sprintf("X%dx", n)
				x.rec.add(Ev{"op": "call", "k": o.K, "o": "B", "err": f})
				msg = guard(func() {
					rc.Event(markEvent{as: appdash.Annotations{{Key: "never"}}, err: errors.New("cannot " + f)})
				})
			case "F":
				x.rec.add(Ev{"op": "call", "k": o.K, "o": "F"})
				msg = guard(rc.Finish)
			case "A":
				as := []appdash.Annotation{}
				for j := r.Intn(3); j >= 0; j-- {
					as = append(as, appdash.Annotation{Key: fmt.Sprintf("raw%d", n), Value: []byte{byte(j)}})
				}
				x.rec.add(Ev{"op": "call", "k": o.K, "o": "A", "anns": annStrs(as)})
				msg = guard(func() { rc.Annotation(as...) })
			case "R":
				x.rec.add(Ev{"op": "call", "k": o.K, "o": "R"})
				errs := []string{}
				msg = guard(func() {
					got := rc.Errors()
					x.kept = append(x.kept, keptErrs{got, append([]error{}, got...)})
					for _, err := range got {
						errs = append(errs, failOf(err.Error()))
					}
				})
				ret["errs"] = errs
			case "C":
				x.rec.add(Ev{"op": "call", "k": o.K, "o": "C"})
				var ch *appdash.Recorder
				msg = guard(func() { ch = rc.Child() })
				if msg == "" {
					_, dup := x.known[ch.SpanID]
					fresh := !dup
					for id := range x.known {
						fresh = fresh && id.Span != ch.SpanID.Span
					}
					ret["ok"] = fresh && ch.SpanID.Span != 0 && ch.SpanID.Trace == rc.SpanID.Trace && ch.SpanID.Parent == rc.SpanID.Span
					mk(ch)
				}
			}
			if msg != "" {
				ret = Ev{"op": msg}
			}
			x.rec.add(ret)
		}
	})
	// What was read remains as it was.
	for _, k := range x.kept {
		for i := range k.list {
			if k.list[i] != k.was[i] {
				x.rec.add(Ev{"op": "an error list changed after it was read"})
			}
		}
	}
	x.rec.Cfg = Ev{"logger": logger}
	e.emit(x.rec)
}

func driveRecorder(e *env) {
	log.SetOutput(io.Discard)
	r := e.rng("recorder")
	for i, s := range e.stim {
		var st struct{ Ops []recOp }
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		runRecorder(e, fmt.Sprintf("gen-%d", i), st.Ops, rand.New(rand.NewSource(r.Int63())))
	}
	for i := 0; i < e.n; i++ {
		ops := []recOp{}
		for k := 1 + r.Intn(25); k > 0; k-- {
			ops = append(ops, recOp{O: []string{"E", "E", "E", "E", "B", "F", "A", "R", "C"}[r.Intn(9)], K: 1 + r.Intn(4)})
		}
		if i < 3 { // much for one recorder
			for k := []int{1100, 200, 100}[i] + r.Intn(200); k > 0; k-- {
				ops = append(ops, recOp{O: []string{"E", "E", "E", "B", "A"}[r.Intn(3+i)], K: 1})
			}
			ops = append(ops, recOp{O: "F", K: 1}, recOp{O: "R", K: 1}, recOp{O: "F", K: 1})
			for k := 150; k > 0 && i == 2; k-- {
				ops = append(ops, recOp{O: "C", K: 1})
			}
		}
		runRecorder(e, fmt.Sprintf("rand-%d", i), ops, rand.New(rand.NewSource(r.Int63())))
	}
}
