package drive

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
)

func init() { drivers["spantext"] = driveSpanText }

// nib lists the hexadecimal digits of a number.
func nib(v appdash.ID) []int {
	out := make([]int, 16)
	for i := range out {
		out[i] = int(uint64(v) >> (60 - 4*uint(i)) & 15)
	}
	return out
}

func nibID(id appdash.SpanID) [][]int { return [][]int{nib(id.Trace), nib(id.Span), nib(id.Parent)} }

func codes(s string) []int {
	out := make([]int, len(s))
	for i := range out {
		out[i] = int(s[i])
	}
	return out
}

func codesAll(ss []string) [][]int {
	out := [][]int{}
	for _, s := range ss {
		out = append(out, codes(s))
	}
	return out
}

var spanTokens = map[string]string{
	"0": "0", "1": "1", "f": "f", "F": "F", "g": "g", "/": "/", "-": "-", "+": "+", "_": "_", "sp": " ", "0x": "0x",
	"f16": "ffffffffffffffff", "f17": "fffffffffffffffff", "z": "0000000000000000000001", "dot": ".", "nl": "\n",
	"u": "\u0661", "nul": "\x00", "8": "8000000000000000", "id": "00000000deadbeef",
}

func tokens(ts []string) string {
	s := ""
	for _, t := range ts {
		v, ok := spanTokens[t]
		if !ok {
			panic("token " + t)
		}
		s += v
	}
	return s
}

type spanTextRun struct {
	rec *Rec
	col []appdash.SpanID
	mw  func(http.ResponseWriter, *http.Request, http.HandlerFunc)
	ctx bool
	saw []appdash.SpanID
}

func newSpanTextRun(name string, r *rand.Rand) *spanTextRun {
	x := &spanTextRun{rec: newRec(name), ctx: r.Intn(2) == 0}
	conf := &httptrace.MiddlewareConfig{}
	if !x.ctx {
		conf.SetContextSpan = func(_ *http.Request, id appdash.SpanID) { x.saw = append(x.saw, id) }
	}
	x.mw = httptrace.Middleware(collectorFunc2(func(id appdash.SpanID, as []appdash.Annotation) error {
		x.col = append(x.col, id)
		return nil
	}), conf)
	return x
}

func (x *spanTextRun) add(msg string, e Ev) {
	if msg != "" {
		e = Ev{"op": msg, "was": e["op"]}
	}
	x.rec.add(e)
}

func (x *spanTextRun) parse(s string) {
	var id *appdash.SpanID
	var err error
	msg := guard(func() { id, err = appdash.ParseSpanID(s) })
	e := Ev{"op": "parse", "text": codes(s), "ok": err == nil}
	if msg == "" && err == nil {
		e["id"] = nibID(*id)
	}
	x.add(msg, e)
}

func (x *spanTextRun) num(s string) {
	var n appdash.ID
	var err error
	msg := guard(func() { n, err = appdash.ParseID(s) })
	x.add(msg, Ev{"op": "pid", "text": codes(s), "ok": err == nil, "id": nib(n)})
	if strings.ToValidUTF8(s, "") == s {
		b, _ := json.Marshal(s)
		msg = guard(func() { n = 7; err = json.Unmarshal(b, &n) })
		x.add(msg, Ev{"op": "jstr", "text": codes(s), "ok": err == nil, "id": nib(n)})
	}
}

func (x *spanTextRun) dec(s string) {
	var n appdash.ID
	var err error
	msg := guard(func() { err = json.Unmarshal([]byte(s), &n) })
	x.add(msg, Ev{"op": "jnum", "dec": codes(s), "ok": err == nil, "id": nib(n)})
}

func (x *spanTextRun) format(id appdash.SpanID) {
	var s string
	x.add(guard(func() { s = id.String() }), Ev{"op": "fmt", "id": nibID(id), "text": codes(s)})
	msg := guard(func() { s = id.Format("%[1]s") })
	x.add(msg, Ev{"op": "fmt", "id": nibID(id), "text": codes(s)})
	x.parse(s)
	x.parse(strings.ToUpper(s))
	var back appdash.SpanID
	var err error
	msg = guard(func() {
		var b []byte
		if b, err = json.Marshal(id); err == nil {
			err = json.Unmarshal(b, &back)
		}
	})
	x.add(msg, Ev{"op": "json", "id": nibID(id), "ok": err == nil, "back": nibID(back)})
	// and inside other values
	type holder struct {
		M map[string]*appdash.SpanID
		L []appdash.ID
	}
	var h holder
	msg = guard(func() {
		var buf bytes.Buffer
		if err = json.NewEncoder(&buf).Encode(holder{M: map[string]*appdash.SpanID{"x": &id}, L: []appdash.ID{id.Trace, id.Span, id.Parent}}); err == nil {
			err = json.NewDecoder(&buf).Decode(&h)
		}
	})
	ok := err == nil && len(h.L) == 3 && h.M["x"] != nil && *h.M["x"] == (appdash.SpanID{Trace: h.L[0], Span: h.L[1], Parent: h.L[2]})
	if ok {
		back = *h.M["x"]
	}
	x.add(msg, Ev{"op": "json", "id": nibID(id), "ok": ok, "back": nibID(back)})
}

func hdrs(span, parent []string) http.Header {
	h := http.Header{"Accept": {"*/*"}}
	if span != nil {
		h["Span-Id"] = span
	}
	if parent != nil {
		h["Parent-Span-Id"] = parent
	}
	return h
}

func (x *spanTextRun) headers(span, parent []string) {
	var id *appdash.SpanID
	var err error
	msg := guard(func() { id, err = httptrace.GetSpanID(hdrs(span, parent)) })
	e := Ev{"op": "get", "span": codesAll(span), "parent": codesAll(parent), "ok": err == nil}
	if msg == "" && err == nil {
		e["id"] = nibID(*id)
	}
	x.add(msg, e)

	req := httptest.NewRequest("GET", "http://h.example/p", nil)
	req.Header = hdrs(span, parent)
	x.col, x.saw = nil, nil
	ran := 0
	w := httptest.NewRecorder()
	msg = guard(func() {
		x.mw(w, req, func(w http.ResponseWriter, r *http.Request) {
			ran++
			if x.ctx {
				id := httptrace.SpanID(r)
				x.saw = append(x.saw, id)
				if c, ok := httptrace.SpanIDFromContext(r.Context()); !ok || c != id {
					x.saw = append(x.saw, c)
				}
			}
			w.WriteHeader(204)
		})
	})
	col := [][][]int{}
	for _, id := range x.col {
		col = append(col, nibID(id))
	}
	if w.Code != 204 || len(x.saw) != 1 {
		ran = -1
		x.saw = append(x.saw, appdash.SpanID{})
	}
	x.add(msg, Ev{"op": "mw", "span": codesAll(span), "parent": codesAll(parent), "ran": ran, "id": nibID(x.saw[0]), "col": col})
}

func (x *spanTextRun) fresh(of appdash.SpanID) {
	x.rec.add(Ev{"op": "child", "of": nibID(of), "id": nibID(appdash.NewSpanID(of))})
	x.rec.add(Ev{"op": "root", "id": nibID(appdash.NewRootSpanID())})
}

func oneNum(r *rand.Rand) appdash.ID {
	switch r.Intn(6) {
	case 0:
		return appdash.ID(r.Intn(3))
	case 1:
		return ^appdash.ID(0) - appdash.ID(r.Intn(2))
	case 2:
		return 1 << uint(r.Intn(64))
	case 3:
		return appdash.ID(r.Uint64() >> uint(r.Intn(64)))
	default:
		return appdash.ID(r.Uint64())
	}
}

func oneSpan(r *rand.Rand) appdash.SpanID {
	id := appdash.SpanID{Trace: oneNum(r), Span: oneNum(r)}
	if r.Intn(2) == 0 {
		id.Parent = oneNum(r)
	}
	return id
}

// oneText is a text like a span ID, mostly damaged.
func oneText(r *rand.Rand) string {
	s := oneSpan(r).String()
	if r.Intn(3) == 0 {
		s = fmt.Sprintf("%x/%X", uint64(oneNum(r)), uint64(oneNum(r)))
	}
	for k := r.Intn(4); k > 0; k-- {
		i := r.Intn(len(s) + 1)
		switch r.Intn(4) {
		case 0:
			s = s[:i] + string([]byte{byte(r.Intn(256))}) + s[i:]
		case 1:
			s = s[:i] + []string{"/", "0", "f", "g", " ", "x", "0x", "_", "//", "-", "+", "A", ".", "\t"}[r.Intn(14)] + s[i:]
		case 2:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 3:
			s = s[:i]
		}
		if s == "" {
			return s
		}
	}
	return s
}

func driveSpanText(e *env) {
	r := e.rng("spantext")
	for i, s := range e.stim {
		var st struct {
			A []string
			B string
		}
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		end := e.begin(st)
		x := newSpanTextRun(fmt.Sprintf("gen-%d", i), r)
		a := tokens(st.A)
		if st.B == "none" {
			x.parse(a)
			x.num(a)
		} else {
			var b []string
			switch st.B {
			case "absent":
			case "empty":
				b = []string{""}
			case "good":
				b = []string{oneSpan(r).String()}
			case "bad":
				b = []string{"bad"}
			case "two":
				b = []string{oneSpan(r).String(), "bad"}
			}
			x.headers([]string{a}, b)
			x.headers(b, []string{a})
			x.headers(nil, b)
			x.headers(b, nil)
			x.headers([]string{a, "x"}, b)
			x.headers(b, b)
		}
		e.emit(x.rec)
		end()
	}
	for i := 0; i < e.n; i++ {
		x := newSpanTextRun(fmt.Sprintf("rand-%d", i), r)
		end := e.begin(i)
		for k := 1 + r.Intn(12); k > 0; k-- {
			switch r.Intn(6) {
			case 0:
				x.format(oneSpan(r))
			case 1:
				x.parse(oneText(r))
			case 2:
				x.num(strings.Split(oneText(r), "/")[0])
			case 3:
				s := fmt.Sprint(r.Uint64())
				if r.Intn(2) == 0 {
					s = "1844674407370955161" + fmt.Sprint(r.Intn(10))
				} else if r.Intn(3) == 0 {
					s += fmt.Sprint(r.Intn(10))
				}
				x.dec(s)
			case 4:
				pick := func() []string {
					switch r.Intn(4) {
					case 0:
						return nil
					case 1:
						return []string{oneSpan(r).String()}
					case 2:
						return []string{oneText(r)}
					default:
						return []string{oneText(r), oneText(r)}
					}
				}
				x.headers(pick(), pick())
			case 5:
				x.fresh(oneSpan(r))
			}
		}
		e.emit(x.rec)
		end()
	}
}
