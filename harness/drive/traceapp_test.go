package drive

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
)

func init() { drivers["traceapp"] = driveTraceApp }

// jtree is a trace as the web application writes it.
type jtree struct {
	ID struct {
		Trace, Span, Parent json.RawMessage
	}
	Annotations []struct {
		Key   string
		Value []byte
	}
	Sub []*jtree
}

// tdoc is a document: a trace label and the spans.
type tdoc struct {
	T int     `json:"t"`
	N []tnode `json:"n"`
	// raw is its text.
	raw json.RawMessage
}

type tnode struct {
	node
	T int `json:"t"`
}

func tnodes(ns []node) []tnode {
	out := []tnode{}
	for _, n := range ns {
		out = append(out, tnode{n, n.T})
	}
	return out
}

type tinst struct {
	store appdash.Store
	app   *traceapp.App
	fault *tappFault
}

// tappFault is a store that can fail.
type tappFault struct {
	appdash.Store
	look map[appdash.ID]bool // looking up these fails
	col  int                 // the call that fails to collect, if not 0
	hit  bool                // it did
}

func (f *tappFault) Trace(id appdash.ID) (*appdash.Trace, error) {
	if f.look[id] {
		return nil, errors.New("lookup failure")
	}
	return f.Store.Trace(id)
}

func (f *tappFault) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if f.col > 0 {
		if f.col--; f.col == 0 {
			f.hit = true
			return errors.New("collect failure")
		}
	}
	return f.Store.Collect(id, as...)
}

type tappRun struct {
	rec    *Rec
	r      *rand.Rand
	m      *ids
	insts  []*tinst
	traces int
	docs   []tdoc
	perma  []string // permalinks of docs ("" for none)
	ns     int
	size   int // of the traces, if not small
	big    int // the size of the next annotation, if large
}

func newTApp(s appdash.Store, q appdash.Queryer) *tinst {
	u, _ := url.Parse("http://localhost:7700")
	app, err := traceapp.New(nil, u)
	if err != nil {
		panic(err)
	}
	f := &tappFault{Store: s}
	app.Store, app.Queryer = f, q
	app.Log = log.New(io.Discard, "", 0)
	return &tinst{store: s, app: app, fault: f}
}

func (t *tinst) req(method, target, body string) *httptest.ResponseRecorder {
	var b io.Reader
	if method == "POST" {
		b = strings.NewReader(body)
	}
	w := httptest.NewRecorder()
	t.app.ServeHTTP(w, httptest.NewRequest(method, target, b))
	return w
}

func stOf(code int) string {
	switch {
	case code >= 200 && code < 300:
		return "ok"
	case code >= 400:
		return "err"
	}
	return fmt.Sprint(code)
}

// parseDoc reads a trace's JSON text without the help of the code under test.
func (x *tappRun) parseDoc(raw []byte) (tdoc, error) {
	var j *jtree
	if err := json.Unmarshal(raw, &j); err != nil {
		return tdoc{}, err
	}
	if j == nil {
		return tdoc{}, fmt.Errorf("null trace")
	}
	d := tdoc{N: []tnode{}, raw: raw}
	var bad error
	id := func(r json.RawMessage) appdash.ID {
		var s string
		if err := json.Unmarshal(r, &s); err != nil || len(s) != 16 {
			bad = fmt.Errorf("ID %q", r)
		}
		v, err := strconv.ParseUint(s, 16, 64)
		if err != nil {
			bad = err
		}
		return appdash.ID(v)
	}
	var rec func(j *jtree, up int)
	rec = func(j *jtree, up int) {
		if j == nil {
			bad = fmt.Errorf("null span")
			return
		}
		n := tnode{node: node{S: x.m.label(id(j.ID.Span)), P: x.m.label(id(j.ID.Parent)), U: up, A: []string{}}, T: x.m.traceLabel(id(j.ID.Trace))}
		for _, a := range j.Annotations {
			n.A = append(n.A, annStr(appdash.Annotation{Key: a.Key, Value: a.Value}))
		}
		d.N = append(d.N, n)
		for _, s := range j.Sub {
			rec(s, n.S)
		}
	}
	rec(j, 0)
	d.T = d.N[0].T
	return d, bad
}

func (x *tappRun) has(i int) [][]tnode {
	out := [][]tnode{}
	for t := 1; t <= x.traces; t++ {
		tr, err := x.insts[i-1].store.Trace(x.m.tid(t))
		if err == appdash.ErrTraceNotFound {
			out = append(out, []tnode{})
			continue
		}
		if err != nil {
			panic(err)
		}
		ns, cyc := flat(tr, x.m)
		if cyc {
			ns = append(ns, node{S: -9})
		}
		out = append(out, tnodes(ns))
	}
	return out
}

func (x *tappRun) obs() {
	all := [][][]tnode{}
	for i := range x.insts {
		all = append(all, x.has(i+1))
	}
	x.rec.add(Ev{"op": "obs", "has": all})
}

func randText(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return "k" + strconv.Itoa(r.Intn(4))
	case 1:
		return []string{"", "<b>&\"'", "\x00", "\u2028\u2029", "é漢\U0001f600", "a\nb\tc\r", "</script>", "{{.}}", "\\u0041", "%41+ "}[r.Intn(10)]
	}
	n := r.Intn(8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune([]rune("abz 019_:.<>&\"'\\é漢\x7f\u0000")[r.Intn(19)])
	}
	return b.String()
}

func tappBytes(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte(randText(r))
	}
	n := r.Intn(12)
	if r.Intn(12) == 0 {
		n = 1000 + r.Intn(8000)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (x *tappRun) anns() appdash.Annotations {
	var as appdash.Annotations
	if x.r.Intn(2) == 0 {
		s := time.Unix(0, 1469000000000000000+x.r.Int63n(1e12))
		for _, e := range []appdash.Event{appdash.SpanName(randText(x.r)), appdash.Timespan{S: s, E: s.Add(time.Duration(x.r.Intn(1e9)))}} {
			if x.r.Intn(4) > 0 {
				a, err := appdash.MarshalEvent(e)
				if err != nil {
					panic(err)
				}
				as = append(as, a...)
			}
		}
	}
	if x.big > 0 {
		as = append(as, appdash.Annotation{Key: "big", Value: bytes.Repeat([]byte(fmt.Sprint(x.big)), x.big/8)})
		x.big = 0
	}
	for x.r.Intn(3) > 0 && len(as) < 12 {
		k := randText(x.r)
		if strings.HasPrefix(k, appdash.SchemaPrefix) || k == "Span.Start" || k == "Span.End" {
			continue
		}
		as = append(as, appdash.Annotation{Key: k, Value: tappBytes(x.r)})
	}
	return as
}

type tspan struct {
	s, p int
	as   appdash.Annotations
}

// tree makes spans of a new trace; their graph has no cycles and at most one root.
func (x *tappRun) tree() []tspan {
	n := 1 + x.r.Intn(4)
	if x.r.Intn(10) == 0 {
		n = 10 + x.r.Intn(20)
	}
	if x.size > 0 {
		n = x.size
	}
	var out []tspan
	for k := 0; k < n; k++ {
		x.ns++
		p := 0
		switch {
		case x.size > 0 && k > 0: // wide, or deep
			p = out[x.r.Intn(1+x.size%2*(k-1))].s
			if x.size%3 == 0 {
				p = out[k-1].s
			}
		case x.size > 0:
		case k > 0 && x.r.Intn(8) > 0:
			p = out[x.r.Intn(k)].s
		case k > 0 || x.r.Intn(6) == 0:
			p = 5000 + x.r.Intn(3) // a parent that is not there
		}
		out = append(out, tspan{s: x.ns, p: p, as: x.anns()})
	}
	return out
}

func (x *tappRun) collect(i, t int) {
	cur, err := x.insts[i-1].store.Trace(x.m.tid(t))
	sp := x.tree()
	if err == nil {
		// more spans and annotations for a trace that is there
		_, more := cur, sp
		for k := range more {
			if more[k].p == 0 {
				more[k].p = x.m.label(cur.ID.Span)
			}
		}
		if x.r.Intn(2) == 0 {
			more = append(more, tspan{s: x.m.label(cur.ID.Span), p: x.m.label(cur.ID.Parent), as: x.anns()})
		}
		sp = more
	}
	for _, k := range x.r.Perm(len(sp)) {
		if err := x.insts[i-1].store.Collect(x.m.span(t, sp[k].s, sp[k].p), sp[k].as...); err != nil {
			panic(err)
		}
	}
	x.rec.add(Ev{"op": "col", "i": i, "t": t, "n": x.has(i)[t-1]})
}

var (
	reJSON  = regexp.MustCompile(`(?s)id="copy-json" data-clipboard-text="([^"]*)"`)
	rePerma = regexp.MustCompile(`(?s)id="copy-permalink" data-clipboard-text="([^"]*)" href="([^"]*)"`)
	reText  = regexp.MustCompile(`(?s)data-json-trace="([^"]*)"`)
	reArea  = regexp.MustCompile(`(?s)<textarea[^>]*>(.*?)</textarea>`)
)

// page reads the forms that a trace page offers.
func (x *tappRun) page(body string) (d tdoc, perma string, err error) {
	m := reJSON.FindStringSubmatch(body)
	if m == nil {
		return d, "", fmt.Errorf("no JSON on the page")
	}
	var raws []json.RawMessage
	if err := json.Unmarshal([]byte(html.UnescapeString(m[1])), &raws); err != nil || len(raws) != 1 {
		return d, "", fmt.Errorf("JSON on the page: %v, %d traces", err, len(raws))
	}
	if d, err = x.parseDoc(raws[0]); err != nil {
		return d, "", err
	}
	p := rePerma.FindStringSubmatch(body)
	if p == nil {
		return d, "", fmt.Errorf("no permalink on the page")
	}
	perma = html.UnescapeString(p[1])
	a, err1 := url.Parse(perma)
	b, err2 := url.Parse(html.UnescapeString(p[2]))
	if err1 != nil || err2 != nil || a.Path != b.Path || a.Query().Encode() != b.Query().Encode() {
		return d, "", fmt.Errorf("permalinks differ: %q, %q", p[1], p[2])
	}
	return d, perma, nil
}

func (x *tappRun) export(i, t int) {
	if t == 0 {
		w := x.insts[i-1].req("GET", "/traces", "")
		ev := Ev{"op": "exp", "i": i, "t": 0}
		docs := []tdoc{}
		for _, m := range reText.FindAllStringSubmatch(w.Body.String(), -1) {
			d, err := x.parseDoc([]byte(html.UnescapeString(m[1])))
			if err != nil {
				d = tdoc{T: -1, N: []tnode{}}
				ev["err"] = err.Error()
			} else {
				x.docs = append(x.docs, d)
				x.perma = append(x.perma, "")
			}
			docs = append(docs, d)
		}
		ev["docs"] = docs
		if w.Code != 200 {
			ev["docs"] = []tdoc{{T: -1, N: []tnode{}}}
		}
		x.rec.add(ev)
		return
	}
	tr, err := x.insts[i-1].store.Trace(x.m.tid(t))
	if err != nil || tr.ID.Parent != 0 {
		return // the page offers nothing for a trace without its root
	}
	w := x.insts[i-1].req("GET", "/traces/"+x.m.tid(t).String(), "")
	d, perma, err := x.page(w.Body.String())
	ev := Ev{"op": "exp", "i": i, "t": t}
	if w.Code != 200 || err != nil {
		ev["docs"] = []tdoc{}
		ev["err"] = fmt.Sprint(w.Code, err)
		x.rec.add(ev)
		return
	}
	ev["docs"] = []tdoc{d}
	x.docs = append(x.docs, d)
	x.perma = append(x.perma, perma)
	x.rec.add(ev)
}

// byHand writes a document of a new trace in another style.
func (x *tappRun) byHand(t int) tdoc {
	style := x.r.Intn(3)
	id := func(v appdash.ID) any {
		if style == 1 {
			return json.RawMessage(strconv.FormatUint(uint64(v), 10))
		}
		if style == 2 {
			return strconv.FormatUint(uint64(v), 16)
		}
		return v.String()
	}
	x.ns++
	d := tdoc{T: t, N: []tnode{}}
	var rec func(up, depth int) map[string]any
	rec = func(up, depth int) map[string]any {
		s := x.ns
		x.ns++
		as := []map[string]any{}
		sp := x.m.span(t, s, up)
		n := tnode{node: node{S: s, P: up, U: up, A: []string{}}, T: t}
		for k := x.r.Intn(3); k > 0; k-- {
			a := appdash.Annotation{Key: "h" + strconv.Itoa(x.r.Intn(3)), Value: []byte(strconv.Itoa(x.r.Intn(100)))}
			n.A = append(n.A, annStr(a))
			as = append(as, map[string]any{"Key": a.Key, "Value": a.Value})
		}
		d.N = append(d.N, n)
		o := map[string]any{"ID": map[string]any{"Trace": id(sp.Trace), "Span": id(sp.Span), "Parent": id(sp.Parent)}}
		if len(as) > 0 || style == 0 {
			o["Annotations"] = as
		}
		if style == 1 {
			o["Sub"] = nil
			o["Other"] = 1
		}
		subs := []any{}
		for k := x.r.Intn(3); k > 0 && depth < 3; k-- {
			subs = append(subs, rec(s, depth+1))
		}
		if len(subs) > 0 {
			o["Sub"] = subs
		}
		return o
	}
	b, err := json.Marshal(rec(0, 0))
	if err != nil {
		panic(err)
	}
	d.raw = b
	return d
}

func joined(docs []tdoc) string {
	var parts []string
	for _, d := range docs {
		parts = append(parts, string(d.raw))
	}
	return "[" + strings.Join(parts, ",") + "]"
}

// spoil makes the text of one document malformed.
func (x *tappRun) spoil(d tdoc, kind int) string {
	var o map[string]any
	if err := json.Unmarshal(d.raw, &o); err != nil {
		panic(err)
	}
	at := o // the span to spoil
	for at["Sub"] != nil && len(at["Sub"].([]any)) > 0 && x.r.Intn(2) == 0 {
		s := at["Sub"].([]any)
		at = s[x.r.Intn(len(s))].(map[string]any)
	}
	subs, _ := at["Sub"].([]any)
	switch kind {
	case 0: // a span that is nothing
		at["Sub"] = append(append([]any{}, subs...), nil)
	case 1: // a span of another trace
		t := 1 + x.r.Intn(x.traces)
		if t == d.T {
			t = t%x.traces + 1
		}
		if t == d.T {
			t = 77
		}
		x.ns++
		sp := x.m.span(t, x.ns, 1)
		at["Sub"] = append(append([]any{}, subs...), map[string]any{"ID": map[string]any{"Trace": sp.Trace.String(), "Span": sp.Span.String(), "Parent": "0"},
			"Annotations": []any{map[string]any{"Key": "evil", "Value": []byte("x")}}})
	case 2:
		at["ID"].(map[string]any)["Span"] = "zz"
	case 3:
		at["Annotations"] = []any{map[string]any{"Key": "k", "Value": "no base64!"}}
	case 4:
		at["Annotations"] = 5
	case 5:
		at["ID"].(map[string]any)["Parent"] = "11111111111111111"
	case 6:
		b, _ := json.Marshal(o)
		return string(b[:1+x.r.Intn(len(b)-1)])
	case 7:
		return "null"
	case 8:
		b, _ := json.Marshal(o)
		return string(b) + "}"
	case 9:
		return "3"
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func permaOf(x *tappRun, t int, text string) string {
	var buf bytes.Buffer
	gz := gzip.NewWriter(&buf)
	io.WriteString(gz, text)
	gz.Close()
	return "/traces/" + x.m.tid(t).String() + "?permalink=" + base64.RawURLEncoding.EncodeToString(buf.Bytes())
}

func (x *tappRun) upload(i int, docs []tdoc) {
	w := x.insts[i-1].req("POST", "/traces/upload", joined(docs))
	x.rec.add(Ev{"op": "up", "i": i, "docs": docs, "bad": false, "st": stOf(w.Code)})
}

// faulty uploads to a store that fails.
func (x *tappRun) faulty(i int, docs []tdoc) {
	f := x.insts[i-1].fault
	look := []int{}
	if x.r.Intn(2) == 0 {
		f.look = map[appdash.ID]bool{}
		for t := 1; t <= x.traces; t++ {
			if x.r.Intn(2) == 0 {
				look = append(look, t)
				f.look[x.m.tid(t)] = true
			}
		}
	} else {
		f.col = 1 + x.r.Intn(5)
	}
	w := x.insts[i-1].req("POST", "/traces/upload", joined(docs))
	x.rec.add(Ev{"op": "flt", "i": i, "docs": docs, "look": look, "hit": f.hit, "st": stOf(w.Code), "has": x.has(i)})
	f.look, f.col, f.hit = nil, 0, false
}

// malformed uploads or opens something malformed, among good documents.
func (x *tappRun) malformed(i int, d tdoc) {
	if x.r.Intn(4) == 0 {
		kind := x.r.Intn(14)
		var u string
		switch kind {
		case 11:
			u = "/traces/" + x.m.tid(d.T).String() + "?permalink=H4sIAAAAAAAA!!"
		case 12:
			u = "/traces/" + x.m.tid(d.T).String() + "?permalink=" + base64.RawURLEncoding.EncodeToString(d.raw)
		case 13:
			u = permaOf(x, d.T, string(d.raw))
			u = u[:len(u)-len(u)/3]
			if k := strings.Index(u, "permalink="); len(u) < k+20 {
				u = u[:k] + "permalink=H4sI"
			}
		case 8, 10: // the rest after the trace is not looked at in a permalink
			u = permaOf(x, d.T, x.spoil(d, 0))
		default:
			u = permaOf(x, d.T, x.spoil(d, kind))
		}
		w := x.insts[i-1].req("GET", u, "")
		x.rec.add(Ev{"op": "open", "i": i, "docs": []tdoc{d}, "bad": true, "st": stOf(w.Code), "kind": kind})
		return
	}
	kind := x.r.Intn(13)
	docs := []string{}
	for k := 0; k < x.r.Intn(3); k++ {
		docs = append(docs, string(x.byHand(1+x.r.Intn(x.traces)).raw))
	}
	var text string
	switch kind {
	case 10:
		text = ""
	case 11:
		text = string(d.raw)
	case 12:
		text = "[" + string(d.raw) + "]]"
	default:
		k := x.r.Intn(len(docs) + 1)
		docs = append(docs[:k:k], append([]string{x.spoil(d, kind)}, docs[k:]...)...)
		text = "[" + strings.Join(docs, ",") + "]"
	}
	w := x.insts[i-1].req("POST", "/traces/upload", text)
	x.rec.add(Ev{"op": "up", "i": i, "docs": []tdoc{d}, "bad": true, "st": stOf(w.Code), "kind": kind})
}

func (x *tappRun) open(i int, k int) {
	d, u := x.docs[k], x.perma[k]
	if u == "" {
		if d.N[0].P != 0 {
			return
		}
		u = permaOf(x, d.T, string(d.raw))
	}
	w := x.insts[i-1].req("GET", u, "")
	ev := Ev{"op": "open", "i": i, "docs": []tdoc{d}, "bad": false, "st": stOf(w.Code), "shown": tdoc{T: -1, N: []tnode{}}}
	// what is shown is a trace that was there, perhaps without its root
	if tr, err := x.insts[i-1].store.Trace(x.m.tid(d.T)); err == nil && tr.ID.Parent != 0 {
		ns, _ := flat(tr, x.m)
		ev["shown"] = tdoc{T: d.T, N: tnodes(ns)}
	} else if s, _, err := x.page(w.Body.String()); err == nil {
		ev["shown"] = s
	}
	x.rec.add(ev)
}

func (x *tappRun) par(i int, first tdoc) {
	n := 2 + x.r.Intn(3)
	var lists [][]tdoc
	all := []tdoc{}
	for k := 0; k < n; k++ {
		var l []tdoc
		if k == 0 {
			l = append(l, first)
		}
		for len(l) == 0 || x.r.Intn(3) == 0 {
			switch {
			case x.r.Intn(2) == 0:
				l = append(l, x.byHand(1+x.r.Intn(x.traces)))
			default:
				l = append(l, x.docs[x.r.Intn(len(x.docs))])
			}
		}
		lists = append(lists, l)
		all = append(all, l...)
	}
	st := make([]string, n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for k := range lists {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			if len(lists[k]) == 1 && k%2 == 0 && lists[k][0].N[0].P == 0 {
				st[k] = stOf(x.insts[i-1].req("GET", permaOf(x, lists[k][0].T, string(lists[k][0].raw)), "").Code)
				return
			}
			st[k] = stOf(x.insts[i-1].req("POST", "/traces/upload", joined(lists[k])).Code)
		}(k)
	}
	close(start)
	wg.Wait()
	x.rec.add(Ev{"op": "par", "i": i, "docs": all, "st": st, "has": x.has(i)})
}

type tappOp struct {
	O          string `json:"o"`
	I, T, D, E int
}

// tappSlow takes its time, so that uploads overlap.
type tappSlow struct{ appdash.Store }

func (s tappSlow) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	time.Sleep(time.Microsecond)
	return s.Store.Collect(id, as...)
}

func driveTraceApp(e *env) {
	traceapp.ReloadTemplates = false
	run := func(name string, seed int64, insts, traces int, ops []tappOp) {
		r := rand.New(rand.NewSource(seed))
		x := &tappRun{rec: newRec(name), r: r, m: newIDs(r, r.Intn(5)), traces: traces}
		for i := 0; i < insts; i++ {
			ms := appdash.NewMemoryStore()
			var s appdash.Store = ms
			switch r.Intn(3) {
			case 0:
				s = &appdash.RecentStore{MinEvictAge: time.Hour, DeleteStore: ms}
			case 1:
				s = tappSlow{ms}
			}
			x.insts = append(x.insts, newTApp(s, ms))
		}
		x.rec.Cfg = Ev{"insts": insts, "traces": traces}
		defer e.begin(map[string]any{"name": name, "seed": seed, "ops": ops})()
		if len(ops) > 0 {
			for _, o := range ops {
				x.do(o)
				x.obs()
			}
		} else {
			n := 4 + r.Intn(12)
			for k := 0; k < n; k++ {
				x.random()
				x.obs()
			}
		}
		e.emit(x.rec)
	}
	for k, s := range e.stim {
		var st struct{ Ops []tappOp }
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		run(fmt.Sprintf("stim%d", k), e.seed*7919+int64(k), 2, 2, st.Ops)
	}
	r := e.rng("traceapp")
	for k := 0; k < 7; k++ { // large traces, and many of them
		traces := 2
		if k == 0 {
			traces = 130
		}
		if k > 4 && !e.first {
			break
		}
		if k == 6 {
			traces = 1100
		}
		x := &tappRun{rec: newRec(fmt.Sprintf("large%d", k)), r: rand.New(rand.NewSource(r.Int63())), m: newIDs(r, r.Intn(5)), traces: traces}
		x.rec.Cfg = Ev{"insts": 2, "traces": traces}
		for i := 0; i < 2; i++ {
			ms := appdash.NewMemoryStore()
			x.insts = append(x.insts, newTApp(ms, ms))
		}
		done := e.begin(Ev{"large": k})
		if k == 0 || k == 6 {
			x.size = 1
			for t := 1; t <= traces; t++ {
				x.collect(1, t)
			}
		} else {
			if k == 5 {
				x.big = 26<<20 + r.Intn(1000)
			}
			x.size = []int{0, 200, 301, 120, 150, 3}[k]
			x.collect(1, 1)
			x.size = 2
			x.collect(1, 2)
		}
		x.export(1, 0)
		x.export(1, 1)
		x.upload(2, x.docs)
		x.obs()
		x.insts[1].store.(*appdash.MemoryStore).Delete(x.m.tid(1))
		x.rec.add(Ev{"op": "col", "i": 2, "t": 1, "n": x.has(2)[0]})
		x.open(2, len(x.docs)-1)
		x.obs()
		done()
		e.emit(x.rec)
	}
	for k := 0; k < e.n; k++ {
		run(fmt.Sprintf("rand%d", k), r.Int63(), 1+r.Intn(3), 1+r.Intn(4), nil)
	}
}

func (x *tappRun) do(o tappOp) {
	doc := func(k int) tdoc { return x.docs[(k-1)%len(x.docs)] }
	if len(x.docs) == 0 && o.O != "c" && o.O != "e" {
		x.docs = append(x.docs, x.byHand(1))
		x.perma = append(x.perma, "")
	}
	switch o.O {
	case "c":
		x.collect(o.I, o.T)
	case "e":
		if x.r.Intn(4) == 0 {
			o.T = 0
		}
		n := len(x.docs)
		x.export(o.I, o.T)
		if len(x.docs) == n { // none on the page: take one written by hand
			x.docs = append(x.docs, x.byHand(1+x.r.Intn(x.traces)))
			x.perma = append(x.perma, "")
		}
	case "u":
		docs := []tdoc{doc(o.D)}
		if o.E > 0 {
			docs = append(docs, doc(o.E))
		}
		x.upload(o.I, docs)
	case "o":
		x.open(o.I, (o.D-1)%len(x.docs))
	case "m":
		x.malformed(o.I, doc(o.D))
	case "p":
		x.par(o.I, doc(o.D))
	}
}

func (x *tappRun) random() {
	i, t := 1+x.r.Intn(len(x.insts)), 1+x.r.Intn(x.traces)
	if len(x.docs) == 0 || x.r.Intn(10) == 0 {
		x.docs = append(x.docs, x.byHand(t))
		x.perma = append(x.perma, "")
	}
	switch x.r.Intn(10) {
	case 9:
		var docs []tdoc
		for k := x.r.Intn(4); k >= 0; k-- {
			docs = append(docs, x.docs[x.r.Intn(len(x.docs))])
		}
		x.faulty(i, docs)
	case 0, 1:
		x.collect(i, t)
	case 2:
		x.export(i, t)
	case 3:
		x.export(i, 0)
	case 4, 5:
		var docs []tdoc
		for k := x.r.Intn(4); k >= 0; k-- {
			docs = append(docs, x.docs[x.r.Intn(len(x.docs))])
		}
		if x.r.Intn(12) == 0 {
			docs = []tdoc{}
		}
		x.upload(i, docs)
	case 6:
		x.open(i, x.r.Intn(len(x.docs)))
	case 7:
		x.malformed(i, x.docs[x.r.Intn(len(x.docs))])
	case 8:
		x.par(i, x.docs[x.r.Intn(len(x.docs))])
	}
}

var _ = http.StatusOK
