package drive

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"math/rand"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
)

func init() { drivers["profile"] = driveProfile }

const profBase = 1469000000 // seconds

// pevent is a timespan event: milliseconds since the base and nanoseconds.
type pevent struct {
	S      int64  `json:"s"`
	Sn     int64  `json:"sn"`
	E      int64  `json:"e"`
	En     int64  `json:"en"`
	Schema string `json:"schema"`
}

type pnode struct {
	S    int      `json:"s"`
	P    int      `json:"p"`
	U    int      `json:"u"`
	ID   string   `json:"id"`
	Name string   `json:"name"`
	Ev   []pevent `json:"ev"`
	A    []string `json:"a"`
	K    []string `json:"k"`
}

type pspan struct {
	name string
	ev   []pevent
}

type profRun struct {
	*tappRun
	in   *tinst
	know map[int]*pspan
	agg  *fakeAgg
	nx   int
}

// fakeAgg is an aggregator that says what it is told.
type fakeAgg struct {
	start, end time.Duration
	calls      int
	res        []*appdash.AggregatedResult
	err        error
}

func (f *fakeAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	f.calls++
	f.start, f.end = start, end
	return f.res, f.err
}

func profTime(ms, ns int64) time.Time { return time.Unix(profBase, ms*1e6+ns).UTC() }

func hexID(id appdash.ID) string { return fmt.Sprintf("%016x", uint64(id)) }

// text tells what a text is for the log; the parts of a label stay apart.
func ptext(s string) string {
	if strings.Contains(s, ": ") {
		var parts []string
		for _, p := range strings.Split(s, ": ") {
			parts = append(parts, short(p))
		}
		return strings.Join(parts, ": ")
	}
	return short(s)
}

func (x *profRun) name() string {
	switch x.r.Intn(10) {
	case 0, 1:
		return ""
	case 2:
		if x.ns > 0 {
			return hexID(x.m.id(1 + x.r.Intn(x.ns)))
		}
	case 3:
		return []string{"<b>\"&'", "é漢", "</script>", "\u2028", "a\nb", "{{.}}", "a: b", " "}[x.r.Intn(8)]
	}
	return string(rune('a' + x.r.Intn(3)))
}

// event makes an event: mode 1: a finished one, 2: one that was not finished, 0: either.
func (x *profRun) event(schema string, mode int) (appdash.Event, pevent, bool) {
	r := x.r
	v := pevent{S: int64(r.Intn(100000)), Sn: int64(r.Intn(1000000)), Schema: schema}
	if r.Intn(3) == 0 {
		v.Sn = 0
	}
	var d int64 // nanoseconds
	switch r.Intn(9) {
	case 0:
		d = 0
	case 1:
		d = int64(r.Intn(1000))*1e6 + 500000
	case 2:
		d = int64(r.Intn(1000))*1e6 + 499999
	case 3:
		d = int64(r.Intn(3)) * 1e6
	case 4:
		d = -int64(r.Intn(2e9))
	case 5:
		d = int64(r.Intn(1000000))
	case 6:
		d = int64(r.Intn(1e7)) * 1e6
	default:
		d = r.Int63n(3e9)
	}
	end := v.S*1e6 + v.Sn + d
	for end < 0 {
		end += 1e6
	}
	v.E, v.En = end/1e6, end%1e6
	s, e := profTime(v.S, v.Sn), profTime(v.E, v.En)
	ok := true
	if mode == 2 || mode == 0 && r.Intn(12) == 0 { // an event that was not finished
		e, ok = time.Time{}, false
		if r.Intn(2) == 0 {
			s = e
		}
	}
	if r.Intn(3) == 0 && ok {
		z := time.FixedZone("", 3600*(r.Intn(25)-12))
		s, e = s.In(z), e.In(z)
	}
	switch schema {
	case "Timespan":
		return appdash.Timespan{S: s, E: e}, v, ok
	case "HTTPServer":
		return httptrace.ServerEvent{ServerRecv: s, ServerSend: e, Response: httptrace.ResponseInfo{StatusCode: 200 + r.Intn(400)}}, v, ok
	case "HTTPClient":
		return httptrace.ClientEvent{ClientSend: s, ClientRecv: e, Response: httptrace.ResponseInfo{StatusCode: 200 + r.Intn(400)}}, v, ok
	}
	return sqltrace.SQLEvent{ClientSend: s, ClientRecv: e, SQL: "SELECT <" + strconv.Itoa(r.Intn(9)) + ">", Tag: string(rune('a' + r.Intn(3)))}, v, ok
}

var profSchemas = []string{"Timespan", "HTTPServer", "HTTPClient", "SQL"}

// span collects one span; full ones have a name and a timespan.
func (x *profRun) span(t, s, p int, full bool) {
	k := &pspan{ev: []pevent{}}
	x.know[s] = k
	var as appdash.Annotations
	add := func(e appdash.Event) {
		a, err := appdash.MarshalEvent(e)
		if err != nil {
			panic(err)
		}
		as = append(as, a...)
	}
	k.name = x.name()
	for full && k.name == "" {
		k.name = x.name()
	}
	if k.name != "" || x.r.Intn(2) == 0 {
		add(appdash.SpanName(k.name))
	}
	perm := x.r.Perm(4)
	n := 1
	if x.r.Intn(3) == 0 {
		n = x.r.Intn(5)
	}
	if full && n == 0 {
		n = 1
	}
	mode := 0
	if full {
		mode = 1
	}
	for _, i := range perm[:n] {
		e, v, ok := x.event(profSchemas[i], mode)
		add(e)
		if ok {
			k.ev = append(k.ev, v)
		}
	}
	if n < 4 && x.r.Intn(6) == 0 {
		e, _, _ := x.event(profSchemas[perm[n]], 2)
		add(e)
	}
	if x.r.Intn(3) == 0 {
		add(appdash.Msg("m<" + strconv.Itoa(x.r.Intn(9))))
	}
	for x.r.Intn(3) == 0 {
		x.nx++
		as = append(as, appdash.Annotation{Key: "x" + strconv.Itoa(x.nx), Value: []byte(string(rune('a' + x.r.Intn(3))))})
	}
	if x.r.Intn(8) == 0 { // a schema that nobody knows
		as = append(as, appdash.Annotation{Key: appdash.SchemaPrefix + "unknown"})
	}
	// in one piece or in several
	for len(as) > 0 && x.r.Intn(3) == 0 {
		i := 1 + x.r.Intn(len(as))
		x.collectAs(t, s, p, as[:i])
		as = as[i:]
	}
	x.collectAs(t, s, p, as)
}

func (x *profRun) collectAs(t, s, p int, as appdash.Annotations) {
	if err := x.in.store.Collect(x.m.span(t, s, p), as...); err != nil {
		panic(err)
	}
}

func (x *profRun) nodes(tr *appdash.Trace) []pnode {
	out := []pnode{}
	var rec func(t *appdash.Trace, up int)
	rec = func(t *appdash.Trace, up int) {
		s := x.m.label(t.ID.Span)
		n := pnode{S: s, P: x.m.label(t.ID.Parent), U: up, ID: hexID(t.ID.Span), Ev: []pevent{}, A: annStrs(t.Annotations), K: []string{}}
		for _, a := range t.Annotations {
			n.K = append(n.K, a.Key)
		}
		if k := x.know[s]; k != nil {
			n.Name, n.Ev = ptext(k.name), k.ev
		}
		out = append(out, n)
		for _, c := range t.Sub {
			rec(c, s)
		}
	}
	rec(tr, 0)
	return out
}

func (x *profRun) set(t int) {
	tr, err := x.in.store.Trace(x.m.tid(t))
	if err != nil {
		panic(err)
	}
	x.rec.add(Ev{"op": "set", "t": t, "tr": x.nodes(tr)})
}

// grow collects a trace or more of one.
func (x *profRun) grow(t int, n int, full bool) {
	var have []int
	if tr, err := x.in.store.Trace(x.m.tid(t)); err == nil {
		ns, _ := flat(tr, x.m)
		for _, k := range ns {
			have = append(have, k.S)
		}
	}
	type sp struct{ s, p int }
	var out []sp
	for k := 0; k < n; k++ {
		x.ns++
		p := 0
		if len(have) > 0 {
			p = have[x.r.Intn(len(have))]
			if x.r.Intn(3) == 0 {
				p = have[len(have)-1]
			}
			if x.r.Intn(25) == 0 {
				p = 5000 // a parent that is not there
			}
		}
		have = append(have, x.ns)
		out = append(out, sp{x.ns, p})
	}
	order := make([]int, n)
	for k := range order {
		order[k] = k
	}
	if x.r.Intn(3) == 0 {
		order = x.r.Perm(n)
	}
	for _, k := range order {
		x.span(t, out[k].s, out[k].p, full)
	}
	x.set(t)
}

// where takes an address of the application apart.
func (x *profRun) where(s string, t int) string {
	u, err := url.Parse(s)
	if err != nil || u.RawQuery != "" {
		return "?" + s
	}
	pre := "/traces/" + hexID(x.m.tid(t))
	if u.Path == pre {
		return ""
	}
	if strings.HasPrefix(u.Path, pre+"/") {
		return u.Path[len(pre)+1:]
	}
	return "?" + s
}

type profEntry struct {
	Name string `json:"name"`
	URL  string `json:"url"`
	Own  int64  `json:"own"`
	Kids int64  `json:"kids"`
	Cum  int64  `json:"cum"`
}

func (x *profRun) target(t, s int) string {
	u := "/traces/" + hexID(x.m.tid(t))
	if s > 0 {
		u += "/" + hexID(x.m.id(s))
	}
	return u
}

func (x *profRun) profile(t, s int) {
	w := x.in.req("GET", x.target(t, s)+"/profile", "")
	ev := Ev{"op": "prof", "t": t, "s": s, "st": stOf(w.Code), "v": []profEntry{}}
	if w.Code == 200 {
		var rows []struct {
			Name, URL                   string
			Time, TimeChildren, TimeCum int64
		}
		out := []profEntry{}
		if err := json.Unmarshal(w.Body.Bytes(), &rows); err != nil {
			ev["st"] = err.Error()
		}
		for _, r := range rows {
			out = append(out, profEntry{ptext(r.Name), x.where(r.URL, t), small(r.Time), small(r.TimeChildren), small(r.TimeCum)})
		}
		ev["v"] = out
	}
	x.rec.add(ev)
}

// small keeps numbers within what the specification can handle.
func small(n int64) int64 {
	if n > 2000000000 || n < -2000000000 {
		return -7777777
	}
	return n
}

var reData = regexp.MustCompile(`(?m)^\s*var data = (.*);\s*$`)
var reShow = regexp.MustCompile(`(?m)^\s*var showTimelineChart = \s*(\w+)\s*;\s*$`)

func (x *profRun) aggregate(mode string, sel []int, extra string) {
	var ids []string
	for _, t := range sel {
		h := hexID(x.m.tid(t))
		if x.r.Intn(4) == 0 {
			h = strings.TrimLeft(h, "0")
		}
		ids = append(ids, h)
	}
	bad := false
	switch extra {
	case "unknown":
		ids = append(ids, "00000000000abcde")
	case "bad":
		i := x.r.Intn(len(ids) + 1)
		ids = append(ids[:i:i], append([]string{[]string{"zz", "", "0x1", "11111111111111111"}[x.r.Intn(4)]}, ids[i:]...)...)
		bad = true
		if len(ids) == 1 && ids[0] == "" {
			bad = false
		}
	}
	v := url.Values{}
	if mode != "" || x.r.Intn(2) == 0 {
		v.Set("view-mode", mode)
	}
	if len(ids) > 0 {
		v.Set("selection", strings.Join(ids, ","))
	}
	w := x.in.req("GET", "/aggregate?"+v.Encode(), "")
	ev := Ev{"op": "agg", "mode": mode, "sel": sel, "all": strings.Join(ids, "") == "", "bad": bad, "st": stOf(w.Code)}
	type row struct {
		Label string `json:"label"`
		Value int64  `json:"value"`
	}
	out := []row{}
	if w.Code == 200 {
		var rows []row
		m := reData.FindStringSubmatch(w.Body.String())
		if m == nil {
			ev["st"] = "no data"
		} else if err := json.Unmarshal([]byte(m[1]), &rows); err != nil {
			ev["st"] = err.Error()
		}
		for _, r := range rows {
			out = append(out, row{ptext(r.Label), small(r.Value)})
		}
	}
	ev["v"] = out
	x.rec.add(ev)
}

type lineTime struct {
	S     int64  `json:"s"`
	E     int64  `json:"e"`
	Ms    int64  `json:"ms"`
	Label string `json:"label"`
	Timed bool   `json:"timed"`
}

type lineItem struct {
	Label   string     `json:"label"`
	S       int        `json:"s"`
	P       int        `json:"p"`
	Visible bool       `json:"visible"`
	URL     string     `json:"url"`
	Times   []lineTime `json:"times"`
	Data    []string   `json:"data"`
}

func (x *profRun) labelOf(s string) int {
	if s == "" {
		return 0
	}
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil || len(s) != 16 {
		return -1
	}
	return x.m.label(appdash.ID(v))
}

// trace reads the page of a trace or of one of its spans.
func (x *profRun) trace(t, s int) {
	w := x.in.req("GET", x.target(t, s), "")
	ev := Ev{"op": "page", "t": t, "s": s, "st": stOf(w.Code), "chart": "", "items": []lineItem{}, "n": []tnode{}, "links": false}
	defer x.rec.add(ev)
	if w.Code != 200 {
		return
	}
	body := w.Body.String()
	ev["links"] = rePerma.MatchString(body) && reJSON.MatchString(body)
	var raws []json.RawMessage
	m := reArea.FindStringSubmatch(body)
	if m == nil {
		ev["st"] = "no textarea"
		return
	}
	if err := json.Unmarshal([]byte(html.UnescapeString(m[1])), &raws); err != nil || len(raws) != 1 {
		ev["st"] = fmt.Sprint("textarea: ", err)
		return
	}
	d, err := x.parseDoc(raws[0])
	if err != nil {
		ev["st"] = err.Error()
		return
	}
	ev["n"] = d.N
	if c := reShow.FindStringSubmatch(body); c != nil {
		ev["chart"] = c[1]
	}
	v := reData.FindStringSubmatch(body)
	if v == nil {
		ev["st"] = "no timeline data"
		return
	}
	var items []struct {
		Label, FullLabel string
		Times            []struct {
			Label    string
			Start    int64 `json:"starting_time"`
			End      int64 `json:"ending_time"`
			Duration int64
		}
		RawData              map[string]string
		SpanID, ParentSpanID string
		URL                  string
		Visible              bool
	}
	if err := json.Unmarshal([]byte(v[1]), &items); err != nil {
		ev["st"] = err.Error()
		return
	}
	out := []lineItem{}
	for _, i := range items {
		l := lineItem{Label: ptext(i.Label), S: x.labelOf(i.SpanID), P: x.labelOf(i.ParentSpanID), Visible: i.Visible, URL: x.where(i.URL, t), Times: []lineTime{}, Data: []string{}}
		if i.FullLabel != i.Label {
			l.Label = "? " + i.FullLabel
		}
		for k, v := range i.RawData {
			l.Data = append(l.Data, annStr(appdash.Annotation{Key: k, Value: []byte(v)}))
		}
		for _, tm := range i.Times {
			lt := lineTime{S: small(tm.Start - profBase*1000), E: small(tm.End - profBase*1000), Ms: small(tm.Duration / 1e6), Label: ptext(tm.Label)}
			if tm.Duration%1e6 != 0 {
				lt.Ms = -1
			}
			if suffix := fmt.Sprintf(" (%s)", time.Duration(tm.Duration)); tm.Duration > 0 && strings.HasSuffix(tm.Label, suffix) {
				lt.Timed, lt.Label = true, ptext(strings.TrimSuffix(tm.Label, suffix))
			}
			l.Times = append(l.Times, lt)
		}
		out = append(out, l)
	}
	ev["items"] = out
}

var reEntry = regexp.MustCompile(`(?s)<li>\s*<input type="checkbox"[^>]*data-json-trace="([^"]*)">\s*<a href="([^"]*)">([^<]*)</a>(.*?)</ul>\s*</li>`)
var reStrong = regexp.MustCompile(`(?s)<strong title="([^"]*)">(.*?)</strong>`)
var reRow = regexp.MustCompile(`(?s)<tr><th>(.*?)</th><td>(.*?)</td></tr>`)

// list reads the list of traces.
func (x *profRun) list(show []int, extra []string) {
	var ids []string
	for _, t := range show {
		ids = append(ids, hexID(x.m.tid(t)))
	}
	ids = append(ids, extra...)
	x.r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	target := "/traces"
	if len(ids) > 0 {
		target += "?show=" + url.QueryEscape(strings.Join(ids, ","))
	}
	// an ID that is not of a trace selects nothing, but is an ID
	some := len(show) > 0
	for _, e := range extra {
		if _, err := strconv.ParseUint(e, 16, 64); err == nil {
			some = true
		}
	}
	w := x.in.req("GET", target, "")
	type entry struct {
		T    int      `json:"t"`
		N    []tnode  `json:"n"`
		Name string   `json:"name"`
		Imp  []string `json:"imp"`
	}
	out := []entry{}
	body := w.Body.String()
	for _, m := range reEntry.FindAllStringSubmatch(body, -1) {
		e := entry{T: -1, N: []tnode{}, Imp: []string{}}
		d, err := x.parseDoc([]byte(html.UnescapeString(m[1])))
		if err == nil {
			e.N = d.N
			if m[2] == "/traces/"+m[3] && m[3] == hexID(x.m.tid(d.T)) {
				e.T = d.T
			}
		}
		if s := reStrong.FindStringSubmatch(m[4]); s != nil {
			e.Name = ptext(html.UnescapeString(s[2]))
		}
		for _, r := range reRow.FindAllStringSubmatch(m[4], -1) {
			e.Imp = append(e.Imp, annStr(appdash.Annotation{Key: html.UnescapeString(r[1]), Value: []byte(html.UnescapeString(r[2]))}))
		}
		out = append(out, e)
	}
	if n := strings.Count(body, "data-json-trace=\""); n != len(out) {
		out = append(out, entry{T: -n, N: []tnode{}, Imp: []string{}})
	}
	x.rec.add(Ev{"op": "list", "show": show, "some": some, "st": stOf(w.Code), "v": out})
}

// dash asks for the dashboard's data.
func (x *profRun) dash() {
	r := x.r
	a := &fakeAgg{}
	type drow struct {
		Name string `json:"name"`
		Avg  int64  `json:"avg"`
		Min  int64  `json:"min"`
		Max  int64  `json:"max"`
		Dev  int64  `json:"dev"`
		N    int64  `json:"n"`
		IDs  []int  `json:"ids"`
	}
	want := []drow{}
	for k := r.Intn(4); k > 0; k-- {
		d := drow{Name: ptext(x.name()), Avg: r.Int63n(1e6), Min: r.Int63n(1e6), Max: r.Int63n(1e6), Dev: r.Int63n(1e6), N: r.Int63n(1e6), IDs: []int{}}
		ms := func(v int64) time.Duration { return time.Duration(v)*time.Millisecond + time.Duration(r.Intn(1e6)) }
		res := &appdash.AggregatedResult{Average: ms(d.Avg), Min: ms(d.Min), Max: ms(d.Max), StdDev: ms(d.Dev), Samples: d.N}
		res.RootSpanName = x.name()
		d.Name = ptext(res.RootSpanName)
		for j := r.Intn(4); j > 0; j-- {
			t := 1 + r.Intn(9)
			d.IDs = append(d.IDs, t)
			res.Slowest = append(res.Slowest, x.m.tid(t))
		}
		want = append(want, d)
		a.res = append(a.res, res)
	}
	mode := r.Intn(8)
	s, e := r.Intn(73), r.Intn(73)
	v := url.Values{"start": {strconv.Itoa(s)}, "end": {strconv.Itoa(e)}}
	switch mode {
	case 0:
		a.err = errors.New("no")
	case 1:
		v.Set([]string{"start", "end"}[r.Intn(2)], []string{"x", "1.5", "99999999999999999999"}[r.Intn(3)])
	}
	if mode != 2 {
		x.in.app.Aggregator = a
	}
	w := x.in.req("GET", "/dashboard/data?"+v.Encode(), "")
	page := x.in.req("GET", "/dashboard", "")
	x.in.app.Aggregator = nil
	ev := Ev{"op": "dash", "on": mode != 2, "bad": mode == 1, "fail": mode == 0, "from": s, "to": e, "code": w.Code, "page": page.Code, "want": want,
		"calls": a.calls, "start": a.start / time.Hour, "end": a.end / time.Hour, "exact": a.start%time.Hour == 0 && a.end%time.Hour == 0}
	got := []drow{}
	if w.Code == 200 {
		var rows []struct {
			Name                      string
			Average, Min, Max, StdDev int64
			Timespans                 int64
			URL                       string
		}
		if err := json.Unmarshal(w.Body.Bytes(), &rows); err != nil {
			ev["code"] = 999
		}
		for _, g := range rows {
			d := drow{Name: ptext(g.Name), Avg: small(g.Average), Min: small(g.Min), Max: small(g.Max), Dev: small(g.StdDev), N: small(g.Timespans), IDs: []int{}}
			u, err := url.Parse(g.URL)
			if err != nil || u.Path != "/traces" {
				d.Name = "? " + g.URL
			} else if q := u.Query().Get("show"); q != "" {
				for _, h := range strings.Split(q, ",") {
					v, _ := strconv.ParseUint(h, 16, 64)
					d.IDs = append(d.IDs, x.m.traceLabel(appdash.ID(v)))
				}
			}
			got = append(got, d)
		}
	}
	ev["got"] = got
	x.rec.add(ev)
}

type profOp struct {
	D, K []int // durations and parents of the spans
	Nm   []int // names
	Mode string
}

func driveProfile(e *env) {
	traceapp.ReloadTemplates = false
	newRun := func(name string, seed int64, traces int) *profRun {
		r := rand.New(rand.NewSource(seed))
		x := &profRun{tappRun: &tappRun{rec: newRec(name), r: r, m: newIDs(r, r.Intn(5)), traces: traces}, know: map[int]*pspan{}}
		ms := appdash.NewMemoryStore()
		x.in = newTApp(ms, ms)
		x.rec.Cfg = Ev{"traces": traces}
		return x
	}
	for k, s := range e.stim {
		var st struct{ Spans [][]int }
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		stop := e.begin(st)
		x := newRun(fmt.Sprintf("stim%d", k), e.seed*7919+int64(k), 1)
		for i, sp := range st.Spans { // [parent, name, half milliseconds...]
			x.ns++
			know := &pspan{name: []string{"", "a", "b"}[sp[1]], ev: []pevent{}}
			x.know[i+1] = know
			var as appdash.Annotations
			if know.name != "" {
				as = append(as, appdash.Annotation{Key: "Name", Value: []byte(know.name)}, appdash.Annotation{Key: "_schema:name"})
			}
			for j, h := range sp[2:] {
				v := pevent{S: 1000, Sn: 0, E: 1000 + int64(h/2), En: int64(h%2) * 500000, Schema: profSchemas[j]}
				var ev appdash.Event = appdash.Timespan{S: profTime(v.S, v.Sn), E: profTime(v.E, v.En)}
				if j == 1 {
					ev = httptrace.ServerEvent{ServerRecv: profTime(v.S, v.Sn), ServerSend: profTime(v.E, v.En)}
				}
				a, err := appdash.MarshalEvent(ev)
				if err != nil {
					panic(err)
				}
				as = append(as, a...)
				know.ev = append(know.ev, v)
			}
			x.collectAs(1, i+1, sp[0], as)
		}
		x.set(1)
		x.profile(1, 0)
		if n := len(st.Spans); n > 1 {
			x.profile(1, 2+k%(n-1))
		}
		for _, m := range []string{"trace-only", "span-only", "trace-and-span"} {
			x.aggregate(m, []int{}, "")
		}
		x.trace(1, 0)
		stop()
		e.emit(x.rec)
	}
	r := e.rng("profile")
	for k := 0; k < 3; k++ { // deep, wide, many
		seed, traces := r.Int63(), 1
		if k == 2 {
			traces = 300
		}
		x := newRun(fmt.Sprintf("large%d", k), seed, traces)
		stop := e.begin(map[string]any{"seed": seed, "large": k})
		some := []int{}
		for t := 1; t <= traces; t++ {
			n := 300
			if k == 2 {
				n = 1
			}
			for i := 1; i <= n; i++ {
				x.ns++
				p := 0
				if i > 1 {
					p = []int{x.ns - 1, 1}[k]
				}
				x.span(t, x.ns, p, true)
			}
			x.set(t)
			if t%10 > 0 {
				some = append(some, t)
			}
		}
		x.profile(1, 0)
		if k < 2 {
			x.profile(1, x.ns/2)
			x.trace(1, 0)
		}
		for _, m := range []string{"trace-only", "span-only", "trace-and-span"} {
			x.aggregate(m, []int{}, "")
		}
		x.aggregate("trace-only", some, "")
		x.list([]int{}, nil)
		x.list(some, nil)
		stop()
		e.emit(x.rec)
	}
	for k := 0; k < e.n; k++ {
		seed := r.Int63()
		traces := 1 + r.Intn(5)
		x := newRun(fmt.Sprintf("rand%d", k), seed, traces)
		stop := e.begin(map[string]any{"seed": seed})
		full := x.r.Intn(2) == 0
		for t := 1; t <= traces; t++ {
			if t > 1 && x.r.Intn(8) == 0 {
				continue
			}
			n := 1 + x.r.Intn(5)
			if x.r.Intn(10) == 0 {
				n = 10 + x.r.Intn(25)
			}
			x.grow(t, n, full)
		}
		for o := 4 + x.r.Intn(8); o > 0; o-- {
			t := 1 + x.r.Intn(traces)
			s := 0
			if x.r.Intn(2) == 0 {
				s = 1 + x.r.Intn(x.ns+1)
			}
			some := []int{}
			for _, i := range x.r.Perm(traces) {
				if x.r.Intn(2) == 0 {
					some = append(some, i+1)
				}
			}
			switch x.r.Intn(8) {
			case 0:
				x.grow(t, 1+x.r.Intn(2), full)
			case 1, 2:
				x.profile(t, s)
			case 3, 4:
				x.aggregate([]string{"", "trace-only", "span-only", "trace-and-span", "bogus"}[x.r.Intn(5)], some,
					[]string{"", "", "", "unknown", "bad"}[x.r.Intn(5)])
			case 5:
				x.trace(t, s)
			case 6:
				extra := []string{}
				for x.r.Intn(3) == 0 {
					extra = append(extra, []string{"zz", "", "00000000000abcde", "abcdeg", "0", "0000000000000000", "11111111111111111"}[x.r.Intn(7)])
				}
				for t := 1; t <= traces; t++ {
					if x.m.tid(t) == 0 {
						extra = nil // 0 is a trace
					}
				}
				x.list(some, extra)
			case 7:
				x.dash()
			}
		}
		stop()
		e.emit(x.rec)
	}
}
