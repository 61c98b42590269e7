package drive

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
)

func init() { drivers["events"] = driveEvents }

type evIn struct {
	X string
	N *int
	M map[string]string
}

type evDeep struct {
	A  evIn
	AB *evIn
	L  []string
	In struct {
		T time.Time `trace:"When"`
		D time.Duration
	}
	hidden int
}

type evLevel int
type evKey string

// evSelf marshals itself.
type evSelf struct {
	P, Q string
	Fail bool
	keep appdash.Annotations // what it always marshals into, if set
}

func (evSelf) Schema() string { return "evSelf" }
func (e evSelf) MarshalEvent() (appdash.Annotations, error) {
	if e.Fail {
		return nil, errors.New("no")
	}
	if e.keep != nil {
		return e.keep, nil
	}
	return appdash.Annotations{{Key: "self.p", Value: []byte(e.P)}, {Key: "self.q", Value: []byte(e.Q)}}, nil
}

// evTwin is another event that marshals as an evSelf does.
type evTwin struct{ evSelf }

func (evTwin) Schema() string { return "evTwin" }

func (e evSelf) UnmarshalEvent(as appdash.Annotations) (appdash.Event, error) {
	m := as.StringMap()
	if m["self.bad"] != "" {
		return nil, errors.New("bad")
	}
	return evSelf{P: m["self.p"], Q: m["self.q"]}, nil
}

// typeTree describes a type to the specification.
type typeTree struct {
	K string     `json:"k"`
	E []typeTree `json:"e"`
	F []evField  `json:"f"`
	N int        `json:"n"`
}
type evField struct {
	N string   `json:"n"`
	T typeTree `json:"t"`
}

// valueTree describes a value.
type valueTree struct {
	X   string   `json:"x"`
	C   []evPart `json:"c"`
	Nil bool     `json:"nil"`
}
type evPart struct {
	N string    `json:"n"`
	V valueTree `json:"v"`
}

var (
	evTime = reflect.TypeOf(time.Time{})
	evDur  = reflect.TypeOf(time.Duration(0))
)

// esc spells out unusual characters, byte by byte.
func esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < 32 || c > 126 || c == '"' || c == '\\' || c == '~' {
			fmt.Fprintf(&b, "~%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func evName(f reflect.StructField) string {
	if n := f.Tag.Get("trace"); n != "" {
		return n
	}
	return f.Name
}

func typeOf(t reflect.Type) typeTree {
	tt := typeTree{E: []typeTree{}, F: []evField{}}
	switch {
	case t == evTime:
		tt.K = "time"
		return tt
	case t == evDur:
		tt.K = "dur"
		return tt
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		tt.K = map[reflect.Kind]string{reflect.Ptr: "ptr", reflect.Slice: "slice", reflect.Array: "array", reflect.Map: "map"}[t.Kind()]
		tt.E = append(tt.E, typeOf(t.Elem()))
		if t.Kind() == reflect.Array {
			tt.N = t.Len()
		}
	case reflect.Struct:
		tt.K = "struct"
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				tt.F = append(tt.F, evField{esc(evName(t.Field(i))), typeOf(t.Field(i).Type)})
			}
		}
	case reflect.Float32:
		tt.K = "f32"
	case reflect.Float64:
		tt.K = "f64"
	case reflect.String, reflect.Bool:
		tt.K = t.Kind().String()
	default:
		tt.K = "int"
	}
	return tt
}

func canonFloat(f float64) string {
	switch {
	case f == 0 && !math.Signbit(f):
		return "0"
	case math.IsNaN(f):
		return "NaN"
	}
	return strconv.FormatFloat(f, 'x', -1, 64)
}

func canonTime(t time.Time) string {
	_, off := t.Zone()
	return fmt.Sprintf("%d.%d %d", t.Unix(), t.Nanosecond(), off)
}

// canonDur reads a decimal number of milliseconds, exactly.
func canonDur(s string) string {
	if len(s) > 60 {
		return "?"
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return "?"
	}
	r.Mul(r, big.NewRat(1e6, 1))
	if !r.IsInt() {
		return "?"
	}
	return r.Num().String()
}

func valueOf(v reflect.Value) valueTree {
	vt := valueTree{C: []evPart{}}
	switch v.Type() {
	case evTime:
		vt.X = canonTime(v.Interface().(time.Time))
		return vt
	case evDur:
		vt.X = strconv.FormatInt(v.Int(), 10)
		return vt
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			vt.Nil = true
		} else {
			vt.C = append(vt.C, evPart{"*", valueOf(v.Elem())})
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vt.C = append(vt.C, evPart{strconv.Itoa(i), valueOf(v.Index(i))})
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			vt.C = append(vt.C, evPart{esc(k.String()), valueOf(v.MapIndex(k))})
		}
		sort.Slice(vt.C, func(i, j int) bool { return vt.C[i].N < vt.C[j].N })
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				vt.C = append(vt.C, evPart{esc(evName(f)), valueOf(v.Field(i))})
			}
		}
	case reflect.Float32, reflect.Float64:
		vt.X = canonFloat(v.Float())
	case reflect.Bool:
		vt.X = strconv.FormatBool(v.Bool())
	case reflect.String:
		vt.X = esc(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		vt.X = big.NewInt(v.Int()).String()
	default:
		vt.X = new(big.Int).SetUint64(v.Uint()).String()
	}
	return vt
}

// evAnns describes annotations.
func evAnns(as appdash.Annotations) []Ev {
	out := []Ev{}
	for _, a := range as {
		s := string(a.Value)
		e := Ev{"k": esc(a.Key), "v": esc(s), "f32": "?", "f64": "?", "t": "?", "d": canonDur(s)}
		if f, err := strconv.ParseFloat(s, 32); err == nil {
			e["f32"] = canonFloat(float64(float32(f)))
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			e["f64"] = canonFloat(f)
		}
		if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
			e["t"] = canonTime(t)
		}
		out = append(out, e)
	}
	return out
}

// owns tells whether a key belongs to a part.
func owns(t reflect.Type, p, key string) bool {
	nest := func(p, n string) string {
		if p == "" {
			return n
		}
		return p + "." + n
	}
	if t == evTime || t == evDur {
		return key == p
	}
	under := strings.HasPrefix(key, nest(p, ""))
	switch t.Kind() {
	case reflect.Ptr:
		return key == p || under
	case reflect.Map:
		return under
	case reflect.Slice, reflect.Array:
		if !under {
			return false
		}
		_, err := strconv.Atoi(key[len(nest(p, "")):])
		return err == nil
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.IsExported() && owns(f.Type, nest(p, evName(f)), key) {
				return true
			}
		}
		return false
	}
	return key == p
}

var evStrings = []string{"", "x", "0", "true", "a b", "é", "\x00\xff", "nil", "a.b", "_schema:x", "x\ny", strings.Repeat("long ", 30)}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// fill sets a value: p is 0 for empty, 1 for little, 2 for much.
func fill(r *rand.Rand, v reflect.Value, p int) {
	t := v.Type()
	if t == evTime {
		if p > 0 {
			tm := time.Unix(pick(r, 0, 1, -1, 1400000000, 253402300799-86400, -62135596800+86400, r.Int63n(4e9)), pick(r, 0, 1, 400, 999999999, r.Int63n(1e9))).UTC()
			if p == 2 {
				tm = tm.In(time.FixedZone("z", pick(r, 0, 3600, -5*3600, 60, -19800, 14*3600)))
			}
			v.Set(reflect.ValueOf(tm))
		}
		return
	}
	if t == evDur {
		if p > 0 {
			n := pick(r, 1, 3, 17, 500000, 1000000, 1234567, 29*1e6+1, 1<<53+1, math.MaxInt64, r.Int63(), r.Int63n(1e6), r.Int63n(1e12))
			if p == 2 && r.Intn(2) == 0 {
				n = -n
				if r.Intn(6) == 0 {
					n = math.MinInt64
				}
			}
			v.SetInt(n)
		}
		return
	}
	deeper := func() int { return r.Intn(3) }
	switch v.Kind() {
	case reflect.String:
		if p > 0 {
			v.SetString(pick(r, evStrings...))
			if v.String() == "" {
				v.SetString(pick(r, "v", "v", strings.Repeat("V", 1+r.Intn(5000))))
			}
		}
	case reflect.Bool:
		v.SetBool(p > 0)
	case reflect.Float32, reflect.Float64:
		if p > 0 {
			f := pick(r, 1, -1, 0.1, 500.3, math.Pi, 1e300, 1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1),
				16777217, 1<<53+2, r.NormFloat64(), math.Float64frombits(r.Uint64()))
			if v.Kind() == reflect.Float32 {
				f = float64(float32(f))
			}
			v.SetFloat(f)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if p > 0 {
			b := t.Bits()
			n := pick(r, 1, -1, 1<<(b-1)-1, -1<<(b-1), r.Int63())
			v.SetInt(n << (64 - b) >> (64 - b))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if p > 0 {
			v.SetUint(pick(r, 1, math.MaxUint64, r.Uint64(), 1<<31) & (math.MaxUint64 >> (64 - t.Bits())))
		}
	case reflect.Ptr:
		if p > 0 {
			v.Set(reflect.New(t.Elem()))
			fill(r, v.Elem(), p-1+r.Intn(2)*(2-p))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() && p > 0 {
				fill(r, v.Field(i), deeper())
			}
		}
	case reflect.Slice:
		n := 0
		switch p {
		case 0:
			if r.Intn(2) == 0 {
				v.Set(reflect.MakeSlice(t, 0, 0))
			}
			return
		case 1:
			n = 1
		case 2:
			n = pick(r, 2, 3, 10, 11, 12)
			if k := t.Elem().Kind(); k <= reflect.Float64 || k == reflect.String {
				n = pick(r, n, n, n, n, n, 101, 150)
			}
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			fill(r, v.Index(i), deeper())
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), min(p, deeper()))
		}
	case reflect.Map:
		if p == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		n := p * p
		if k := t.Elem().Kind(); p == 2 && r.Intn(8) == 0 && (k <= reflect.Float64 || k == reflect.String) {
			n = 120
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			k.SetString(pick(r, "k", "k1", "K-1", "a.b", "a", "", "X", "0", "B", "k k", "ü", "_schema:y"))
			if i > 8 {
				k.SetString(fmt.Sprint("k", i))
			}
			e := reflect.New(t.Elem()).Elem()
			fill(r, e, deeper())
			v.SetMapIndex(k, e)
		}
	}
}

// evAround gives keys near those of a type, and others, none of its own.
func evAround(r *rand.Rand, t reflect.Type, as appdash.Annotations, n int) appdash.Annotations {
	var keys []string
	for _, f := range typeOf(t).F {
		keys = append(keys, f.N)
	}
	for _, a := range as {
		keys = append(keys, a.Key)
	}
	var out appdash.Annotations
	seen := map[string]bool{}
	for i := 0; i < 4*n && len(out) < n; i++ {
		k := "Z"
		if len(keys) > 0 {
			k = keys[r.Intn(len(keys))]
		}
		switch r.Intn(9) {
		case 0:
			k += pick(r, ".", ".0", ".X", ".k", "..", ".-1", ".99999999999", ".00", ".+1")
		case 1:
			k += pick(r, "A", "0", "-", " ", "_", "~", "/", "\x00", "ü")
		case 2:
			k = k[:len(k)/2]
		case 3:
			k = pick(r, "", ".", "!", "A", "AB", "A.0", "B", "ABCD", "Z", "~", "zz", "a", "_schema", "Msg", "Name", "Time")
		case 4:
			if j := strings.LastIndexByte(k, '.'); j >= 0 {
				k = k[:j]
			}
		case 5:
			k = strings.ToLower(k)
		case 6:
			k = "A" + k
		case 7:
			k = strings.ReplaceAll(k, ".", pick(r, "-", "/", "", "0"))
		case 8:
			k += ".Y.Z"
		}
		if seen[k] || strings.HasPrefix(k, appdash.SchemaPrefix) || owns(t, "", k) {
			continue
		}
		seen[k] = true
		out = append(out, appdash.Annotation{Key: k, Value: []byte(pick(r, "x", "", "1", "true", "2014-05-16T12:28:38.0000004Z"))})
	}
	return out
}

func evMerge(r *rand.Rand, a, b appdash.Annotations) appdash.Annotations {
	out := append(appdash.Annotations{}, a...)
	for _, x := range b {
		i := r.Intn(len(out) + 1)
		out = append(out[:i], append(appdash.Annotations{x}, out[i:]...)...)
	}
	return out
}

func unmarshalErr(err error) string {
	var se *appdash.EventSchemaUnmarshalError
	if errors.As(err, &se) {
		return "schema:" + se.Target
	}
	return errStr(err)
}

// evRound marshals a value and unmarshals it among other annotations.
func evRound(rec *Rec, r *rand.Rand, v reflect.Value, strays int) {
	t := v.Type()
	ev := v.Interface().(appdash.Event)
	if r.Intn(3) == 0 {
		p := reflect.New(t)
		p.Elem().Set(v)
		ev = p.Interface().(appdash.Event)
	}
	e := Ev{"op": "rt", "t": typeOf(t), "v": valueOf(v), "schema": t.Name()}
	var m appdash.Annotations
	var err error
	if p := guard(func() { m, err = appdash.MarshalEvent(ev) }); p != "" {
		err = errors.New(p)
	}
	e["merr"], e["m"] = errStr(err), evAnns(m)
	a := evMerge(r, m, evAround(r, t, m, strays))
	if r.Intn(4) == 0 {
		a = evMerge(r, a, appdash.Annotations{{Key: appdash.SchemaPrefix + pick(r, "other", "", t.Name()+"x", "name")}})
	}
	snap := copyAnns(a)
	back := reflect.New(t)
	if p := guard(func() { err = appdash.UnmarshalEvent(a, back.Interface().(appdash.Event)) }); p != "" {
		err = errors.New(p)
	}
	e["a"], e["uerr"], e["back"], e["intact"] = evAnns(a), unmarshalErr(err), valueOf(back.Elem()), sameAnns(a, snap)
	rec.add(e)
}

// evForeign unmarshals annotations that some other implementation wrote.
func evForeign(rec *Rec, r *rand.Rand, v reflect.Value, strays int) {
	t := v.Type()
	var as appdash.Annotations
	put := func(k, s string) { as = append(as, appdash.Annotation{Key: k, Value: []byte(s)}) }
	var walk func(p string, v reflect.Value)
	nest := func(p, n string) string {
		if p == "" {
			return n
		}
		return p + "." + n
	}
	walk = func(p string, v reflect.Value) {
		switch v.Type() {
		case evTime:
			put(p, v.Interface().(time.Time).Format(pick(r, "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02T15:04:05.000000000Z07:00", "2006-01-02T15:04:05.999999999Z07:00")))
			return
		case evDur:
			s := new(big.Rat).SetFrac64(v.Int(), 1e6).FloatString(6)
			if r.Intn(2) == 0 {
				s = strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
			}
			put(p, s)
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(p, v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() && r.Intn(5) > 0 {
					walk(nest(p, evName(f)), v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(nest(p, strconv.Itoa(i)), v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(nest(p, k.String()), v.MapIndex(k))
			}
		case reflect.Float64:
			put(p, strconv.FormatFloat(v.Float(), pick(r, byte('g'), 'e', 'f'), -1, 64))
		case reflect.Float32:
			put(p, strconv.FormatFloat(v.Float(), pick(r, byte('g'), 'e', 'f'), -1, pick(r, 32, 64)))
		default:
			put(p, fmt.Sprint(v.Interface()))
		}
	}
	walk("", v)
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	as = evMerge(r, as, evAround(r, t, as, strays))
	has := r.Intn(5) > 0
	if has {
		as = evMerge(r, as, appdash.Annotations{{Key: appdash.SchemaPrefix + t.Name()}})
	} else {
		as = evMerge(r, as, appdash.Annotations{{Key: appdash.SchemaPrefix + pick(r, "other", "", t.Name()+"x", strings.ToUpper(t.Name()))}})
	}
	back := reflect.New(t)
	var err error
	if p := guard(func() { err = appdash.UnmarshalEvent(as, back.Interface().(appdash.Event)) }); p != "" {
		err = errors.New(p)
	}
	rec.add(Ev{"op": "un", "t": typeOf(t), "schema": t.Name(), "a": evAnns(as), "uerr": unmarshalErr(err), "back": valueOf(back.Elem())})
}

// evSpan puts several events on a span, and reads all that are known.
func evSpan(rec *Rec, r *rand.Rand) {
	names := []string{}
	for i := 0; i < 24; i++ {
		names = append(names, fmt.Sprintf("evm%d", i))
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:r.Intn(6)]
	var as appdash.Annotations
	evs := []Ev{}
	strays := appdash.Annotations{}
	for _, n := range names {
		v := reflect.New(reflect.TypeOf(eventTypes[n])).Elem()
		fill(r, v, 1+r.Intn(2))
		m, err := appdash.MarshalEvent(v.Interface().(appdash.Event))
		if err != nil {
			panic(err)
		}
		as = append(as, m...)
		evs = append(evs, Ev{"schema": n, "t": typeOf(v.Type()), "v": valueOf(v)})
		for _, x := range evAround(r, v.Type(), m, 2) {
			ok := true
			for _, o := range names {
				ok = ok && !owns(reflect.TypeOf(eventTypes[o]), "", x.Key)
			}
			for _, o := range strays {
				ok = ok && o.Key != x.Key
			}
			if ok {
				strays = append(strays, x)
			}
		}
	}
	as = evMerge(r, as, strays)
	if r.Intn(3) == 0 {
		as = evMerge(r, as, appdash.Annotations{{Key: appdash.SchemaPrefix + pick(r, "other", "", "evm", "evm99")}})
	}
	var got []appdash.Event
	pre := r.Intn(3) == 0
	if pre {
		got = append(got, appdash.SpanName("before"))
	}
	var err error
	if p := guard(func() { err = appdash.UnmarshalEvents(as, &got) }); p != "" {
		err = errors.New(p)
	}
	if pre {
		if len(got) == 0 || got[0] != appdash.SpanName("before") {
			err = errors.New("earlier events lost")
		} else {
			got = got[1:]
		}
	}
	back := []Ev{}
	for _, g := range got {
		v := reflect.ValueOf(g)
		back = append(back, Ev{"schema": g.Schema(), "ptr": v.Kind() == reflect.Ptr, "v": valueOf(reflect.Indirect(v))})
	}
	rec.add(Ev{"op": "all", "evs": evs, "a": evAnns(as), "uerr": errStr(err), "back": back})
}

func evRegister(rec *Rec, e appdash.Event) {
	p := guard(func() { appdash.RegisterEvent(e) })
	rec.add(Ev{"op": "reg", "schema": e.Schema(), "refused": p != ""})
}

type evNoSchema struct{}

func (evNoSchema) Schema() string { return "" }

func evCustom(rec *Rec, r *rand.Rand) {
	e := evSelf{P: pick(r, evStrings...), Q: pick(r, evStrings...), Fail: r.Intn(4) == 0}
	room := appdash.Annotations{{Key: "self.p", Value: []byte(e.P)}, {Key: "self.q", Value: []byte(e.Q)}, {Key: "apart"}, {Key: "apart"}}
	if r.Intn(2) == 0 {
		e.keep = room[:2]
	}
	m, err := appdash.MarshalEvent(e)
	twin := e
	twin.Fail = false
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			appdash.MarshalEvent(evTwin{twin})
		}()
	}
	wg.Wait()
	intact := room[2].Key == "apart" && room[3].Key == "apart" && string(room[0].Value) == e.P && string(room[1].Value) == e.Q
	rec.add(Ev{"op": "cm", "intact": intact, "p": esc(e.P), "q": esc(e.Q), "fail": e.Fail, "err": errStr(err), "m": evAnns(m)})
	a := appdash.Annotations{{Key: "self.q", Value: []byte(e.Q)}, {Key: "self.p", Value: []byte(e.P)}, {Key: "P", Value: []byte("other")}}
	has, bad := r.Intn(4) > 0, r.Intn(4) == 0
	if has {
		a = evMerge(r, a, appdash.Annotations{{Key: appdash.SchemaPrefix + "evSelf"}})
	}
	if bad {
		a = evMerge(r, a, appdash.Annotations{{Key: "self.bad", Value: []byte("1")}})
	}
	back := evSelf{P: "old"}
	err = appdash.UnmarshalEvent(a, &back)
	rec.add(Ev{"op": "cu", "p": esc(e.P), "q": esc(e.Q), "has": has, "bad": bad, "err": unmarshalErr(err), "bp": esc(back.P), "bq": esc(back.Q)})
}

var registered = map[string]bool{"name": true, "log": true, "msg": true, "timespan": true, "Timespan": true, "HTTPServer": true, "HTTPClient": true, "SQL": true}

func driveEvents(e *env) {
	reg := newRec("register")
	for i := 0; i < 18; i++ {
		evRegister(reg, eventTypes[fmt.Sprintf("evm%d", i)])
		registered[fmt.Sprintf("evm%d", i)] = true
	}
	evRegister(reg, eventTypes["evm3"])
	evRegister(reg, appdash.SpanNameEvent{})
	evRegister(reg, evNoSchema{})
	e.emit(reg)
	var jobs []func()
	batch := func(name string, n int, f func(rec *Rec, i int)) {
		const size = 25
		for at := 0; at < n; at += size {
			at := at
			jobs = append(jobs, func() {
				rec := newRec(fmt.Sprintf("%s-%d", name, at))
				keys := []string{}
				for k := range registered {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				rec.Cfg = Ev{"known": keys}
				defer e.begin(rec.Name)()
				for i := at; i < min(n, at+size); i++ {
					f(rec, i)
				}
				e.emit(rec)
			})
		}
	}
	if e.mode != "race" {
		batch("gen", len(e.stim), func(rec *Rec, i int) {
			var st struct {
				T     string `json:"t"`
				P     []int  `json:"p"`
				Stray int    `json:"stray"`
			}
			if err := json.Unmarshal(e.stim[i], &st); err != nil {
				panic(err)
			}
			r := e.rng("gen" + string(e.stim[i]))
			v := reflect.New(reflect.TypeOf(eventTypes[st.T])).Elem()
			for j, p := range st.P {
				fill(r, v.Field(j), p)
			}
			evRound(rec, r, v, st.Stray)
		})
	}
	names := []string{}
	for n := range eventTypes {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		if a, b := strings.HasPrefix(names[i], "evr"), strings.HasPrefix(names[j], "evr"); a != b {
			return a
		}
		return names[i] < names[j]
	})
	batch("rnd", e.n, func(rec *Rec, i int) {
		r := e.rng(fmt.Sprintf("rnd%d", i))
		n := names[r.Intn(len(names))]
		if r.Intn(2) == 0 {
			n = names[r.Intn(160)]
		}
		v := reflect.New(reflect.TypeOf(eventTypes[n])).Elem()
		fill(r, v, 1)
		switch r.Intn(6) {
		case 0, 1, 2:
			evRound(rec, r, v, r.Intn(5))
		case 3:
			evForeign(rec, r, v, r.Intn(5))
		case 4:
			evSpan(rec, r)
		case 5:
			evCustom(rec, r)
			built := []appdash.Event{appdash.Msg(pick(r, evStrings...)), appdash.SpanName(pick(r, evStrings...)),
				appdash.LogWithTimestamp(pick(r, evStrings...), time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()),
				appdash.Timespan{S: time.Unix(r.Int63n(4e9), 1).UTC(), E: time.Unix(5, r.Int63n(1e9)).UTC()}}
			for _, x := range []appdash.Event{httptrace.ServerEvent{}, httptrace.ClientEvent{}, sqltrace.SQLEvent{}} {
				v := reflect.New(reflect.TypeOf(x)).Elem()
				fill(r, v, 1)
				built = append(built, v.Interface().(appdash.Event))
			}
			evBuiltin(rec, r, built[r.Intn(len(built))])
		}
	})
	if e.mode != "race" {
		for _, j := range jobs {
			j()
		}
		return
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(jobs); i += 8 {
				jobs[i]()
			}
		}()
	}
	wg.Wait()
}

// evBuiltin reads back one of the package's own events.
func evBuiltin(rec *Rec, r *rand.Rand, ev appdash.Event) {
	v := reflect.ValueOf(ev)
	m, err := appdash.MarshalEvent(ev)
	a := evMerge(r, m, evAround(r, v.Type(), m, 2))
	var got []appdash.Event
	uerr := appdash.UnmarshalEvents(a, &got)
	back := []Ev{}
	for _, g := range got {
		back = append(back, Ev{"schema": g.Schema(), "ptr": false, "v": valueOf(reflect.ValueOf(g))})
	}
	rec.add(Ev{"op": "all", "evs": []Ev{{"schema": ev.Schema(), "t": typeOf(v.Type()), "v": valueOf(v)}}, "a": evAnns(a), "uerr": errStr(err) + errStr(uerr), "back": back})
}
