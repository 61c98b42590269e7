package drive

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["auth"] = driveAuth }

type authCred struct {
	Exact bool   `json:"exact"`
	Dec   string `json:"dec"`
}

// readCred says what an Authorization header may be taken to mean.
func readCred(v string) []authCred {
	v = strings.Trim(v, " \t")
	out := []authCred{}
	for _, part := range append([]string{v}, strings.Split(v, ",")...) {
		f := strings.Fields(part)
		if len(f) < 2 || !strings.EqualFold(f[0], "Basic") {
			continue
		}
		enc := strings.TrimRight(strings.Join(f[1:], ""), "=")
		enc = strings.NewReplacer("-", "+", "_", "/").Replace(enc)
		dec, err := base64.RawStdEncoding.DecodeString(enc)
		if err != nil {
			continue
		}
		c := authCred{Exact: v == "Basic "+base64.StdEncoding.EncodeToString(dec), Dec: short(string(dec))}
		if !slices.Contains(out, c) {
			out = append(out, c)
		}
	}
	return out
}

type authRun struct {
	e          *env
	r          *rand.Rand
	rec        *Rec
	m          *ids
	prot, twin *appProc
	user, pw   string
	conns      map[int]*authConn
	secrets    []string // by trace, from 1
	made       map[int]appdash.Annotations
}

type authConn struct {
	c  net.Conn
	br *bufio.Reader
}

func flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = c - 32
			return string(b)
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
			return string(b)
		}
	}
	return s + "A"
}

var authKinds = []string{"root", "list", "agg", "page", "profile", "upload", "perma"}
var authCreds = []string{"exact", "none", "wrongpw", "wronguser", "prefix", "longer", "case", "swapped", "nopw", "nouser", "empty", "bearer",
	"lower", "unpadded", "spaces", "raw", "wrong-exact", "exact-wrong", "wrong-wrong", "proxy", "query", "cut", "ext", "nul", "newline", "comma",
	"bits", "blank", "usercase", "lastbyte", "firstbyte", "double", "samelen", "digest"}

// headers returns the headers of a kind of credentials.
func (x *authRun) headers(c string) (auth []string, other string) {
	b := func(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }
	good := x.user + ":" + x.pw
	rep := func(s string, i int) string {
		t := []byte(s)
		t[i] ^= 1
		return string(t)
	}
	switch c {
	case "exact":
		return []string{b(good)}, ""
	case "none":
		return nil, ""
	case "wrongpw":
		return []string{b(x.user + ":nope")}, ""
	case "wronguser":
		return []string{b("nobody:" + x.pw)}, ""
	case "prefix":
		return []string{b(good[:len(good)-1])}, ""
	case "longer":
		return []string{b(good + "x")}, ""
	case "case":
		return []string{b(x.user + ":" + flip(x.pw))}, ""
	case "usercase":
		return []string{b(flip(x.user) + ":" + x.pw)}, ""
	case "swapped":
		return []string{b(x.pw + ":" + x.user)}, ""
	case "nopw":
		return []string{b(x.user + ":")}, ""
	case "nouser":
		return []string{b(":" + x.pw)}, ""
	case "empty":
		return []string{"Basic "}, ""
	case "blank":
		return []string{""}, ""
	case "bearer":
		return []string{"Bearer" + b(good)[5:]}, ""
	case "digest":
		return []string{"Digest username=\"" + "u" + "\""}, ""
	case "lower":
		return []string{"basic" + b(good)[5:]}, ""
	case "unpadded":
		return []string{strings.TrimRight(b(good), "=")}, ""
	case "spaces":
		return []string{"Basic  " + b(good)[6:]}, ""
	case "raw":
		return []string{"Basic u:p"}, ""
	case "wrong-exact":
		return []string{b(x.user + ":nope"), b(good)}, ""
	case "exact-wrong":
		return []string{b(good), b(x.user + ":nope")}, ""
	case "wrong-wrong":
		return []string{b(x.user), b(x.pw)}, ""
	case "proxy":
		return nil, "Proxy-Authorization: " + b(good) + "\r\nX-Authorization: " + b(good) + "\r\nCookie: authorization=" + b(good) + "\r\n"
	case "query":
		return nil, "X-Forwarded-User: admin\r\nX-Forwarded-For: 127.0.0.1\r\nX-Original-URL: /\r\n"
	case "cut":
		h := b(good)
		return []string{h[:6+x.r.Intn(len(h)-6)]}, ""
	case "ext":
		return []string{b(good) + "AAAA"}, ""
	case "nul":
		return []string{b(good + "\x00")}, ""
	case "newline":
		return []string{b(good + "\n")}, ""
	case "comma":
		return []string{b(good) + ", " + b("a:b")}, ""
	case "bits":
		// the unused last bits of the encoding
		h := b(good)
		k := strings.TrimRight(h, "=")
		if len(k) < len(h) {
			const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
			p := strings.IndexByte(al, k[len(k)-1])
			h = k[:len(k)-1] + string(al[p^1]) + h[len(k):]
		}
		return []string{h}, ""
	case "lastbyte":
		return []string{b(rep(good, len(good)-1))}, ""
	case "firstbyte":
		return []string{b(rep(good, 0))}, ""
	case "samelen":
		return []string{b(rep(good, x.r.Intn(len(good))))}, ""
	case "double":
		return []string{b(b(good)[6:])}, ""
	}
	panic(c)
}

func (x *authRun) secret(t int) string {
	for len(x.secrets) < t {
		x.secrets = append(x.secrets, fmt.Sprintf("SECRET%dX%xZ", len(x.secrets)+1, x.r.Uint32()))
	}
	return x.secrets[t-1]
}

func (x *authRun) traceID(t int) appdash.ID { return x.m.tid(t) }

func (x *authRun) anns(t int) appdash.Annotations {
	if as, ok := x.made[t]; ok {
		return as
	}
	a, err := appdash.MarshalEvent(appdash.SpanName(x.secret(t)))
	if err != nil {
		panic(err)
	}
	b, err := appdash.MarshalEvent(appdash.Timespan{S: time.Unix(1469000000, 0), E: time.Unix(1469000001, 0)})
	if err != nil {
		panic(err)
	}
	x.made[t] = append(a, b...)
	return x.made[t]
}

func (x *authRun) doc(t int) string {
	st := appdash.NewMemoryStore()
	if err := st.Collect(appdash.SpanID{Trace: x.traceID(t), Span: x.m.id(t)}, x.anns(t)...); err != nil {
		panic(err)
	}
	tr, err := st.Trace(x.traceID(t))
	if err != nil {
		panic(err)
	}
	b, err := json.Marshal(tr)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// raw sends a request and reads the answer, on connection n (0: a new one).
func (x *authRun) raw(p *appProc, n int, method, req string) (*http.Response, string, error) {
	key := n
	if p == x.twin {
		key = -n
	}
	for try := 0; ; try++ {
		c := x.conns[key]
		fresh := false
		if n == 0 || c == nil {
			nc, err := p.dial()
			if err != nil {
				return nil, "", err
			}
			c, fresh = &authConn{nc, bufio.NewReader(nc)}, true
			if n != 0 {
				x.conns[key] = c
			}
		}
		if n == 0 {
			defer c.c.Close()
		}
		c.c.SetDeadline(time.Now().Add(20 * time.Second))
		var resp *http.Response
		_, err := io.WriteString(c.c, req)
		if err == nil {
			resp, err = http.ReadResponse(c.br, &http.Request{Method: method})
		}
		if err != nil {
			c.c.Close()
			delete(x.conns, key)
			if !fresh && try == 0 {
				continue // the server may have closed it in the meantime
			}
			return nil, "", err
		}
		b, err := io.ReadAll(resp.Body)
		if err != nil || resp.Close {
			c.c.Close()
			delete(x.conns, key)
		}
		return resp, string(b), err
	}
}

func sortedBytes(s string) string {
	b := []byte(s)
	slices.Sort(b)
	return string(b)
}

func (x *authRun) req(kind string, t int, cred string, conn int) {
	ev := Ev{"op": "req", "k": kind, "t": t, "c": cred, "n": conn, "odd": false}
	method, path, body := "GET", "", ""
	switch kind {
	case "root":
		path = "/"
	case "list":
		path = "/traces"
	case "agg":
		path = "/aggregate"
	case "page":
		path = "/traces/" + x.traceID(t).String()
	case "profile":
		path = "/traces/" + x.traceID(t).String() + "/profile"
	case "upload":
		method, path, body = "POST", "/traces/upload", "["+x.doc(t)+"]"
	case "perma":
		var buf bytes.Buffer
		gz := gzip.NewWriter(&buf)
		io.WriteString(gz, x.doc(t))
		gz.Close()
		path = "/traces/" + x.traceID(t).String() + "?permalink=" + base64.RawURLEncoding.EncodeToString(buf.Bytes())
	default:
		ev["odd"] = true
		ms := []string{"GET", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "FOO", "POST", "TRACE"}
		ps := []string{"/", "//", "/traces/", "/traces//", "/static/x.js", "/static/", "/static/../traces", "/traces/../traces", "/%74races", "/nothere",
			"/dashboard", "/dashboard/data", "/favicon.ico", "/traces?show=1", "/debug/pprof/", "/debug/pprof/cmdline", "/debug/vars",
			"/traces/zz", "/TRACES", "/traces;a", "/aggregate?view-mode=span-only", "http://user@other.test/traces", "/./", "/traces/upload", "/healthz"}
		method, path = ms[x.r.Intn(len(ms))], ps[x.r.Intn(len(ps))]
		if method == "GET" && x.r.Intn(2) == 0 || method == "POST" {
			method = "GET"
		}
		t = 0
		ev["t"], ev["method"], ev["path"] = 0, method, path
	}
	auth, other := x.headers(cred)
	if cred == "query" {
		sep := "?"
		if strings.Contains(path, "?") {
			sep = "&"
		}
		path += sep + "authorization=" + strings.ReplaceAll(base64.URLEncoding.EncodeToString([]byte(x.user+":"+x.pw)), "=", "%3D") + "&user=admin"
	}
	req := method + " " + path + " HTTP/1.1\r\nHost: appdash.test\r\n" + other
	for _, a := range auth {
		h := "Authorization"
		if x.r.Intn(3) == 0 {
			h = "authorization"
		}
		req += h + ": " + a + "\r\n"
	}
	if body != "" {
		req += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	req += "\r\n" + body
	creds := []authCred{}
	for _, a := range auth {
		cs := readCred(a)
		if len(cs) == 0 {
			cs = []authCred{{}}
		}
		creds = append(creds, cs...)
	}
	ev["creds"] = creds
	resp, text, err := x.raw(x.prot, conn, method, req)
	if err != nil {
		ev["st"], ev["chal"], ev["tells"], ev["same"], ev["err"] = 0, false, []int{}, false, err.Error()
		x.rec.add(ev)
		return
	}
	var hs strings.Builder
	resp.Header.Write(&hs)
	ev["st"] = resp.StatusCode
	ev["chal"] = strings.HasPrefix(resp.Header.Get("WWW-Authenticate"), "Basic ")
	ev["tells"] = x.tells(hs.String() + text)
	same := true
	if resp.StatusCode != 401 {
		r2, text2, err := x.raw(x.twin, conn, method, req)
		same = err == nil && r2.StatusCode == resp.StatusCode && r2.Header.Get("Content-Type") == resp.Header.Get("Content-Type") &&
			r2.Header.Get("Location") == resp.Header.Get("Location") && sortedBytes(text2) == sortedBytes(text)
		if !same && strings.Contains(path, "/debug/pprof") {
			// served by net/http/pprof, if at all: it tells of the process
			same = r2 != nil && r2.StatusCode == resp.StatusCode
		}
	}
	ev["same"] = same
	x.rec.add(ev)
}

func (x *authRun) tells(text string) []int {
	out := []int{}
	for i, s := range x.secrets {
		if strings.Contains(text, s) {
			out = append(out, i+1)
		}
	}
	return out
}

func (x *authRun) collect(ts ...int) {
	for _, p := range []*appProc{x.prot, x.twin} {
		var col *appdash.RemoteCollector
		if p.tls {
			col = appdash.NewTLSRemoteCollector(p.coll, tlsAny())
		} else {
			col = appdash.NewRemoteCollector(p.coll)
		}
		for _, t := range ts {
			if err := col.Collect(appdash.SpanID{Trace: x.traceID(t), Span: x.m.id(t)}, x.anns(t)...); err != nil {
				panic(err)
			}
		}
		end := time.Now().Add(20 * time.Second)
		for len(x.listed(p, ts)) < len(ts) && time.Now().Before(end) {
			time.Sleep(time.Millisecond)
		}
		col.Close()
	}
	x.rec.add(Ev{"op": "has", "held": x.listed(x.prot, ts)})
}

// listed asks, with the password, which traces there are.
func (x *authRun) listed(p *appProc, of []int) []int {
	_, text, err := p.get("/traces", http.Header{"Authorization": {"Basic " + base64.StdEncoding.EncodeToString([]byte(x.user+":"+x.pw))}})
	if err != nil {
		return []int{}
	}
	all := x.tells(text)
	if of == nil {
		return all
	}
	out := []int{}
	for _, t := range all {
		if slices.Contains(of, t) {
			out = append(out, t)
		}
	}
	return out
}

var authConfigs = [][2]string{{"admin", "s3cret"}, {"u", "p"}, {"user", "pass:with:colons"}, {"j\u00f6rg", "\u6f22\u5b57 pw"}, {"Aladdin", "open sesame"},
	{"a", "Basic YTpi"}, {"x y", "  "}, {strings.Repeat("u", 100), strings.Repeat("P", 300)}, {"AAAA", "AAAA"}, {"user", "pw="}, {"r", "0"}}

func driveAuth(e *env) {
	r := e.rng("auth")
	if err := writeCert(e.dir); err != nil {
		e.t.Fatal(err)
	}
	if e.mode == "start" {
		for k, a := range []string{"nocolon", ":pw", "user:", ":", "user", "u:p", "u:p:q", "u::", " : ", ":u:p", "ab:c"} {
			done := e.begin(a)
			rec := newRec(fmt.Sprintf("start%d", k+1))
			i := strings.Index(a, ":")
			rec.Cfg = Ev{"want": a}
			p := startApp(e.dir, false, "--store-file=", "--basic-auth="+a)
			up := p != nil
			if up {
				p.kill(syscall.SIGKILL)
			}
			rec.add(Ev{"op": "start", "arg": a, "wellformed": i > 0 && i < len(a)-1, "up": up})
			e.emit(rec)
			done()
		}
		return
	}
	per := 60
	for run := 0; run < e.n || len(e.stim) > 0; run++ {
		cf := authConfigs[(run+int(e.seed))%len(authConfigs)]
		useTLS := run%5 == 4
		done := e.begin(cf)
		x := &authRun{e: e, r: r, rec: newRec(fmt.Sprintf("run%d", run+1)), m: newIDs(r, 0), user: cf[0], pw: cf[1], conns: map[int]*authConn{}, made: map[int]appdash.Annotations{}}
		x.rec.Cfg = Ev{"want": short(x.user + ":" + x.pw), "user": x.user, "tls": useTLS}
		dir := filepath.Join(e.dir, fmt.Sprintf("run%d", run))
		if err := os.Mkdir(dir, 0o700); err != nil {
			e.t.Fatal(err)
		}
		for _, f := range []string{"cert.pem", "key.pem"} {
			b, err := os.ReadFile(filepath.Join(e.dir, f))
			if err != nil {
				e.t.Fatal(err)
			}
			os.WriteFile(filepath.Join(dir, f), b, 0o600)
		}
		x.prot = startApp(dir, useTLS, "--store-file=", "--basic-auth="+x.user+":"+x.pw)
		x.twin = startApp(dir, useTLS, "--store-file=")
		if x.twin == nil {
			e.t.Fatal("appdash does not start")
		}
		if x.prot == nil {
			x.rec.add(Ev{"op": "start", "arg": x.user + ":" + x.pw, "wellformed": true, "up": false})
			x.twin.kill(syscall.SIGKILL)
			e.emit(x.rec)
			done()
			continue
		}
		x.collect(1, 2)
		next := 2
		do := func(kind, cred string, conn int) {
			t := 0
			switch kind {
			case "page", "profile":
				t = 1 + r.Intn(next+1)
			case "upload", "perma":
				t = 1 + r.Intn(next+2)
				if t > next && t < next+2 {
					next++
				} else if t > next {
					t = next + 1
					next++
				}
			}
			if t > 0 {
				x.secret(t)
			}
			x.req(kind, t, cred, conn)
		}
		if len(e.stim) > 0 {
			k := min(per, len(e.stim))
			for _, s := range e.stim[:k] {
				var prog []struct {
					K, C string
					N    int
				}
				if err := json.Unmarshal(s, &prog); err != nil {
					e.t.Fatal(err)
				}
				for _, p := range prog {
					do(p.K, p.C, p.N)
				}
			}
			e.stim = e.stim[k:]
		} else {
			for k := 0; k < 120; k++ {
				kind := "odd"
				if r.Intn(4) > 0 {
					kind = authKinds[r.Intn(len(authKinds))]
				}
				cred := "exact"
				if r.Intn(3) > 0 {
					cred = authCreds[r.Intn(len(authCreds))]
				}
				do(kind, cred, r.Intn(4))
			}
		}
		x.rec.add(Ev{"op": "end", "held": x.listed(x.prot, nil)})
		for _, c := range x.conns {
			c.c.Close()
		}
		x.prot.kill(syscall.SIGKILL)
		x.twin.kill(syscall.SIGKILL)
		os.RemoveAll(dir)
		e.emit(x.rec)
		done()
	}
}
