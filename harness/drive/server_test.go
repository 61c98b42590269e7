package drive

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["server"] = driveServer }

// ---- the wire format, written independently of the code under test

type wmsg struct {
	T, S, P uint64
	Anns    []appdash.Annotation
}

func varint(v uint64) []byte { return binary.AppendUvarint(nil, v) }

func wtag(f, w int) []byte { return varint(uint64(f<<3 | w)) }

func wfixed(f int, v uint64) []byte {
	return binary.LittleEndian.AppendUint64(wtag(f, 1), v)
}

func wbytes(f int, b []byte) []byte {
	return append(append(wtag(f, 2), varint(uint64(len(b)))...), b...)
}

func cat(bs ...[]byte) []byte {
	out := []byte{}
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func wgroup(f int, bs ...[]byte) []byte {
	return cat(wtag(f, 3), cat(bs...), wtag(f, 4))
}

func wann(a appdash.Annotation) []byte {
	return wgroup(5, wbytes(6, []byte(a.Key)), wbytes(7, a.Value))
}

func wanns(as []appdash.Annotation) []byte {
	out := []byte{}
	for _, a := range as {
		out = append(out, wann(a)...)
	}
	return out
}

func framed(b []byte) []byte { return append(varint(uint64(len(b))), b...) }

// unknown gives a field that the protocol does not know.
func unknown(r *rand.Rand) []byte {
	f := 8 + r.Intn(5000)
	switch r.Intn(6) {
	case 0:
		return append(wtag(f, 0), varint(r.Uint64()>>uint(r.Intn(64)))...)
	case 1:
		return wfixed(f, r.Uint64())
	case 2:
		return binary.LittleEndian.AppendUint32(wtag(f, 5), r.Uint32())
	case 3:
		return wbytes(f, randBytes(r, r.Intn(12)))
	case 4:
		return wgroup(f, wbytes(1, []byte("x")), wgroup(2, wfixed(3, 1)))
	default: // a known number with another wire type
		return append(wtag([]int{1, 2, 3, 4, 5, 6, 7}[r.Intn(7)], 0), varint(uint64(r.Intn(1000)))...)
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(3) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = byte('a' + r.Intn(26))
		default:
			b[i] = []byte{0, 11, 12, 17, 25, 33, 43, 44, 50, 58, 255, 128}[r.Intn(12)]
		}
	}
	return b
}

func rand64(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << uint(r.Intn(64))
	case 3:
		return uint64(r.Intn(300))
	default:
		return r.Uint64()
	}
}

func randMsg(r *rand.Rand) wmsg {
	m := wmsg{T: rand64(r), S: rand64(r), P: rand64(r)}
	for i := r.Intn(3); i > 0; i-- {
		m.Anns = append(m.Anns, appdash.Annotation{Key: "k" + string(randBytes(r, r.Intn(5))), Value: randBytes(r, r.Intn(8))})
	}
	return m
}

var (
	goodKinds = []string{"ok", "noparent", "novalue", "noann", "unknown", "order", "dup", "longlen"}
	badKinds  = []string{"notrace", "nospan", "nospanid", "nokey", "empty", "toolong", "hugelen", "overlen", "badtag", "endgroup", "nogroupend", "wrongwire"}
)

func isIn(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// item gives the bytes of one item of a client's stream.
func item(kind string, r *rand.Rand) []byte {
	m := randMsg(r)
	sp := [][]byte{wfixed(2, m.T), wfixed(3, m.S), wfixed(4, m.P)}
	span := func() []byte { return wgroup(1, sp...) }
	switch kind {
	case "ok":
		return framed(cat(span(), wanns(m.Anns)))
	case "noparent":
		return framed(cat(wgroup(1, sp[0], sp[1]), wanns(m.Anns)))
	case "novalue":
		return framed(cat(span(), wgroup(5, wbytes(6, []byte("nv"))), wanns(m.Anns)))
	case "noann":
		return framed(span())
	case "unknown":
		return framed(cat(unknown(r), wgroup(1, sp[0], unknown(r), sp[1], sp[2]), wgroup(5, unknown(r), wbytes(6, []byte("ku")), wbytes(7, []byte("vu"))), unknown(r)))
	case "order":
		return framed(cat(wanns(m.Anns), wgroup(5, wbytes(7, []byte("v")), wbytes(6, []byte("k"))), wgroup(1, sp[2], sp[1], sp[0]), wann(appdash.Annotation{Key: "l", Value: []byte("last")})))
	case "dup":
		return framed(cat(wgroup(1, sp[0], sp[1], sp[2], wfixed(2, m.S)), wgroup(5, wbytes(6, []byte("a")), wbytes(6, []byte("b")), wbytes(7, []byte("1"))), wgroup(1, wfixed(2, r.Uint64()), wfixed(3, r.Uint64()))))
	case "longlen": // the length in more bytes than needed
		b := cat(span(), wanns(m.Anns))
		l := varint(uint64(len(b)))
		l[len(l)-1] |= 128
		return cat(l, []byte{128, 128}[:r.Intn(3)], []byte{0}, b)
	case "fail":
		return framed(cat(span(), wanns([]appdash.Annotation{{Key: "F", Value: []byte("x")}})))
	case "block":
		return framed(cat(span(), wanns([]appdash.Annotation{{Key: "B", Value: []byte("x")}})))
	case "notrace":
		return framed(cat(wgroup(1, sp[1], sp[2]), wanns(m.Anns)))
	case "nospan":
		return framed(cat(wgroup(1, sp[0], sp[2]), wanns(m.Anns)))
	case "nospanid":
		return framed(cat(wanns(m.Anns), wann(appdash.Annotation{Key: "k"})))
	case "nokey":
		return framed(cat(span(), wgroup(5, wbytes(7, []byte("v"))), wanns(m.Anns)))
	case "empty":
		return []byte{0}
	case "toolong":
		return cat(varint(1024*1024+1+uint64(r.Intn(1<<uint(r.Intn(30))))), span())
	case "hugelen":
		return cat(varint(r.Uint64()|1<<uint(40+r.Intn(24))), span())
	case "overlen":
		return cat([]byte{255, 255, 255, 255, 255, 255, 255, 255, 255, byte(2 + r.Intn(250))}, span())
	case "badtag":
		return framed(cat(span(), []byte{byte(8*(1+r.Intn(15)) + 6 + r.Intn(2))}, wanns(m.Anns)))
	case "endgroup":
		return framed(cat(span(), wtag(1+r.Intn(5), 4)))
	case "nogroupend":
		b := span()
		return framed(b[:len(b)-1])
	case "wrongwire":
		return framed(cat(wgroup(1, append(wtag(2, 0), varint(m.T)...), sp[1], sp[2]), wanns(m.Anns)))
	case "cut": // shorter or longer than it says
		b := cat(span(), wanns(m.Anns))
		n := len(b) + []int{-1, 1, -2, 9}[r.Intn(4)]
		return cat(varint(uint64(n)), b)
	case "mut":
		b := item(append(goodKinds, badKinds...)[r.Intn(len(goodKinds)+len(badKinds))], r)
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return b
	case "junk":
		return randBytes(r, r.Intn(60))
	}
	panic("kind " + kind)
}

type srvConn struct {
	K   []string `json:"k"`
	E   string   `json:"e"`
	Big int      `json:"big"` // length of a long first message
}

type srvStim struct {
	C []srvConn `json:"c"`
}

func ints(b []byte) []int {
	if len(b) > 512 {
		h := fnv.New32a()
		h.Write(b)
		s := h.Sum(nil)
		return []int{-1, len(b), int(s[0]), int(s[1]), int(s[2]), int(s[3])}
	}
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func id8(v uint64) []int {
	return ints(binary.LittleEndian.AppendUint64(nil, v))
}

func msgEv(id appdash.SpanID, as []appdash.Annotation) Ev {
	l := []Ev{}
	for _, a := range as {
		l = append(l, Ev{"k": ints([]byte(a.Key)), "v": ints(a.Value)})
	}
	return Ev{"bad": false, "t": id8(uint64(id.Trace)), "s": id8(uint64(id.Span)), "p": id8(uint64(id.Parent)), "anns": l}
}

// foreverListener is a listener whose Accept does not fail when it is closed.
type foreverListener struct {
	net.Listener
	done chan struct{}
	fail func() bool // whether Accept reports that there are too many connections
}

func (l *foreverListener) Accept() (net.Conn, error) {
	if l.fail != nil && l.fail() {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	}
	c, err := l.Listener.Accept()
	if err != nil {
		<-l.done // the server would try again at once, for ever
		select {}
	}
	return c, nil
}

func listenLocal() *foreverListener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return &foreverListener{Listener: l, done: make(chan struct{})}
}

type collectorFunc2 func(appdash.SpanID, []appdash.Annotation) error

func (f collectorFunc2) Collect(id appdash.SpanID, as ...appdash.Annotation) error { return f(id, as) }

// bigMsg gives a message whose encoding has exactly n bytes.
func bigMsg(n int, r *rand.Rand) ([]byte, wmsg) {
	m := wmsg{T: r.Uint64(), S: r.Uint64(), P: rand64(r)}
	span := wgroup(1, wfixed(2, m.T), wfixed(3, m.S), wfixed(4, m.P))
	for pad := n; pad > 0; pad-- {
		m.Anns = []appdash.Annotation{{Key: "big", Value: make([]byte, pad)}}
		if l := len(span) + len(wann(m.Anns[0])); l == n {
			r.Read(m.Anns[0].Value)
			return framed(cat(span, wann(m.Anns[0]))), m
		} else if l > n+16 {
			pad -= l - n - 16
		}
	}
	panic("no such size")
}

func runServer(e *env, name string, st srvStim, r *rand.Rand) {
	defer e.begin(st)()
	rec := newRec(name)
	var mu sync.Mutex
	add := func(ev Ev) {
		mu.Lock()
		rec.add(ev)
		mu.Unlock()
	}
	st.C = append(append([]srvConn{}, st.C...), srvConn{K: []string{"ok"}, E: "keep"})
	nc := len(st.C)
	streams := make([][]byte, nc)
	heads := make([][]byte, nc)
	last := make([]chan struct{}, nc)  // closed when the last message was passed on
	seen := make([]chan struct{}, nc)  // closed when the client saw the end
	ended := make([]chan struct{}, nc) // closed when the client is through
	lastID := map[appdash.SpanID]int{}
	conns := []Ev{}
	for k, c := range st.C {
		last[k], seen[k], ended[k] = make(chan struct{}), make(chan struct{}), make(chan struct{})
		h := []Ev{}
		if c.Big > 0 {
			b, m := bigMsg(c.Big, r)
			heads[k] = b
			h = append(h, Ev{"len": c.Big, "m": msgEv(appdash.SpanID{Trace: appdash.ID(m.T), Span: appdash.ID(m.S), Parent: appdash.ID(m.P)}, m.Anns)})
		}
		for _, kind := range c.K {
			streams[k] = append(streams[k], item(kind, r)...)
		}
		if c.E == "keep" {
			m := wmsg{T: r.Uint64(), S: r.Uint64(), P: 7}
			lastID[appdash.SpanID{Trace: appdash.ID(m.T), Span: appdash.ID(m.S), Parent: 7}] = k
			streams[k] = append(streams[k], framed(cat(wgroup(1, wfixed(2, m.T), wfixed(3, m.S), wfixed(4, 7))))...)
		}
		if c.E == "part" {
			b := item("ok", r)
			streams[k] = append(streams[k], b[:1+r.Intn(len(b)-1)]...)
		}
		if streams[k] == nil {
			streams[k] = []byte{}
		}
		conns = append(conns, Ev{"b": intsAll(streams[k]), "head": h})
	}
	rec.Cfg = Ev{"conns": conns}

	release := make(chan struct{})
	slow := r.Intn(4) == 0
	ln := listenLocal()
	// Clients that open too many connections make Accept fail at times.
	gone, gr := 0, rand.New(rand.NewSource(r.Int63()))
	if r.Intn(3) == 0 {
		gone = 1 + r.Intn(3)
	}
	ln.fail = func() bool {
		mu.Lock()
		defer mu.Unlock()
		if gone > 0 && gr.Intn(2) == 0 {
			gone--
			return true
		}
		return false
	}
	srv := appdash.NewServer(ln, collectorFunc2(func(id appdash.SpanID, as []appdash.Annotation) error {
		add(Ev{"op": "col", "m": msgEv(id, as)})
		mu.Lock()
		if k, ok := lastID[id]; ok {
			close(last[k])
			delete(lastID, id)
		}
		mu.Unlock()
		for _, a := range as {
			if a.Key == "B" {
				<-release
			}
			if a.Key == "F" {
				return errors.New("refused")
			}
		}
		if slow {
			time.Sleep(50 * time.Microsecond)
		}
		return nil
	}))
	srv.Log = log.New(io.Discard, "", 0)
	srv.Debug, srv.Trace = r.Intn(3) == 0, r.Intn(3) == 0
	go srv.Start()

	packets := r.Intn(4)
	var heldConn net.Conn
	client := func(k int, r *rand.Rand) {
		defer close(ended[k])
		c := st.C[k]
		conn, err := net.Dial("tcp", ln.Addr().String())
		if err != nil {
			panic(err)
		}
		held := len(c.K) > 0 && c.K[0] == "block" && k == 0
		if held {
			heldConn = conn
		} else {
			defer conn.Close()
		}
		add(Ev{"op": "open", "k": k + 1})
		wlast := make(chan struct{})
		go func() {
			io.Copy(io.Discard, conn)
			if c.E == "rst" { // we cannot tell what the server does
				<-wlast
				close(seen[k])
				return
			}
			add(Ev{"op": "closed", "k": k + 1})
			close(seen[k])
		}()
		ok := true
		if heads[k] != nil {
			add(Ev{"op": "w", "k": k + 1, "n": -1})
			if _, err := conn.Write(heads[k][:len(heads[k])-1]); err == nil {
				add(Ev{"op": "w", "k": k + 1, "n": 0})
				_, err = conn.Write(heads[k][len(heads[k])-1:])
				ok = err == nil
			} else {
				ok = false
			}
		}
		for b, n := streams[k], 0; ok && n < len(b); {
			p := len(b) - n
			switch packets {
			case 1:
				p = 1
			case 2:
				p = 1 + r.Intn(10)
			case 3:
				p = 1 + r.Intn(60)
			}
			if p > len(b)-n {
				p = len(b) - n
			}
			add(Ev{"op": "w", "k": k + 1, "n": n + p})
			if _, err := conn.Write(b[n : n+p]); err != nil {
				ok = false
			}
			n += p
			if r.Intn(20) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
		allGood, someBad := true, c.Big > 1024*1024
		for _, kind := range c.K {
			allGood = allGood && isIn(kind, goodKinds)
			someBad = someBad || isIn(kind, badKinds) || kind == "fail"
			if kind == "block" || kind == "mut" || kind == "junk" || kind == "cut" {
				allGood = false
				break
			}
		}
		switch {
		case c.E == "keep" && someBad: // it must be closed without our ending it
			select {
			case <-seen[k]:
			case <-last[k]:
			case <-time.After(5 * time.Second):
			}
			add(Ev{"op": "quiet", "k": k + 1})
		case c.E == "keep" && allGood && c.Big <= 1024*1024: // it must all be passed on without our ending it
			select {
			case <-last[k]:
			case <-seen[k]:
			case <-time.After(5 * time.Second):
			}
			add(Ev{"op": "quiet", "k": k + 1})
		}
		if c.E == "rst" {
			add(Ev{"op": "reset", "k": k + 1})
			close(wlast)
			conn.(*net.TCPConn).SetLinger(0)
			conn.Close()
			<-seen[k]
			return
		}
		add(Ev{"op": "shut", "k": k + 1})
		conn.(*net.TCPConn).CloseWrite()
		if held {
			return // waited for below
		}
		select {
		case <-seen[k]:
		case <-time.After(10 * time.Second):
		}
		add(Ev{"op": "quiet", "k": k + 1})
	}
	for k := 0; k < nc-1; k++ {
		go client(k, rand.New(rand.NewSource(r.Int63())))
	}
	for k := 0; k < nc-1; k++ {
		<-ended[k]
	}
	// others must be served whatever happened before, even while one is held up
	go client(nc-1, rand.New(rand.NewSource(r.Int63())))
	<-ended[nc-1]
	close(release)
	if st.C[0].E != "rst" {
		select {
		case <-seen[0]:
		case <-time.After(10 * time.Second):
		}
		add(Ev{"op": "quiet", "k": 1})
	}
	time.Sleep(200 * time.Microsecond)
	if heldConn != nil {
		heldConn.Close()
	}
	ln.Listener.Close()
	mu.Lock()
	defer mu.Unlock()
	e.emit(rec)
}

func intsAll(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

// ---- the same server on connections in virtual time: nothing has to be
// waited for, so a client can be silent for hours and the server must still
// have passed on all it can at any moment.

type halfPipe struct{ r, w net.Conn }

func (p halfPipe) Read(b []byte) (int, error)  { return p.r.Read(b) }
func (p halfPipe) Write(b []byte) (int, error) { return p.w.Write(b) }
func (p halfPipe) Close() error                { p.r.Close(); return p.w.Close() }
func (p halfPipe) CloseWrite() error           { return p.w.Close() }
func (p halfPipe) LocalAddr() net.Addr         { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (p halfPipe) RemoteAddr() net.Addr        { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (p halfPipe) SetDeadline(t time.Time) error {
	p.r.SetDeadline(t)
	return p.w.SetDeadline(t)
}
func (p halfPipe) SetReadDeadline(t time.Time) error  { return p.r.SetReadDeadline(t) }
func (p halfPipe) SetWriteDeadline(t time.Time) error { return p.w.SetWriteDeadline(t) }

type virtListener struct {
	c    chan net.Conn
	done chan struct{}
}

func (l *virtListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.done:
		runtime.Goexit() // the server has no way to be told
		return nil, nil
	}
}
func (l *virtListener) Close() error   { return nil }
func (l *virtListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

func (l *virtListener) dial() halfPipe {
	r1, w1 := net.Pipe()
	r2, w2 := net.Pipe()
	l.c <- halfPipe{r1, w2}
	return halfPipe{r2, w1}
}

type virtCfg struct {
	Idle, Conns, Heads, Items int
	Seed                      int64
}

func runServerVirtual(e *env, name string, vc virtCfg) {
	defer e.begin(vc)()
	r := rand.New(rand.NewSource(vc.Seed))
	rec := newRec(name)
	var mu sync.Mutex
	add := func(ev Ev) {
		mu.Lock()
		rec.add(ev)
		mu.Unlock()
	}
	type part struct {
		b []byte
		n int // the n of the event
	}
	parts := make([][]part, vc.Conns)
	kinds := [][]string{}
	conns := []Ev{}
	for k := range parts {
		h := []Ev{}
		var hb [][]byte
		for i := 0; i < vc.Heads; i++ {
			m := randMsg(r)
			if i%7 == 3 {
				for j := 20 + r.Intn(400); j > 0; j-- {
					m.Anns = append(m.Anns, appdash.Annotation{Key: fmt.Sprint("k", j), Value: randBytes(r, r.Intn(20))})
				}
			}
			b := cat(wgroup(1, wfixed(2, m.T), wfixed(3, m.S), wfixed(4, m.P)), wanns(m.Anns))
			h = append(h, Ev{"len": len(b), "m": msgEv(appdash.SpanID{Trace: appdash.ID(m.T), Span: appdash.ID(m.S), Parent: appdash.ID(m.P)}, m.Anns)})
			hb = append(hb, framed(b))
		}
		for i, b := range hb {
			parts[k] = append(parts[k], part{b[:len(b)-1], i - vc.Heads}, part{b[len(b)-1:], i + 1 - vc.Heads})
		}
		stream := []byte{}
		ks := []string{}
		for i := 0; i < vc.Items; i++ {
			kind := goodKinds[r.Intn(len(goodKinds))]
			if i == vc.Items-1 && k%2 == 1 || r.Intn(10) == 0 {
				kind = append([]string{"fail", "block", "cut", "mut"}, badKinds...)[r.Intn(4+len(badKinds))]
			}
			ks = append(ks, kind)
			stream = append(stream, item(kind, r)...)
		}
		kinds = append(kinds, ks)
		size := []int{1, 7, 30, 300}[r.Intn(4)]
		for n := 0; n < len(stream); {
			p := min(1+r.Intn(size), len(stream)-n)
			parts[k] = append(parts[k], part{stream[n : n+p], n + p})
			n += p
		}
		conns = append(conns, Ev{"b": intsAll(stream), "head": h})
	}
	rec.Cfg = Ev{"conns": conns}
	e.bubble(func() {
		ln := &virtListener{c: make(chan net.Conn), done: make(chan struct{})}
		held := map[appdash.SpanID]bool{}
		srv := appdash.NewServer(ln, collectorFunc2(func(id appdash.SpanID, as []appdash.Annotation) error {
			add(Ev{"op": "col", "m": msgEv(id, as)})
			for _, a := range as {
				if a.Key == "B" {
					mu.Lock()
					held[id] = true
					mu.Unlock()
					time.Sleep(1000 * time.Hour)
					mu.Lock()
					delete(held, id)
					mu.Unlock()
				}
				if a.Key == "F" {
					return errors.New("refused")
				}
			}
			return nil
		}))
		srv.Log = log.New(io.Discard, "", 0)
		srv.Debug, srv.Trace = r.Intn(3) == 0, r.Intn(3) == 0
		go srv.Start()
		var idle []halfPipe
		for i := 0; i < vc.Idle; i++ {
			idle = append(idle, ln.dial())
		}
		cl := make([]halfPipe, vc.Conns)
		sends := make([]chan part, vc.Conns)
		for k := range cl {
			add(Ev{"op": "open", "k": k + 1})
			cl[k] = ln.dial()
			sends[k] = make(chan part, 100000)
			go func() {
				io.Copy(io.Discard, cl[k])
				add(Ev{"op": "closed", "k": k + 1})
			}()
			go func() {
				ok := true
				for p := range sends[k] {
					if ok {
						add(Ev{"op": "w", "k": k + 1, "n": p.n})
						_, err := cl[k].Write(p.b)
						ok = err == nil
					}
				}
				if ok {
					add(Ev{"op": "shut", "k": k + 1})
				}
				cl[k].CloseWrite()
			}()
		}
		// what is pending on a connection that is held up is not looked at
		quiet := func(k int) {
			synctest.Wait()
			mu.Lock()
			n := len(held)
			mu.Unlock()
			if n == 0 {
				add(Ev{"op": "quiet", "k": k + 1})
			}
		}
		next := make([]int, vc.Conns)
		left := vc.Conns
		for left > 0 {
			k := r.Intn(vc.Conns)
			if next[k] > len(parts[k]) {
				continue
			}
			switch r.Intn(12) {
			case 0:
				time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
			case 1:
				time.Sleep(time.Duration(r.Intn(5000)) * time.Second)
			case 2:
				time.Sleep(time.Duration(r.Intn(50)) * time.Hour)
			}
			for j := 1 + r.Intn(len(parts[k])/6+1); j > 0 && next[k] < len(parts[k]); j-- {
				sends[k] <- parts[k][next[k]]
				next[k]++
			}
			quiet(k)
			if next[k] == len(parts[k]) {
				if r.Intn(2) == 0 {
					time.Sleep(30 * time.Hour)
					quiet(k)
				}
				next[k]++
				left--
				close(sends[k])
				quiet(k)
			}
		}
		time.Sleep(100000 * time.Hour)
		synctest.Wait()
		for k := range cl {
			add(Ev{"op": "quiet", "k": k + 1})
		}
		mu.Lock()
		n := len(rec.Ev)
		mu.Unlock()
		for _, c := range append(idle, cl...) {
			c.Close()
		}
		close(ln.done)
		synctest.Wait()
		mu.Lock()
		rec.Ev = rec.Ev[:n]
		mu.Unlock()
	})
	e.emit(rec)
}

func driveServer(e *env) {
	par := make(chan struct{}, 16)
	var wg sync.WaitGroup
	run := func(name string, st srvStim, seed int64) {
		par <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-par; wg.Done() }()
			runServer(e, name, st, rand.New(rand.NewSource(seed)))
		}()
	}
	r := e.rng("server")
	for i, s := range e.stim {
		var st srvStim
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		run(fmt.Sprintf("gen-%d", i), st, r.Int63())
	}
	all := append(append([]string{"mut", "mut", "mut", "junk", "cut", "fail", "block"}, goodKinds...), badKinds...)
	for i := 0; i < e.n; i++ {
		st := srvStim{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			c := srvConn{E: []string{"keep", "eof", "part", "rst"}[r.Intn(4)], K: []string{}}
			for j := r.Intn(5); j > 0; j-- {
				l := goodKinds
				if r.Intn(3) == 0 {
					l = all
				}
				kind := l[r.Intn(len(l))]
				if kind == "block" && (len(st.C) > 0 || j > 1 || c.E == "rst") {
					kind = "ok"
				}
				if kind == "block" {
					c.K = []string{"block"}
					c.E = "eof"
					break
				}
				c.K = append(c.K, kind)
			}
			if r.Intn(40) == 0 {
				c.Big = 1024*1024 + []int{-1000, -1, 0, 1, 2, 5000}[r.Intn(6)]
			}
			st.C = append(st.C, c)
		}
		run(fmt.Sprintf("rand-%d", i), st, r.Int63())
	}
	wg.Wait()
	for i := 0; i < 6+e.n/8; i++ {
		vc := virtCfg{Idle: r.Intn(3), Conns: 1 + r.Intn(4), Items: r.Intn(6), Heads: r.Intn(3), Seed: r.Int63()}
		switch i {
		case 0:
			vc = virtCfg{Idle: 1500, Conns: 3, Items: 4, Seed: r.Int63()}
		case 1:
			vc = virtCfg{Conns: 2, Items: 2, Heads: 300, Seed: r.Int63()}
		case 2:
			vc = virtCfg{Conns: 150, Items: 2, Heads: 1, Seed: r.Int63()}
		}
		runServerVirtual(e, "virtual", vc)
	}
}
