package drive

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	drivers["deliver"] = driveDeliver
	drivers["remote"] = driveRemote
}

var tlsServer, tlsClient *tls.Config

func initTLS() {
	if tlsServer != nil {
		return
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, DNSNames: []string{"localhost"},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	pool := x509.NewCertPool()
	pool.AddCert(c)
	tlsServer = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	tlsClient = &tls.Config{RootCAs: pool, ServerName: "localhost"}
}

func newRemote(addr string, useTLS bool, debug bool) *appdash.RemoteCollector {
	var rc *appdash.RemoteCollector
	if useTLS {
		rc = appdash.NewTLSRemoteCollector(addr, tlsClient)
	} else {
		rc = appdash.NewRemoteCollector(addr)
	}
	rc.Log = log.New(io.Discard, "", 0)
	rc.Debug = debug
	return rc
}

func copyAnns(as []appdash.Annotation) []appdash.Annotation {
	out := make([]appdash.Annotation, len(as))
	for i, a := range as {
		out[i] = appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)}
	}
	return out
}

func sameAnns(a, b []appdash.Annotation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || !bytes.Equal(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// ---- C13: collectors and the real server on connections that stay up

func runDeliver(e *env, name string, bulk int, r *rand.Rand) {
	defer e.begin(name)()
	rec := newRec(name)
	var mu sync.Mutex
	add := func(ev Ev) {
		mu.Lock()
		rec.add(ev)
		mu.Unlock()
	}
	useTLS := r.Intn(3) == 0
	slow := r.Intn(3) == 0
	arrived := make(chan struct{}, 1<<16)
	ln := listenLocal()
	var l net.Listener = ln
	if useTLS {
		l = &foreverListener{Listener: tls.NewListener(ln.Listener, tlsServer), done: ln.done}
	}
	srv := appdash.NewServer(l, collectorFunc2(func(id appdash.SpanID, as []appdash.Annotation) error {
		if slow {
			time.Sleep(20 * time.Microsecond)
		}
		add(Ev{"op": "sv", "m": msgEv(id, as)})
		arrived <- struct{}{}
		return nil
	}))
	srv.Log = log.New(io.Discard, "", 0)
	srv.Debug, srv.Trace = r.Intn(4) == 0, r.Intn(4) == 0
	go srv.Start()

	clients, callers, calls := 1+r.Intn(3), 1+r.Intn(4), 1+r.Intn(8)
	large := r.Intn(12) == 0
	switch bulk {
	case 1: // many calls
		clients, callers, calls, large, slow = 2, 2, 300, false, false
	case 2: // many connections
		clients, callers, calls, large = 200, 1, 2, false
	case 3: // many annotations
		clients, callers, calls = 1, 1, 4
	}
	var wg sync.WaitGroup
	num := 0
	var rcs []*appdash.RemoteCollector
	for c := 0; c < clients; c++ {
		rc := newRemote(ln.Addr().String(), useTLS, r.Intn(4) == 0)
		rcs = append(rcs, rc)
		for k := 0; k < callers; k++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				shared := make([]byte, 0, 64)
				for j := 0; j < calls; j++ {
					m := randMsg(r)
					if r.Intn(6) == 0 {
						m.Anns = nil
						for n := r.Intn(30); n > 0; n-- {
							m.Anns = append(m.Anns, appdash.Annotation{Key: string(randBytes(r, r.Intn(3))), Value: randBytes(r, r.Intn(3))})
						}
					}
					if r.Intn(8) == 0 && len(m.Anns) > 0 {
						m.Anns[0].Value = nil
					}
					if large && r.Intn(3) == 0 {
						n := 1024*1024 - []int{0, 0, 1, 2, 1000, 500000, 900000}[r.Intn(7)]
						p := m.P
						_, m = bigMsg(n, r)
						m.P = p
					}
					if bulk == 3 {
						for n := []int{100, 1500, 4000, 9000}[j]; n > 0; n-- {
							m.Anns = append(m.Anns, appdash.Annotation{Key: fmt.Sprint(n), Value: randBytes(r, r.Intn(80))})
						}
					}
					if len(m.Anns) > 0 && len(m.Anns[0].Value) < 60 { // a buffer that is used again
						shared = append(shared[:0], m.Anns[0].Value...)
						m.Anns[0].Value = shared
					}
					id := appdash.SpanID{Trace: appdash.ID(m.T), Span: appdash.ID(m.S), Parent: appdash.ID(m.P)}
					mu.Lock()
					num++
					i := num
					rec.add(Ev{"op": "cc", "c": c, "i": i, "m": msgEv(id, m.Anns)})
					mu.Unlock()
					before := copyAnns(m.Anns)
					err := rc.Collect(id, m.Anns...)
					s := errStr(err)
					if !sameAnns(before, m.Anns) {
						s = "annotations of the caller changed"
					}
					add(Ev{"op": "cr", "i": i, "err": s})
				}
			}()
		}
	}
	wg.Wait()
	deadline := time.After(10 * time.Second)
wait:
	for k := 0; k < num; k++ {
		select {
		case <-arrived:
		case <-deadline:
			break wait
		}
	}
	time.Sleep(300 * time.Microsecond)
	for _, rc := range rcs {
		rc.Close()
	}
	add(Ev{"op": "z"})
	ln.Listener.Close()
	time.Sleep(300 * time.Microsecond)
	mu.Lock() // a message that comes now follows the end
	defer mu.Unlock()
	e.emit(rec)
}

func driveDeliver(e *env) {
	initTLS()
	r := e.rng("deliver")
	par := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := 0; i < e.n; i++ {
		par <- struct{}{}
		wg.Add(1)
		r := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer func() { <-par; wg.Done() }()
			bulk := i
			if i > 40 {
				bulk = i % 150
			}
			runDeliver(e, fmt.Sprintf("deliver-%d", i), bulk, r)
		}()
	}
	wg.Wait()
}

// ---- C14: a listener that breaks connections

type remStim struct {
	Ops   []string `json:"ops"`
	Kills []int    `json:"kills"` // after how many bytes connection k breaks, -1 never
	Conc  int      `json:"conc"`  // concurrent callers
	TLS   bool     `json:"tls"`
	Small int      `json:"small"` // receive buffer is small
}

// faulty is the listening side.
type faulty struct {
	mu     sync.Mutex
	add    func(Ev)
	addr   string
	ln     net.Listener
	conns  []*fconn
	stim   remStim
	probed chan struct{}
	r      *rand.Rand
	wg     sync.WaitGroup
}

type fconn struct {
	k       int
	raw     *net.TCPConn
	data    []byte
	limit   int
	fin     bool
	hs      bool
	killed  bool
	mu      sync.Mutex
	cut     chan struct{} // to break it now
	cutOnce sync.Once
	over    chan struct{} // closed when it is read no more
}

func (f *faulty) listen() {
	lc := net.ListenConfig{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) {
			if f.stim.Small > 0 {
				syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, f.stim.Small)
			}
		})
	}}
	a := f.addr
	if a == "" {
		a = "127.0.0.1:0"
	}
	var ln net.Listener
	var err error
	for try := 0; try < 200; try++ {
		if ln, err = lc.Listen(context.Background(), "tcp", a); err == nil {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	f.addr = ln.Addr().String()
	f.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			if c.RemoteAddr().(*net.TCPAddr).IP.Equal(net.IPv4(127, 0, 0, 2)) {
				c.Close()
				f.probed <- struct{}{}
				continue
			}
			f.mu.Lock()
			x := &fconn{k: len(f.conns) + 1, raw: c.(*net.TCPConn), limit: -1, cut: make(chan struct{}), over: make(chan struct{}), fin: f.r.Intn(2) == 0}
			if x.k <= len(f.stim.Kills) {
				x.limit = f.stim.Kills[x.k-1]
			}
			if f.stim.TLS && x.limit == -2 {
				x.hs = true
			}
			f.conns = append(f.conns, x)
			f.mu.Unlock()
			f.wg.Add(1)
			go f.serve(x)
		}
	}()
}

// sync waits until everything that was connected has been accepted.
func (f *faulty) sync() {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 2)}}
	c, err := d.Dial("tcp", f.addr)
	if err != nil {
		panic(err)
	}
	<-f.probed
	c.Close()
}

func (f *faulty) kill(x *fconn) {
	x.mu.Lock()
	if !x.killed {
		x.killed = true
		f.add(Ev{"op": "kill", "k": x.k})
	}
	x.mu.Unlock()
	if !x.fin {
		x.raw.SetLinger(0)
	}
	x.raw.Close()
}

func (f *faulty) serve(x *fconn) {
	defer f.wg.Done()
	defer close(x.over)
	var rd io.Reader = x.raw
	if x.hs {
		f.kill(x)
		return
	}
	if f.stim.TLS {
		t := tls.Server(x.raw, tlsServer)
		if err := t.Handshake(); err != nil {
			x.raw.Close()
			return
		}
		rd = t
	}
	go func() {
		select {
		case <-x.cut:
			f.kill(x)
		case <-x.over:
		}
	}()
	if x.limit == 0 {
		f.kill(x)
		return
	}
	buf := make([]byte, 64<<10)
	for {
		n := len(buf)
		if x.limit >= 0 && x.limit-len(x.data) < n {
			n = x.limit - len(x.data)
		}
		m, err := rd.Read(buf[:n])
		x.data = append(x.data, buf[:m]...)
		if x.limit >= 0 && len(x.data) >= x.limit {
			f.kill(x)
			return
		}
		if err != nil {
			return
		}
	}
}

// parse takes the bytes of a connection apart: the messages (call numbers,
// -1 for one that is no call's) and what is left over.
func parse(b []byte) (msgs [][]byte, rest []byte) {
	for {
		l, n := binary.Uvarint(b)
		if n <= 0 || uint64(len(b)-n) < l {
			return msgs, b
		}
		msgs = append(msgs, b[:uint64(n)+l])
		b = b[uint64(n)+l:]
	}
}

// callOf decodes a message leniently.
func callOf(b []byte, calls []wmsg) int {
	_, n := binary.Uvarint(b)
	m, ok := decodeMsg(b[n:])
	if !ok {
		return -1
	}
	for i, c := range calls {
		if c.T == m.T && c.S == m.S && c.P == m.P && sameAnns(c.Anns, m.Anns) {
			return i + 1
		}
	}
	return -1
}

// decodeMsg reads the fields that a message may have.
func decodeMsg(b []byte) (m wmsg, ok bool) {
	next := func() (f, w int, v uint64, s []byte, ok bool) {
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return
		}
		b = b[n:]
		f, w = int(t>>3), int(t&7)
		switch w {
		case 1:
			if len(b) < 8 {
				return
			}
			v = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return
			}
			s = b[n : uint64(n)+l]
			b = b[uint64(n)+l:]
		case 3, 4:
		default:
			return
		}
		return f, w, v, s, true
	}
	for len(b) > 0 {
		f, w, _, _, k := next()
		if !k || w != 3 || f != 1 && f != 5 {
			return m, false
		}
		var a appdash.Annotation
		for {
			g, w, v, s, k := next()
			if !k {
				return m, false
			}
			if w == 4 && g == f {
				break
			}
			switch {
			case f == 1 && g == 2 && w == 1:
				m.T = v
			case f == 1 && g == 3 && w == 1:
				m.S = v
			case f == 1 && g == 4 && w == 1:
				m.P = v
			case f == 5 && g == 6 && w == 2:
				a.Key = string(s)
			case f == 5 && g == 7 && w == 2:
				a.Value = s
			default:
				return m, false
			}
		}
		if f == 5 {
			m.Anns = append(m.Anns, a)
		}
	}
	return m, true
}

// kernelBuffers bounds how many bytes the kernel may hold between two ends.
func kernelBuffers(files ...string) int {
	sum := 1 << 20
	for _, f := range files {
		n := 8 << 20
		if b, err := os.ReadFile("/proc/sys/net/ipv4/" + f); err == nil {
			if w := strings.Fields(string(b)); len(w) == 3 {
				if v, err := strconv.Atoi(w[2]); err == nil {
					n = v
				}
			}
		}
		sum += 2 * n
	}
	return sum
}

var buffersSmall, buffersLarge = kernelBuffers("tcp_wmem"), kernelBuffers("tcp_wmem", "tcp_rmem")

func runRemote(e *env, name string, st remStim, r *rand.Rand) {
	defer e.begin(st)()
	rec := newRec(name)
	var mu sync.Mutex
	add := func(ev Ev) {
		mu.Lock()
		rec.add(ev)
		mu.Unlock()
	}
	f := &faulty{add: add, stim: st, probed: make(chan struct{}, 1), r: r}
	f.listen()
	rc := newRemote(f.addr, st.TLS, r.Intn(4) == 0)
	buffers := buffersLarge
	if st.Small > 0 {
		buffers = buffersSmall
	}
	var calls []wmsg
	call := func(big bool) {
		mu.Lock()
		i := len(calls) + 1
		m := wmsg{T: r.Uint64(), S: uint64(i), P: rand64(r), Anns: []appdash.Annotation{{Key: "i", Value: []byte(fmt.Sprint(i))}}}
		if big {
			n := 2<<20 + r.Intn(2<<20)
			if r.Intn(2) == 0 && buffers < 32<<20 {
				n += buffers
			}
			v := make([]byte, n)
			for j := 0; j < len(v); j += 1 + j/8 {
				v[j] = byte(r.Intn(256))
			}
			m.Anns = append(m.Anns, appdash.Annotation{Key: "big", Value: v})
		} else {
			m.Anns = append(m.Anns, randMsg(r).Anns...)
		}
		calls = append(calls, m)
		size := 0
		for _, a := range m.Anns {
			size += len(a.Key) + len(a.Value)
		}
		rec.add(Ev{"op": "cc", "i": i, "size": size})
		mu.Unlock()
		err := rc.Collect(appdash.SpanID{Trace: appdash.ID(m.T), Span: appdash.ID(m.S), Parent: appdash.ID(m.P)}, m.Anns...)
		add(Ev{"op": "cr", "i": i, "err": err != nil})
	}
	isDown := false
	var wg sync.WaitGroup
	for _, o := range st.Ops {
		switch o {
		case "C", "B":
			if st.Conc <= 1 {
				call(o == "B")
				break
			}
			for k := 0; k < st.Conc; k++ {
				wg.Add(1)
				go func() { defer wg.Done(); call(o == "B" && k == 0) }()
			}
			if r.Intn(3) == 0 {
				wg.Wait()
			}
		case "K":
			if !isDown {
				f.sync()
			}
			f.mu.Lock()
			var x *fconn
			if n := len(f.conns); n > 0 {
				x = f.conns[n-1]
			}
			f.mu.Unlock()
			if x != nil {
				x.cutOnce.Do(func() { close(x.cut) })
				if st.Conc <= 1 || r.Intn(2) == 0 {
					<-x.over
				}
			}
		case "T":
			wg.Wait()
			if !isDown {
				f.sync()
				add(Ev{"op": "down"})
				f.ln.Close()
			} else {
				f.listen()
				add(Ev{"op": "up"})
			}
			isDown = !isDown
		case "X":
			wg.Wait()
			add(Ev{"op": "close"})
			rc.Close()
		}
	}
	wg.Wait()
	if !isDown {
		f.sync()
		f.ln.Close()
	}
	rc.Close()
	f.wg.Wait()
	full := map[int][]byte{}
	conns := []Ev{}
	type left struct {
		ev   Ev
		rest []byte
	}
	var lefts []left
	for _, x := range f.conns {
		ms, rest := parse(x.data)
		nums := []int{}
		for _, m := range ms {
			i := callOf(m, calls)
			if i > 0 {
				full[i] = m
			}
			nums = append(nums, i)
		}
		ev := Ev{"msgs": nums, "tail": 0, "tlen": len(rest), "killed": x.killed, "hs": x.hs}
		conns = append(conns, ev)
		if len(rest) > 0 {
			lefts = append(lefts, left{ev, rest})
		}
	}
	for _, l := range lefts {
		t := -1 // unknown
		if len(full) == len(calls) {
			t = -2
		}
		for i := 1; i <= len(calls); i++ {
			if m, ok := full[i]; ok && len(m) > len(l.rest) && bytes.Equal(m[:len(l.rest)], l.rest) {
				t = i
				if len(l.rest) < 12 {
					t = -1 // the beginnings of messages are much alike
				}
				break
			}
		}
		l.ev["tail"] = t
	}
	rec.Cfg = Ev{"conns": conns, "buf": buffers}
	add(Ev{"op": "z"})
	e.emit(rec)
}

func driveRemote(e *env) {
	initTLS()
	par := make(chan struct{}, 8)
	var wg sync.WaitGroup
	run := func(name string, st remStim, seed int64) {
		par <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-par; wg.Done() }()
			runRemote(e, name, st, rand.New(rand.NewSource(seed)))
		}()
	}
	r := e.rng("remote")
	for i, s := range e.stim {
		var st remStim
		if err := json.Unmarshal(s, &st); err != nil {
			panic(err)
		}
		st.Small = []int{0, 2304, 16384}[r.Intn(3)]
		run(fmt.Sprintf("gen-%d", i), st, r.Int63())
	}
	for i := 0; i < e.n; i++ {
		st := remStim{TLS: r.Intn(3) == 0, Conc: []int{1, 1, 2, 3}[r.Intn(4)], Small: []int{0, 2304, 16384}[r.Intn(3)]}
		for k := r.Intn(4); k > 0; k-- {
			x := -1
			switch r.Intn(6) {
			case 0:
				x = r.Intn(4)
			case 1:
				x = r.Intn(200)
			case 2:
				x = r.Intn(4 << 20)
			case 3:
				x = -2
			}
			if x == -2 && !st.TLS {
				x = -1
			}
			st.Kills = append(st.Kills, x)
		}
		for k := 1 + r.Intn(8); k > 0; k-- {
			st.Ops = append(st.Ops, []string{"C", "C", "C", "C", "C", "K", "K", "T", "X", "B"}[r.Intn(10)])
		}
		if i < 2 { // many calls
			st.Ops, st.Kills = nil, []int{-1, 3000}
			for k := 0; k < 160; k++ {
				st.Ops = append(st.Ops, "C")
				if r.Intn(60) == 0 {
					st.Ops = append(st.Ops, "K")
				}
			}
		}
		run(fmt.Sprintf("rand-%d", i), st, r.Int63())
	}
	wg.Wait()
}
