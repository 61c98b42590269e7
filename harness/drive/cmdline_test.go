package drive

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() { drivers["cmdline"] = driveCmdLine }

// sampleOp is a span of a sample trace; times are in ms from the trace's start.
type sampleOp struct {
	S     int64 `json:"s"`
	E     int64 `json:"e"`
	Depth int   `json:"d"`
	Kids  int   `json:"k"`
	Name  int   `json:"n"` // how many names and timespans it has
	Time  int   `json:"t"`
}

// samples reads the traces that are shown, by trace ID.
func samples(p *appProc) (map[string][]sampleOp, error) {
	st, text, err := p.get("/traces", nil)
	if err != nil || st != 200 {
		return nil, fmt.Errorf("status %d, %v", st, err)
	}
	out := map[string][]sampleOp{}
	for _, m := range reText.FindAllStringSubmatch(text, -1) {
		var j *jtree
		if err := json.Unmarshal([]byte(html.UnescapeString(m[1])), &j); err != nil {
			return nil, err
		}
		var ops []sampleOp
		var t0 time.Time
		var walk func(j *jtree, d int)
		walk = func(j *jtree, d int) {
			o := sampleOp{Depth: d, Kids: len(j.Sub)}
			var at [2]time.Time
			for _, a := range j.Annotations {
				switch a.Key {
				case "Name":
					o.Name++
				case "_schema:SQL":
					o.Time++
				case "ClientSend":
					at[0], _ = time.Parse(time.RFC3339Nano, string(a.Value))
				case "ClientRecv":
					at[1], _ = time.Parse(time.RFC3339Nano, string(a.Value))
				}
			}
			if d == 0 {
				t0 = at[0]
			}
			ms := func(t time.Time) int64 {
				d := t.Sub(t0)
				if d < 0 || d > time.Hour || d%time.Millisecond != 0 {
					return -1
				}
				return int64(d / time.Millisecond)
			}
			o.S, o.E = ms(at[0]), ms(at[1])
			ops = append(ops, o)
			for _, s := range j.Sub {
				walk(s, d+1)
			}
		}
		walk(j, 0)
		id := string(j.ID.Trace)
		if _, dup := out[id]; dup {
			id = "again " + id
		}
		out[id] = ops
	}
	return out, nil
}

func runSend(dir string, cert bool, args ...string) int {
	cmd := exec.Command(os.Getenv("DRV_APPDASH"), append([]string{"send"}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	if cert {
		cmd.Env = append(cmd.Env, "SSL_CERT_FILE="+filepath.Join(dir, "cert.pem"))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	cmd.Wait()
	return cmd.ProcessState.ExitCode()
}

type cmdRun struct {
	rec *Rec
	p   *appProc
	had map[string]bool
}

// fresh returns the traces that were not shown before, when there are n of
// them or no more come.
func (x *cmdRun) fresh(n int) (out [][]sampleOp, kept bool) {
	end := time.Now().Add(10 * time.Second)
	last, since := -1, time.Now()
	for {
		all, err := samples(x.p)
		if err != nil {
			x.rec.add(Ev{"op": "X", "msg": err.Error()})
			return [][]sampleOp{}, false
		}
		out, kept = [][]sampleOp{}, true
		spans := 0
		for id, ops := range all {
			if !x.had[id] {
				out = append(out, ops)
				spans += len(ops)
			}
		}
		for id := range x.had {
			kept = kept && all[id] != nil
		}
		if spans != last {
			last, since = spans, time.Now()
		}
		// those that come to their end seem to be complete
		ok := len(out) == n
		for _, ops := range out {
			ok = ok && ops[len(ops)-1].E == ops[0].E && len(ops) > 3
		}
		quiet := time.Since(since)
		if n == 0 && quiet > 30*time.Millisecond || ok && quiet > 150*time.Millisecond || time.Now().After(end) {
			for id := range all {
				x.had[id] = true
			}
			return out, kept
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func driveCmdLine(e *env) {
	r := e.rng("cmdline")
	mkdir := func(name string) string {
		dir := filepath.Join(e.dir, name)
		if err := os.Mkdir(dir, 0o700); err != nil {
			e.t.Fatal(err)
		}
		if err := writeCert(dir); err != nil {
			e.t.Fatal(err)
		}
		return dir
	}
	// The sends of a stimulus, to a server with or without TLS.
	for i, s := range e.stim {
		var st struct {
			TLS    bool `json:"tls"`
			Sample bool
			Kinds  []string
		}
		if err := json.Unmarshal(s, &st); err != nil {
			e.t.Fatal(err)
		}
		done := e.begin(st)
		dir := mkdir(fmt.Sprintf("send%d", i))
		rec := newRec(fmt.Sprintf("send%d", i))
		rec.Cfg = Ev{"tls": st.TLS}
		args := []string{"--store-file="}
		switch r.Intn(3) {
		case 0:
			args = append(args, "--delete-after=0")
		case 1:
			args = append(args, "--delete-after=1h")
		}
		if st.Sample {
			args = append(args, "--sample-data")
		}
		x := &cmdRun{rec: rec, had: map[string]bool{}}
		if x.p = startApp(dir, st.TLS, args...); x.p == nil {
			rec.add(Ev{"op": "X", "msg": "the server did not start"})
		} else {
			if st.Sample {
				v, kept := x.fresh(60)
				rec.add(Ev{"op": "send", "kind": "sample", "k": 1, "rc": []int{}, "v": v, "kept": kept})
			}
			for _, kind := range st.Kinds {
				k := 1
				var a []string
				cert := false
				switch kind {
				case "tcp":
					a = []string{"-c", x.p.coll}
				case "many":
					k = 2 + r.Intn(3)
					if a = []string{"--collector=" + x.p.coll}; st.TLS {
						a, cert = append(a, "-p", "tls", "-s", "127.0.0.1"), true
					}
				case "tls":
					a, cert = []string{"-c", x.p.coll, "--proto=tls", "--server-name=127.0.0.1"}, true
				case "untrusted":
					a = []string{"-c", x.p.coll, "-p", "tls", "-s", "127.0.0.1"}
				case "name":
					a, cert = []string{"-c", x.p.coll, "-p", "tls", "-s", "example.com"}, true
				case "proto":
					a = []string{"-c", x.p.coll, "-p", pick(r, "udp", "TCP", "")}
				case "refused":
					a = []string{"-c", freeAddr()}
				}
				if r.Intn(4) == 0 {
					a = append(a, "-d")
				}
				rc := make([]int, k)
				var wg sync.WaitGroup
				for j := range rc {
					wg.Add(1)
					go func(j int) { defer wg.Done(); rc[j] = runSend(dir, cert, a...) }(j)
				}
				wg.Wait()
				n := 0
				if kind == "many" || kind == "tls" && st.TLS || kind == "tcp" && !st.TLS {
					n = 60 * k
				}
				v, kept := x.fresh(n)
				rec.add(Ev{"op": "send", "kind": kind, "k": k, "rc": rc, "v": v, "kept": kept})
			}
			x.p.kill(syscall.SIGKILL)
		}
		os.RemoveAll(dir)
		e.emit(rec)
		done()
	}
	for i := 0; i < e.n; i++ {
		d := []int{0, 700, 1500}[i%3]
		done := e.begin(Ev{"age": i})
		dir := mkdir(fmt.Sprintf("age%d", i))
		rec := newRec(fmt.Sprintf("age%d", i))
		rec.Cfg = Ev{"tls": false}
		e.ages(rec, dir, d, r.Intn(2) == 0, time.Duration(r.Intn(d/3+300))*time.Millisecond)
		os.RemoveAll(dir)
		e.emit(rec)
		done()
	}
}

// ages: traces 1 (perhaps read from the store file) and 2 come, and after more
// than twice the time that they are kept trace 3.
func (e *env) ages(rec *Rec, dir string, d int, file bool, wait time.Duration) {
	args := []string{fmt.Sprintf("--delete-after=%dms", d), "--store-file="}
	id := func(t int) appdash.SpanID { return appdash.SpanID{Trace: appdash.ID(t), Span: appdash.ID(t + 10)} }
	var born [4][2]time.Time
	if file {
		ms := appdash.NewMemoryStore()
		ms.Collect(id(1), numAnn(1))
		ms.Collect(appdash.SpanID{Trace: 1, Span: 5, Parent: 11}, numAnn(2))
		var b bytes.Buffer
		if err := ms.Write(&b); err != nil {
			e.t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "store"), b.Bytes(), 0o600); err != nil {
			e.t.Fatal(err)
		}
		args[1] = "--store-file=store"
	}
	born[1][0] = time.Now()
	p := startApp(dir, false, args...)
	if p == nil {
		rec.add(Ev{"op": "X", "msg": "the server did not start"})
		return
	}
	born[1][1] = time.Now()
	defer p.kill(syscall.SIGKILL)
	has := func() (h [4]bool, at [2]time.Time) {
		at[0] = time.Now()
		for t := 1; t <= 3; t++ {
			st, _, err := p.get("/traces/"+id(t).Trace.String(), nil)
			if err != nil {
				rec.add(Ev{"op": "X", "msg": err.Error()})
			}
			h[t] = st == 200
		}
		at[1] = time.Now()
		return
	}
	rc := appdash.NewRemoteCollector(p.coll)
	send := func(t int) {
		born[t][0] = time.Now()
		if err := rc.Collect(id(t), numAnn(t)); err != nil {
			rec.add(Ev{"op": "X", "msg": err.Error()})
		}
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			if h, _ := has(); h[t] {
				break
			}
		}
		born[t][1] = time.Now()
	}
	look := func(last int) {
		h, at := has()
		for t := 1; t <= last; t++ {
			// the least and the greatest age it may have, at the last
			// collection and now
			age := func(a, b time.Time) int { return max(0, int(a.Sub(b)/time.Millisecond)) }
			gap := 0
			if last == 3 {
				gap = age(born[3][0], born[2][1])
			}
			rec.add(Ev{"op": "age", "d": d, "t": t, "then": age(born[last][0], born[t][1]), "now": age(at[1], born[t][0]), "gap": gap, "there": h[t]})
		}
	}
	if !file {
		send(1)
	}
	time.Sleep(wait)
	send(2)
	look(2)
	time.Sleep(time.Duration(2*d+200) * time.Millisecond)
	send(3)
	for end := time.Now().Add(5 * time.Second); d > 0 && time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if h, _ := has(); !h[1] && !h[2] {
			break
		}
	}
	look(3)
}
