package drive

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// appProc is a running appdash command.
type appProc struct {
	cmd        *exec.Cmd
	http, coll string // addresses
	tls        bool
	log        *lockedBuf
	exited     chan bool
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<20 {
		return len(p), nil
	}
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var nextPort = 0

// freeAddr returns an address to listen on.  Its port is below those that
// connections get (a connection to a free port of those may meet itself), and
// not one that a driver running at the same time takes.
func freeAddr() string {
	for {
		nextPort++
		a := "127.0.0.1:" + strconv.Itoa(10000+envInt("VERIF_SEED", 1)%64*340+nextPort%340)
		l, err := net.Listen("tcp", a)
		if err != nil {
			continue
		}
		l.Close()
		return a
	}
}

// startApp runs "appdash serve"; nil if it ends instead of serving.
func startApp(dir string, useTLS bool, args ...string) *appProc {
	for try := 0; ; try++ {
		p := &appProc{http: freeAddr(), coll: freeAddr(), tls: useTLS, log: &lockedBuf{}, exited: make(chan bool)}
		a := append([]string{"serve", "--url", "http://appdash.test/", "--http", p.http, "--collector", p.coll}, args...)
		if useTLS {
			a = append(a, "--tls-cert", filepath.Join(dir, "cert.pem"), "--tls-key", filepath.Join(dir, "key.pem"))
		}
		p.cmd = exec.Command(os.Getenv("DRV_APPDASH"), a...)
		p.cmd.Dir = dir
		p.cmd.Env = append(os.Environ(), "TMPDIR="+dir)
		p.cmd.Stdout, p.cmd.Stderr = p.log, p.log
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := p.cmd.Start(); err != nil {
			panic(err)
		}
		go func() { p.cmd.Wait(); close(p.exited) }()
		if p.wait() {
			return p
		}
		if (strings.Contains(p.log.String(), "address already in use") || strings.Contains(p.log.String(), "bind:")) && try < 20 {
			continue
		}
		return nil
	}
}

// wait waits until the server answers on both ports, or has ended.
func (p *appProc) wait() bool {
	end := time.Now().Add(40 * time.Second)
	for _, a := range []string{p.coll, p.http} {
		for {
			c, err := net.Dial("tcp", a)
			if err == nil {
				c.Close()
				break
			}
			select {
			case <-p.exited:
				return false
			case <-time.After(2 * time.Millisecond):
			}
			if time.Now().After(end) {
				// neither serving nor ended
				p.kill(syscall.SIGKILL)
				return false
			}
		}
	}
	// the ports may be another process's
	select {
	case <-p.exited:
		return false
	case <-time.After(3 * time.Millisecond):
	}
	return true
}

func (p *appProc) kill(sig syscall.Signal) {
	p.cmd.Process.Signal(sig)
	select {
	case <-p.exited:
	case <-time.After(10 * time.Second):
		p.cmd.Process.Kill()
		<-p.exited
	}
}

func (p *appProc) dial() (net.Conn, error) {
	if p.tls {
		return tls.Dial("tcp", p.http, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}})
	}
	return net.Dial("tcp", p.http)
}

// get fetches a page.
func (p *appProc) get(path string, hdr http.Header) (int, string, error) {
	sch := "http://"
	if p.tls {
		sch = "https://"
	}
	req, err := http.NewRequest("GET", sch+p.http+path, nil)
	if err != nil {
		return 0, "", err
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	tr := &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}
	resp, err := (&http.Client{Transport: tr, Timeout: 20 * time.Second}).Do(req)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

// writeCert puts a key and a certificate for it into dir.
func writeCert(dir string) error {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Unix(0, 0),
		NotAfter: time.Unix(1<<33, 0), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		return err
	}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "cert.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "key.pem"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600)
}

func tlsAny() *tls.Config { return &tls.Config{InsecureSkipVerify: true} }
