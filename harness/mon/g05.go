package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zenazn/goji/graceful"
)

func init() {
	rule := "servers started for TLS with random configurations, or none, next to a reference crypto/tls listener with an identical configuration; every client connects to both, and handshake results, connection states and invoked callbacks are compared; the caller's configuration is compared with a snapshot; then the servers are shut down with requests in progress. Trials are distinguished by configuration and outcomes."
	for ph, n := range map[string][2]int{"main": {500, 12000}, "pert": {200, 6000}, "race": {150, 5000}} {
		n := n
		props["G05/"+ph] = prop{rule, func(m *M) { m.trials("tls", m.N(n[0], n[1]), nil) }}
	}
	gtrials["G05/tls"] = g05
}

type ca struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

func newCA(name string) *ca {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return &ca{c, key}
}

func (c *ca) issue(name string, from, to time.Time) tls.Certificate {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, NotBefore: from, NotAfter: to,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, KeyUsage: x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(crand.Reader, tpl, c.cert, &key.PublicKey, c.key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

func (c *ca) pool() *x509.CertPool { p := x509.NewCertPool(); p.AddCert(c.cert); return p }

func writePair(dir string, c tls.Certificate) (cert, key string) {
	cert, key = filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
	der, err := x509.MarshalECPrivateKey(c.PrivateKey.(*ecdsa.PrivateKey))
	if err == nil {
		err = os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Certificate[0]}), 0o600)
	}
	if err == nil {
		err = os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}), 0o600)
	}
	if err != nil {
		panic(err)
	}
	return
}

// rec records which of a configuration's callbacks ran.
type rec struct {
	mu sync.Mutex
	ev map[string]bool
}

func (r *rec) add(format string, a ...any) {
	r.mu.Lock()
	r.ev[fmt.Sprintf(format, a...)] = true
	r.mu.Unlock()
}
func (r *rec) take() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var l []string
	for k := range r.ev {
		l = append(l, k)
	}
	sort.Strings(l)
	r.ev = map[string]bool{}
	return strings.Join(l, " ")
}

type recWriter struct{ r *rec }

func (w recWriter) Write(b []byte) (int, error) {
	w.r.add("keylog:%s", strings.Fields(string(b))[0])
	return len(b), nil
}

type tlsWorld struct {
	srvCA, cliCA, foreign *ca
	srv, other            tls.Certificate
	clients               map[string]tls.Certificate
}

func newTLSWorld() *tlsWorld {
	w := &tlsWorld{srvCA: newCA("server CA"), cliCA: newCA("client CA"), foreign: newCA("foreign CA")}
	now := time.Now()
	ago, later := now.Add(-time.Hour), now.Add(100*time.Hour)
	w.srv, w.other = w.srvCA.issue("srv.test", ago, later), w.srvCA.issue("other.test", ago, later)
	w.clients = map[string]tls.Certificate{
		"good": w.cliCA.issue("good", ago, later), "foreign": w.foreign.issue("foreign", ago, later),
		"expired": w.cliCA.issue("expired", now.Add(-50*time.Hour), now.Add(-40*time.Hour)),
	}
	return w
}

// config makes a configuration from a seed; its callbacks report to rc.
func (w *tlsWorld) config(seed uint64, rc *rec) (*tls.Config, string) {
	r := rand.New(rand.NewPCG(seed, 5))
	c := &tls.Config{}
	d := ""
	on := func(p float64, what string) bool {
		if chance(r, p) {
			d += what + " "
			return true
		}
		return false
	}
	if on(0.5, "clientauth") {
		c.ClientAuth = tls.ClientAuthType(r.IntN(5))
		d += c.ClientAuth.String() + " "
		if c.ClientAuth >= tls.VerifyClientCertIfGiven || r.IntN(2) == 0 {
			c.ClientCAs = w.cliCA.pool()
		}
	}
	if on(0.25, "verifypeer") {
		bad := r.IntN(3) == 0
		c.VerifyPeerCertificate = func(raw [][]byte, ch [][]*x509.Certificate) error {
			rc.add("verifypeer:%d/%d", len(raw), len(ch))
			if bad {
				return errors.New("refused by VerifyPeerCertificate")
			}
			return nil
		}
	}
	if on(0.25, "verifyconn") {
		bad := r.IntN(3) == 0
		c.VerifyConnection = func(s tls.ConnectionState) error {
			rc.add("verifyconn:%s/%d", s.ServerName, len(s.PeerCertificates))
			if bad {
				return errors.New("refused by VerifyConnection")
			}
			return nil
		}
	}
	if on(0.25, "getcert") {
		c.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			rc.add("getcert:%s", h.ServerName)
			if h.ServerName == "other.test" {
				return &w.other, nil
			}
			return nil, nil
		}
	}
	if on(0.2, "getconfig") {
		kind := r.IntN(3)
		c.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
			rc.add("getconfig:%s", h.ServerName)
			switch {
			case kind == 0:
				return nil, nil
			case kind == 1 && h.ServerName == "other.test":
				return nil, errors.New("refused by GetConfigForClient")
			}
			return &tls.Config{Certificates: []tls.Certificate{w.other}, MaxVersion: tls.VersionTLS12}, nil
		}
	}
	vers := []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}
	if on(0.3, "min") {
		c.MinVersion = pick(r, vers)
	}
	if on(0.3, "max") {
		c.MaxVersion = pick(r, vers[1:])
	}
	if on(0.2, "suites") {
		c.CipherSuites = [][]uint16{
			{tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256}, {tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256},
			{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA}, {tls.TLS_RSA_WITH_AES_128_CBC_SHA},
		}[r.IntN(4)]
	}
	if on(0.2, "curves") {
		c.CurvePreferences = [][]tls.CurveID{{tls.CurveP384}, {tls.X25519}, {tls.CurveP256, tls.X25519}}[r.IntN(3)]
	}
	if on(0.35, "protos") {
		c.NextProtos = [][]string{{"http/1.1"}, {"http/1.0"}, {"http/1.0", "http/1.1"}, {}}[r.IntN(4)]
	}
	if on(0.2, "notickets") {
		c.SessionTicketsDisabled = true
	}
	if on(0.15, "ticketkeys") {
		c.SetSessionTicketKeys([][32]byte{{1, 2, 3}, {4, 5, 6}})
	}
	if on(0.1, "wrap") {
		c.WrapSession = func(cs tls.ConnectionState, ss *tls.SessionState) ([]byte, error) {
			rc.add("wrap")
			return ss.Bytes()
		}
		c.UnwrapSession = func(id []byte, cs tls.ConnectionState) (*tls.SessionState, error) {
			rc.add("unwrap")
			return tls.ParseSessionState(id)
		}
	}
	if on(0.2, "keylog") {
		c.KeyLogWriter = recWriter{rc}
	}
	if on(0.2, "time") {
		past := r.IntN(2) == 0
		c.Time = func() time.Time {
			rc.add("time")
			if past {
				return time.Now().Add(-45 * time.Hour)
			}
			return time.Now()
		}
	}
	if on(0.2, "certs") {
		c.Certificates = []tls.Certificate{w.other}
	}
	if on(0.05, "dynamic") {
		c.DynamicRecordSizingDisabled = true
	}
	return c, strings.TrimSpace(d)
}

// exported lists a configuration's exported fields.
func exported(c *tls.Config) string {
	v := reflect.ValueOf(c).Elem()
	s := ""
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Func, reflect.Pointer:
			s += fmt.Sprintf("%s=%x ", f.Name, x.Pointer())
		case reflect.Slice:
			s += fmt.Sprintf("%s=nil:%v:%v ", f.Name, x.IsNil(), x.Len())
			if x.Type().Elem().Kind() != reflect.Struct {
				s += fmt.Sprint(x.Interface(), " ")
			}
		default:
			s += fmt.Sprintf("%s=%v ", f.Name, x.Interface())
		}
	}
	return s
}

type tlsClient struct {
	cfg  *tls.Config
	desc string
}

func (w *tlsWorld) client(r *rand.Rand) *tlsClient {
	vers := []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}
	a, b := r.IntN(4), r.IntN(4)
	if chance(r, 0.6) {
		a, b = 0, 3
	}
	c := &tls.Config{MinVersion: vers[min(a, b)], MaxVersion: vers[max(a, b)], RootCAs: w.srvCA.pool(), InsecureSkipVerify: true}
	c.ServerName = pick(r, []string{"srv.test", "srv.test", "other.test", ""})
	cert := pick(r, []string{"none", "good", "good", "foreign", "expired"})
	if cc, ok := w.clients[cert]; ok {
		// Sent whatever authorities the server asks for.
		c.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cc, nil }
	}
	c.NextProtos = [][]string{nil, {"http/1.1"}, {"http/1.0", "http/1.1"}, {"bar"}}[r.IntN(4)]
	if chance(r, 0.2) {
		c.CurvePreferences = [][]tls.CurveID{{tls.CurveP256}, {tls.X25519}, {tls.CurveP384}}[r.IntN(3)]
	}
	if chance(r, 0.2) {
		c.CipherSuites = [][]uint16{{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA}, {tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256}}[r.IntN(2)]
	}
	return &tlsClient{c, fmt.Sprintf("%x-%x %q cert %s protos %q", c.MinVersion, c.MaxVersion, c.ServerName, cert, c.NextProtos)}
}

// connect performs a handshake and a request, and describes what came of it.
func (g *gt) connect(addr string, cfg *tls.Config, token string) (string, tls.ConnectionState) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		g.incon("dial: %v", err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(40 * time.Second))
	tc := tls.Client(c, cfg)
	if err := tc.Handshake(); err != nil {
		return "handshake: " + tlsErr(err), tls.ConnectionState{}
	}
	st := tc.ConnectionState()
	s := fmt.Sprintf("version %x, suite %s, proto %q, resumed %v, curve %v, certificate %s", st.Version, tls.CipherSuiteName(st.CipherSuite), st.NegotiatedProtocol, st.DidResume, reflect.ValueOf(st).FieldByName("CurveID"), st.PeerCertificates[0].Subject.CommonName)
	io.WriteString(tc, reqText("GET", token))
	resp, err := http.ReadResponse(bufio.NewReader(tc), nil)
	if err != nil {
		return s + "; request: " + tlsErr(err), st
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return s + "; body: " + tlsErr(err), st
	}
	tc.Close()
	return s + fmt.Sprintf("; answered %d %q", resp.StatusCode, b), st
}

// tlsErr keeps what says why the server refused. How it then hangs up is up to TCP.
func tlsErr(err error) string {
	s := err.Error()
	if i := strings.Index(s, "remote error: tls: "); i >= 0 {
		return s[i:]
	}
	if strings.HasPrefix(s, "tls: ") {
		return s
	}
	return "connection lost"
}

// g05http2 asks for HTTP/2 in the TLS configuration. Clients that cannot do it
// are served as ever; those that can negotiate it and must then get it.
func g05http2(g *gt, w *tlsWorld, addr, certFile, keyFile string) {
	var ended atomic.Bool
	var err error
	s := &graceful.Server{Addr: addr, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, "answer to "+r.URL.Path)
	}), TLSConfig: &tls.Config{NextProtos: []string{"h2", "http/1.1"}}, ErrorLog: log.New(io.Discard, "", 0)}
	go func() { err = s.ListenAndServeTLS(certFile, keyFile); ended.Store(true) }()
	g.until("a server does not come up", func() bool {
		if ended.Load() {
			if strings.Contains(fmt.Sprint(err), "in use") {
				g.incon("%v", err)
			}
			g.fail("ListenAndServeTLS returns %v", err)
			g.finish()
		}
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
		}
		return err == nil
	})
	for _, two := range []bool{false, true} {
		tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, ForceAttemptHTTP2: two, DisableKeepAlives: true}
		if !two {
			tr.TLSNextProto = map[string]func(string, *tls.Conn) http.RoundTripper{}
		}
		got := ""
		resp, err := (&http.Client{Transport: tr, Timeout: 40 * time.Second}).Get("https://" + addr + "/h2")
		if err != nil {
			got = "error " + err.Error()
		} else {
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			got = fmt.Sprint(resp.StatusCode, " ", string(b), " ", err)
		}
		tr.CloseIdleConnections()
		if got == "200 answer to /h2 <nil>" {
			continue
		}
		known := false
		for _, x := range []string{"looked like an HTTP/1.1 header", "reset by peer", "broken pipe", "EOF", "http2: "} {
			known = known || two && strings.Contains(got, x)
		}
		if known {
			g.mu.Lock()
			g.res.Known["h2-over-tls"] = got
			g.mu.Unlock()
			continue
		}
		g.fail("a server whose NextProtos are h2 and http/1.1 answers a client that can do HTTP/2 (%v) with %s", two, got)
	}
}

func g05(g *gt) {
	r := g.r
	w := newTLSWorld()
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "g05-")
	if err != nil {
		g.incon("%v", err)
	}
	defer os.RemoveAll(dir)
	certFile, keyFile := writePair(dir, w.srv)
	ip := ownIP()
	var nilTLS, withTLS atomic.Int64
	var lastTLS atomic.Pointer[tls.ConnectionState]
	inner := g.handler()
	handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasPrefix(r.URL.Path, "/plain") {
			if r.TLS == nil {
				nilTLS.Add(1)
			} else {
				withTLS.Add(1)
			}
			lastTLS.Store(r.TLS)
			io.WriteString(w, "answer to "+r.URL.Path)
			return
		}
		inner.ServeHTTP(w, r)
	})
	port := func() string {
		l, err := net.Listen("tcp", ip+":0")
		if err != nil {
			g.incon("%v", err)
		}
		defer l.Close()
		return l.Addr().String()
	}
	// The servers under test share one configuration.
	cfgSeed := r.Uint64()
	mine, theirs := &rec{ev: map[string]bool{}}, &rec{ev: map[string]bool{}}
	var cfg *tls.Config
	what := "no configuration"
	if r.IntN(8) != 0 {
		cfg, what = w.config(cfgSeed, mine)
	}
	ref, _ := w.config(cfgSeed, theirs)
	if cfg == nil {
		ref = &tls.Config{MinVersion: tls.VersionTLS10}
	}
	loaded, err := tls.LoadX509KeyPair(certFile, keyFile)
	if err != nil {
		g.incon("%v", err)
	}
	ref.Certificates = []tls.Certificate{loaded}
	if ref.NextProtos == nil {
		ref.NextProtos = []string{"http/1.1"}
	}
	before := ""
	if cfg != nil {
		before = exported(cfg)
	}
	g.desc("configuration: %s", what)
	// A server that cannot start says so.
	if r.IntN(3) == 0 {
		bad := &graceful.Server{Addr: port(), TLSConfig: cfg}
		files := [][2]string{{certFile, filepath.Join(dir, "nothing")}, {filepath.Join(dir, "nothing"), keyFile}, {keyFile, certFile}}[r.IntN(3)]
		var ended atomic.Bool
		var err error
		go func() { err = bad.ListenAndServeTLS(files[0], files[1]); ended.Store(true) }()
		g.until("ListenAndServeTLS does not return although it has no certificate", ended.Load)
		if err == nil {
			g.fail("ListenAndServeTLS returns no error although it has no certificate")
		}
	}
	type srv struct {
		addr   string
		s      *graceful.Server
		served atomic.Bool
		err    error
	}
	var srvs []*srv
	n := 1 + r.IntN(2)
	for i := 0; i < n; i++ {
		s := &srv{addr: port()}
		s.s = &graceful.Server{Addr: s.addr, Handler: handler, TLSConfig: cfg}
		fn := cfg == nil && r.IntN(2) == 0
		go func() {
			if fn {
				s.err = graceful.ListenAndServeTLS(s.addr, certFile, keyFile, handler)
			} else {
				s.err = s.s.ListenAndServeTLS(certFile, keyFile)
			}
			s.served.Store(true)
		}()
		g.until("a server does not come up", func() bool {
			if s.served.Load() {
				if strings.Contains(fmt.Sprint(s.err), "in use") {
					g.incon("%v", s.err)
				}
				g.fail("ListenAndServeTLS returns %v", s.err)
				g.finish()
			}
			c, err := net.Dial("tcp", s.addr)
			if err == nil {
				c.Close()
			}
			return err == nil
		})
		srvs = append(srvs, s)
	}
	rl, err := net.Listen("tcp", ip+":0")
	if err != nil {
		g.incon("%v", err)
	}
	refSrv := &http.Server{Handler: handler, TLSNextProto: map[string]func(*http.Server, *tls.Conn, http.Handler){}}
	go refSrv.Serve(tls.NewListener(rl, ref))
	// The reference server comes with its own TLS state, which does not count.
	var outs []string
	okCount := 0
	for i, n := 0, 3+r.IntN(3); i < n; i++ {
		cl := w.client(r)
		s := pick(r, srvs)
		resume := r.IntN(3) == 0
		rounds := 1
		if resume {
			rounds = 2
		}
		mk := func() *tls.Config {
			c := cl.cfg.Clone()
			if resume {
				c.ClientSessionCache = tls.NewLRUClientSessionCache(4)
			}
			return c
		}
		ca, cb := mk(), mk()
		for k := 0; k < rounds; k++ {
			mine.take()
			theirs.take()
			token := fmt.Sprintf("plain%d-%d", i, k)
			b, _ := g.connect(rl.Addr().String(), cb, token)
			lastTLS.Store(nil)
			n0, w0 := nilTLS.Load(), withTLS.Load()
			a, st := g.connect(s.addr, ca, token)
			ea, eb := mine.take(), theirs.take()
			if a != b {
				g.fail("configured with %s, a client (%s, connection %d) gets\n%s\nand from crypto/tls\n%s", what, cl.desc, k, a, b)
			} else if ea != eb {
				g.fail("configured with %s, for a client (%s, connection %d), whose result is %s, these callbacks run\n%s\nand with crypto/tls\n%s", what, cl.desc, k, a, ea, eb)
			}
			if strings.Contains(a, "answered") {
				okCount++
				if nilTLS.Load() != n0 {
					g.mu.Lock()
					g.res.Known["tls-state-nil"] = "handlers do not see the TLS state of their requests"
					g.mu.Unlock()
				} else if x := lastTLS.Load(); withTLS.Load() != w0 && x != nil && (x.Version != st.Version || x.NegotiatedProtocol != st.NegotiatedProtocol || x.CipherSuite != st.CipherSuite) {
					g.fail("the handler sees version %x, protocol %q; the client %x, %q", x.Version, x.NegotiatedProtocol, st.Version, st.NegotiatedProtocol)
				}
			}
			outs = append(outs, a)
		}
	}
	if r.IntN(6) == 0 {
		g05http2(g, w, port(), certFile, keyFile)
	}
	// Something older than TLS 1.0 is refused.
	old := g.mustDial(pick(r, srvs).addr)
	old.send("\x16\x03\x00\x00\x2f\x01\x00\x00\x2b\x03\x00" + strings.Repeat("r", 32) + "\x00\x00\x04\x00\x2f\x00\x35\x01\x00")
	old.c.SetReadDeadline(time.Now().Add(30 * time.Second))
	if b, _ := io.ReadAll(old.c); len(b) > 0 && b[0] == 22 {
		g.fail("an SSL 3.0 handshake is answered: %q", b)
	}
	for _, x := range srvs {
		if x.s.TLSConfig != cfg {
			g.fail("the caller's server was given another TLS configuration (%p, it was %p)", x.s.TLSConfig, cfg)
		}
	}
	if cfg != nil {
		if now := exported(cfg); now != before {
			g.fail("the caller's configuration was modified, from\n%s\nto\n%s", before, now)
		}
	}
	// Requests over TLS are drained like others.
	easy := &tls.Config{InsecureSkipVerify: true, ServerName: "srv.test", MinVersion: tls.VersionTLS10, MaxVersion: 0}
	good := w.clients["good"]
	easy.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &good, nil }
	type held struct {
		q    *greq
		c    *gcl
		kind string
	}
	var hs []*held
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		h := &held{kind: pick(r, []string{"busy", "busy", "idle", "fresh", "partial"})}
		s := pick(r, srvs)
		h.c = g.mustDial(s.addr)
		hs = append(hs, h)
		switch h.kind {
		case "fresh":
			continue
		case "partial":
			h.c.send("\x16\x03\x01\x00\x80\x01\x00")
			continue
		}
		tc := tls.Client(h.c.c, easy)
		tc.SetDeadline(time.Now().Add(40 * time.Second))
		if err := tc.Handshake(); err != nil {
			h.kind = "refused"
			continue
		}
		h.c = &gcl{g: g, c: tc, br: bufio.NewReader(tc)}
		if i := r.IntN(1000); h.kind == "idle" {
			q := newGreq(fmt.Sprintf("idle%d-%p", i, h), 3, false)
			if _, err := h.c.get(q); err != nil {
				h.kind = "refused" // TLS 1.3 tells clients late
			}
			continue
		}
		h.q = newGreq(fmt.Sprintf("busy%p", h), 1+r.IntN(3000), true)
		h.c.send(reqText("GET", h.q.token))
		var over *atomic.Bool
		g.until("a request over TLS is not handled", func() bool {
			if h.q.startAt.Load() != 0 {
				return true
			}
			if over == nil {
				// The server may refuse the certificate late.
				over = h.c.peek()
			}
			return over.Load()
		})
		if h.q.startAt.Load() == 0 {
			h.kind = "refused"
		}
	}
	ws := g.waiters(1)
	ws = append(ws, g.shutdownWaiter(false))
	kinds := ""
	var busy int
	for _, h := range hs {
		kinds += h.kind + " "
		if h.kind == "busy" {
			busy++
		} else if h.kind != "refused" {
			over := h.c.watchAll()
			g.until("a shutdown does not close a TLS connection ("+h.kind+")", over.Load)
		}
	}
	g.desc("shut down with %s", kinds)
	if busy > 0 {
		for _, x := range ws {
			if x.at.Load() != 0 {
				g.fail("%s returned with %d requests in progress over TLS", x.name, busy)
			}
		}
	}
	for _, h := range hs {
		if h.kind == "busy" {
			close(h.q.gate)
			h.c.waitPeek()
			if _, err := h.c.answer(h.q, h.q.want()); err != nil {
				g.fail("a request in progress over TLS got: %v", err)
			}
		}
	}
	for _, x := range ws {
		g.until(x.name+" does not return after requests over TLS", func() bool { return x.at.Load() != 0 })
	}
	for _, s := range srvs {
		g.until("ListenAndServeTLS does not return after a shutdown", s.served.Load)
		if s.err != nil {
			g.fail("ListenAndServeTLS returns %v after a shutdown", s.err)
		}
	}
	g.count("connections compared with crypto/tls", int64(len(outs)))
	g.count("requests answered over TLS", int64(okCount))
	g.count("requests drained over TLS", int64(busy))
	g.res.Key = fmt.Sprint(what, outs)
	g.res.Obs = strings.Join(outs, " // ")
	os.RemoveAll(dir)
}

// peek waits for input, or the end, without consuming it.
func (c *gcl) peek() *atomic.Bool {
	b := new(atomic.Bool)
	c.peeked = make(chan struct{})
	go func() {
		defer close(c.peeked)
		if _, err := c.br.Peek(1); err != nil {
			b.Store(true)
		}
	}()
	return b
}

func (c *gcl) waitPeek() {
	if c.peeked != nil {
		<-c.peeked
	}
}

// watchAll reports when the server closes the connection, whatever it says first.
func (c *gcl) watchAll() *atomic.Bool {
	b := new(atomic.Bool)
	go func() {
		io.Copy(io.Discard, c.br)
		b.Store(true)
	}()
	return b
}

var _ = bytes.MinRead
