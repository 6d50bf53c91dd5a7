//go:build app

package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
)

func init() {
	rule := "applications on the default mux, each a process, started on sockets from a flag, the environment, Einhorn or systemd, over TLS or a given listener; responses, order of middleware (seen by probes inserted between them), log lines, acknowledgements, exit status and the fate of requests in progress at one or two interrupts are compared with the documented behaviour. Cases are distinguished by setup, traffic and ending."
	props["A01/main"] = prop{rule, func(m *M) { m.RunN("app", m.N(350, 8000), 10, a01) }}
	props["A01/race"] = prop{rule, func(m *M) { m.RunN("app", m.N(100, 3000), 10, a01) }}
	props["A01/pert"] = prop{rule, func(m *M) { m.RunN("app", m.N(120, 3000), 10, a01) }}
	children["appchild"] = appChild
}

type appCmd struct {
	How      string // "serve", "listener", "tls"
	Args     []string
	Addr     string
	Cert     string
	Key      string
	Abandon  string
	NotFound bool
	Probes   bool
	Pert     bool
	// These are of the TLS configuration.
	MaxTLS     uint16
	ClientAuth tls.ClientAuthType
	Protos     []string
	Seed       uint64
}

var appMethods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}

var appMW = map[string]web.MiddlewareType{"RequestID": middleware.RequestID, "Logger": middleware.Logger, "Recoverer": middleware.Recoverer, "AutomaticOptions": middleware.AutomaticOptions}
var appMWOrder = []string{"RequestID", "Logger", "Recoverer", "AutomaticOptions"}

type lineTee struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lineTee) Write(b []byte) (int, error) {
	l.mu.Lock()
	l.b.Write(b)
	l.mu.Unlock()
	return os.Stderr.Write(b)
}
func (l *lineTee) has(s ...string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, ln := range strings.Split(l.b.String(), "\n") {
		ok := true
		for _, x := range s {
			ok = ok && strings.Contains(ln, x)
		}
		if ok {
			return true
		}
	}
	return false
}

func appChild(a []string) {
	var c appCmd
	if err := json.Unmarshal([]byte(a[0]), &c); err != nil {
		panic(err)
	}
	if c.Pert {
		perturbSome(rand.New(rand.NewPCG(c.Seed, 9)))
	}
	os.Args = append([]string{"app"}, c.Args...)
	tee := &lineTee{}
	log.SetOutput(tee)
	var mu sync.Mutex
	probes := map[string][]string{}
	note := func(path, format string, a ...any) {
		mu.Lock()
		probes[path] = append(probes[path], fmt.Sprintf(format, a...))
		mu.Unlock()
	}
	probe := func(i int) func(*web.C, http.Handler) http.Handler {
		return func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if !strings.HasPrefix(r.URL.Path, "/probe/") {
					h.ServeHTTP(w, r)
					return
				}
				p := r.URL.Path
				note(p, "in%d id=%v started=%v", i, middleware.GetReqID(*c) != "", tee.has("Started", p))
				lw := mutil.WrapWriter(w)
				done := false
				defer func() {
					id := middleware.GetReqID(*c)
					note(p, "out%d done=%v status=%d returning=%v", i, done, lw.Status(), tee.has("Returning", id) && id != "")
				}()
				h.ServeHTTP(lw, r)
				done = true
			})
		}
	}
	if c.Probes {
		for i, n := range appMWOrder {
			if err := goji.Insert(probe(i), appMW[n]); err != nil {
				fmt.Fprintln(os.Stderr, "harness: Insert before", n, err)
				os.Exit(91)
			}
		}
		goji.Use(probe(4))
	}
	if c.Abandon != "" {
		if err := goji.Abandon(appMW[c.Abandon]); err != nil {
			fmt.Fprintln(os.Stderr, "harness: Abandon", c.Abandon, err)
			os.Exit(91)
		}
	}
	goji.Use(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Header().Set("X-App", "yes"); h.ServeHTTP(w, r) })
	})
	reg := map[string]func(web.PatternType, web.HandlerType){"CONNECT": goji.Connect, "DELETE": goji.Delete, "GET": goji.Get, "HEAD": goji.Head, "OPTIONS": goji.Options, "PATCH": goji.Patch, "POST": goji.Post, "PUT": goji.Put, "TRACE": goji.Trace}
	for m, f := range reg {
		f("/m/"+m, func(c web.C, w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-Route", m)
			fmt.Fprintf(w, "%s %s", m, middleware.GetReqID(c))
		})
	}
	goji.Handle("/any/:name", func(c web.C, w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Id", middleware.GetReqID(c))
		fmt.Fprintf(w, "any %s %s", r.Method, c.URLParams["name"])
	})
	goji.Get("/two", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "get") })
	goji.Post("/two", func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		w.WriteHeader(201)
		fmt.Fprintf(w, "post %d", len(b))
	})
	goji.Get("/panic", func(c web.C, w http.ResponseWriter, r *http.Request) { panic("app panic " + middleware.GetReqID(c)) })
	goji.Get("/probe/ok/:n", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "ok") })
	goji.Get("/probe/panic/:n", func(w http.ResponseWriter, r *http.Request) { panic("probed") })
	sub := web.New()
	goji.Handle("/sub/*", sub)
	sub.Get("/sub/x", func(c web.C, w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, "sub ", middleware.GetReqID(c) != "")
	})
	gates := map[string]chan struct{}{}
	enc := json.NewEncoder(os.Stdout)
	say := func(r bindReport) { mu.Lock(); enc.Encode(r); mu.Unlock() }
	gate := func(n string) chan struct{} {
		mu.Lock()
		defer mu.Unlock()
		if gates[n] == nil {
			gates[n] = make(chan struct{})
		}
		return gates[n]
	}
	goji.Get("/hold/:n", func(c web.C, w http.ResponseWriter, r *http.Request) {
		ch := gate(c.URLParams["n"])
		say(bindReport{What: "held", Addr: c.URLParams["n"]})
		<-ch
		fmt.Fprint(w, strings.Repeat("held "+c.URLParams["n"]+" ", 2000))
	})
	if c.NotFound {
		goji.NotFound(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(404)
			io.WriteString(w, "custom not found")
		})
	}
	http.HandleFunc("/std/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "std "+r.URL.Path) })
	broken := make(chan struct{})
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			f := strings.Fields(sc.Text())
			switch f[0] {
			case "release":
				close(gate(f[1]))
			case "break":
				close(broken)
			case "probes":
				mu.Lock()
				b := bindReport{What: "probes", Fds: probes[f[1]]}
				mu.Unlock()
				say(b)
			}
		}
		os.Exit(92) // the parent is gone
	}()
	switch c.How {
	case "serve":
		goji.Serve()
	case "listener":
		l, err := net.Listen("tcp", c.Addr)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(93)
		}
		goji.ServeListener(breakable{l, broken})
	case "tls":
		cert, err := tls.LoadX509KeyPair(c.Cert, c.Key)
		if err != nil {
			panic(err)
		}
		goji.ServeTLS(&tls.Config{
			Certificates: []tls.Certificate{cert}, MaxVersion: c.MaxTLS, ClientAuth: c.ClientAuth, NextProtos: c.Protos,
			VerifyConnection: func(cs tls.ConnectionState) error {
				if cs.ServerName == "refuse.example" {
					return errors.New("refused")
				}
				return nil
			},
		})
	}
	say(bindReport{What: "returned"})
}

// breakable is a listener that fails for good when told to.
type breakable struct {
	net.Listener
	broken chan struct{}
}

func (b breakable) Accept() (net.Conn, error) {
	type acc struct {
		c   net.Conn
		err error
	}
	ch := make(chan acc)
	go func() {
		c, err := b.Listener.Accept()
		ch <- acc{c, err}
	}()
	select {
	case a := <-ch:
		return a.c, a.err
	case <-b.broken:
		return nil, errors.New("the listener broke down")
	}
}

// app is a running application and its reports.
type app struct {
	*kid
	mu    sync.Mutex
	held  map[string]bool
	reps  chan *bindReport
	ended chan struct{}
	ret   atomic.Bool
	serr  *syncBuf
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(b []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(b) }
func (s *syncBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

// wait polls for cond; the application is idle most of the time, so that what has
// not happened after this long will not.
func (a *app) wait(cond func() bool) bool {
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); time.Sleep(500 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

func (a *app) exited() bool {
	select {
	case <-a.ended:
		return true
	default:
		return false
	}
}

func a01(t *T) {
	r := t.Rng
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "a")
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	how := pick(r, []string{"flag", "flag", "env", "port-like", "einhorn", "systemd", "unix", "listener", "tls"})
	if t.m.Phase == "pert" && r.IntN(3) == 0 {
		how = "einhorn" // moments just after it is ready
	}
	c := appCmd{How: "serve", NotFound: r.IntN(2) == 0, Probes: r.IntN(3) == 0, Seed: r.Uint64(), Pert: t.m.Phase != "main"}
	if r.IntN(5) == 0 {
		c.Abandon, c.Probes = pick(r, appMWOrder), false
	}
	ls, fs := sockets(t, 2)
	if ls == nil {
		return
	}
	defer closeAll(ls, fs)
	probe, err := net.Listen("tcp", freshIP(t, 6)+":0")
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	network, addr := "tcp", probe.Addr().String()
	probe.Close()
	var env []string
	var acks atomic.Int64
	var ctl net.Listener
	useTLS := false
	switch how {
	case "flag":
		c.Args = []string{"-bind", addr}
	case "env":
		env = append(env, "GOJI_BIND="+addr)
	case "port-like":
		_, p, _ := net.SplitHostPort(addr)
		env = append(env, "PORT="+p)
	case "unix":
		network, addr = "unix", dir+"/s"
		c.Args = []string{"-bind=" + addr}
	case "listener":
		c.How, c.Addr = "listener", addr
	case "tls":
		c.How, useTLS = "tls", true
		if r.IntN(2) == 0 {
			c.MaxTLS = tls.VersionTLS12
		}
		if r.IntN(2) == 0 {
			c.ClientAuth = tls.RequestClientCert
		}
		c.Protos = pick(r, [][]string{nil, {"app/1"}, {"http/1.1"}})
		c.Args = []string{"-bind", addr}
		w := newCA("app")
		c.Cert, c.Key = writePair(dir, w.issue("app.test", time.Now().Add(-time.Hour), time.Now().Add(time.Hour)))
	case "einhorn", "systemd":
		if how == "einhorn" {
			env = append(env, "EINHORN_MASTER_PID=@PARENT@", "EINHORN_FD_COUNT=1", "EINHORN_FD_0=4", "EINHORN_SOCK_PATH="+dir+"/ctl")
			addr = ls[1].Addr().String()
			if ctl, err = net.Listen("unix", dir+"/ctl"); err != nil {
				t.m.Inconclusive("%v", err)
				return
			}
			defer ctl.Close()
			go func() {
				for {
					x, err := ctl.Accept()
					if err != nil {
						return
					}
					b, _ := io.ReadAll(x)
					x.Close()
					if bytes.Contains(b, []byte("worker:ack")) {
						acks.Add(1)
					}
				}
			}()
		} else {
			env = append(env, "LISTEN_PID=@SELF@", "LISTEN_FDS=2")
			addr = ls[0].Addr().String()
		}
	}
	ending := pick(r, []string{"int", "int", "int", "int-int", "int-int", "int-late"})
	if ending == "int-late" && t.m.Tier != "thorough" && r.IntN(4) != 0 {
		ending = "int-int" // it takes long
	}
	if how == "einhorn" && (r.IntN(3) == 0 || t.m.Phase == "pert") {
		ending = "early"
	} else if how == "listener" && r.IntN(3) == 0 {
		ending = "broken"
	}
	late := ending == "int-int" && (t.m.Tier == "thorough" || r.IntN(3) == 0)
	sig := syscall.SIGINT
	if how == "einhorn" && r.IntN(2) == 0 {
		sig = syscall.SIGUSR2
	}
	t.Desc(func() string {
		return fmt.Sprintf("socket from %s, abandoned %q, probes %v, ended by %s (%v)", how, c.Abandon, c.Probes, ending, sig)
	})
	arg, _ := json.Marshal(c)
	k := t.startKid2(env, fs, dir, "appchild", string(arg))
	if k == nil {
		return
	}
	defer k.kill2()
	if how == "einhorn" {
		ls[1].Close()
		fs[1].Close()
	} else if how == "systemd" {
		ls[0].Close()
		fs[0].Close()
	}
	why := func() string {
		time.Sleep(20 * time.Millisecond)
		if k.exited() {
			return fmt.Sprintf("(exited: %v) ", k.err) + clip(k.serr.String(), 2500)
		}
		return "(running) " + clip(k.serr.String(), 2500)
	}
	conf, sni := c, "app.test"
	dial := func() (*gcl, error) {
		c, err := net.DialTimeout(network, addr, 10*time.Second)
		if err != nil {
			return nil, err
		}
		if useTLS {
			asked := false
			tc := tls.Client(c, &tls.Config{InsecureSkipVerify: true, ServerName: sni, NextProtos: []string{"app/2", "app/1", "http/1.1"},
				GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
					asked = true
					return new(tls.Certificate), nil
				}})
			tc.SetDeadline(time.Now().Add(30 * time.Second))
			if err := tc.Handshake(); err != nil {
				c.Close()
				return nil, err
			}
			v := conf.MaxTLS
			if v == 0 {
				v = tls.VersionTLS13
			}
			if cs := tc.ConnectionState(); asked != (conf.ClientAuth != 0) || cs.Version != v || cs.NegotiatedProtocol != strings.Join(conf.Protos, "") {
				t.Fail("the TLS configuration %+v is not in effect: version %x, protocol %q, certificate asked for: %v", conf, cs.Version, cs.NegotiatedProtocol, asked)
			}
			tc.SetDeadline(time.Time{})
			c = tc
		}
		return &gcl{c: c, br: bufio.NewReader(c), addr: addr}, nil
	}
	const stopping, stopped = "Goji received signal, gracefully stopping", "Goji stopped"
	// Whoever is told that it is ready may tell it to stop at once.
	if ending == "early" {
		if !k.wait(func() bool { return acks.Load() > 0 || k.exited() }) || k.exited() {
			t.Fail("the application serves under Einhorn, but has not acknowledged: %s", why())
			return
		}
		syscall.Kill(k.pid, sig)
		if !k.wait(k.exited) {
			t.Fail("the application does not stop when %v arrives as soon as it is ready: %s", sig, why())
			return
		}
		text := k.serr.String()
		if k.err != nil {
			t.Fail("the application exits with %v when %v arrives as soon as it is ready: %s", k.err, sig, why())
		} else if strings.Count(text, stopping) != 1 || strings.Count(text, stopped) != 1 || !k.ret.Load() {
			t.Fail("when %v arrives as soon as it is ready, the application reports its stop %d times and its end %d times: %s", sig, strings.Count(text, stopping), strings.Count(text, stopped), why())
		}
		t.Count("endings: early", 1)
		t.Saw(fmt.Sprint(how, c.Abandon, c.NotFound, c.Probes, ending, sig))
		return
	}
	// Once a response arrives, it is up.
	var first *gcl
	up := k.wait(func() bool {
		if k.exited() {
			return true
		}
		// Before it listens, another child being forked may still hold the
		// socket that the address was found with.
		if !strings.Contains(k.serr.String(), "Starting Goji on") {
			return false
		}
		x, err := dial()
		if err != nil {
			return false
		}
		first = x
		return true
	})
	if first == nil {
		if strings.Contains(why(), "address already in use") || strings.Contains(why(), "harness:") {
			t.Count("ports taken by somebody else meanwhile", 1)
			return
		}
		t.Fail("the application (socket from %s) does not come up: running %v, exited %v (%v): %s", how, up, k.exited(), k.err, why())
		return
	}
	var all []string // what was answered, for the log
	type want struct {
		method, path, id string
		code             int
	}
	var wants []want
	do := func(cl *gcl, method, path, body string) (*http.Response, string, bool) {
		cl.c.SetDeadline(time.Now().Add(40 * time.Second))
		fmt.Fprintf(cl.c, "%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", method, path, len(body), body)
		resp, err := http.ReadResponse(cl.br, &http.Request{Method: method})
		if err != nil {
			return nil, err.Error(), false
		}
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return nil, err.Error(), false
		}
		return resp, string(b), true
	}
	check := func(cl *gcl, method, path, body string, code int, text string, hdr ...string) (*http.Response, bool) {
		resp, got, ok := do(cl, method, path, body)
		if !ok {
			t.Fail("%s %s is not answered: %s\n%s", method, path, got, why())
			return nil, false
		}
		if resp.StatusCode != code || text != "" && method != "HEAD" && !strings.HasPrefix(got, text) {
			t.Fail("%s %s (abandoned %q) is answered %d %q, not %d %q", method, path, c.Abandon, resp.StatusCode, got, code, text)
			return resp, false
		}
		for i := 0; i+1 < len(hdr); i += 2 {
			if v := resp.Header.Get(hdr[i]); v != hdr[i+1] {
				t.Fail("%s %s is answered with %s: %q, not %q", method, path, hdr[i], v, hdr[i+1])
				return resp, false
			}
		}
		all = append(all, fmt.Sprintf("%s %s %d", method, path, code))
		return resp, true
	}
	nf := ""
	if c.NotFound {
		nf = "custom not found"
	}
	autoOpt := c.Abandon != "AutomaticOptions"
	if useTLS {
		sni = "refuse.example"
		if x, err := dial(); err == nil {
			x.c.SetDeadline(time.Now().Add(30 * time.Second))
			_, got, ok := do(x, "GET", "/two", "")
			x.c.Close()
			if ok {
				t.Fail("a connection that the TLS configuration refuses is served: %s", got)
				return
			}
		}
		sni = "app.test"
	}
	ids := map[string]bool{}
	cls := []*gcl{first}
	dead := false
	for i := 0; i < 4+r.IntN(10) && !dead; i++ {
		cl := pick(r, cls)
		if r.IntN(4) == 0 {
			x, err := dial()
			if err != nil {
				t.Fail("a running application refuses a connection: %v", err)
				return
			}
			cls, cl = append(cls, x), x
		}
		logged := func(m, p, id string, code int) { wants = append(wants, want{m, p, id, code}) }
		q := fmt.Sprintf("?q=%d", i)
		ok := true
		switch r.IntN(9) {
		case 0, 1:
			m, route := pick(r, appMethods), pick(r, appMethods)
			if r.IntN(2) == 0 {
				m = route
			}
			if m == "CONNECT" { // ends HTTP on its connection
				x, err := dial()
				if err != nil {
					t.Fail("a running application refuses a connection: %v", err)
					return
				}
				defer x.c.Close()
				cl = x
			}
			p := "/m/" + route + q
			switch {
			case m == route || m == "HEAD" && route == "GET":
				_, ok = check(cl, m, p, "", 200, route+" ", "X-Route", route, "X-App", "yes")
				logged(m, p, "", 200)
			case m == "OPTIONS" && autoOpt:
				var resp *http.Response
				resp, ok = check(cl, m, p, "", 200, "")
				if ok {
					l := strings.Split(resp.Header.Get("Allow"), ", ")
					sort.Strings(l)
					w := []string{route, "OPTIONS"}
					if route == "GET" {
						w = append(w, "HEAD")
					}
					sort.Strings(w)
					if !slices.Equal(l, w) {
						t.Fail("OPTIONS %s is answered with Allow: %q, not %q", p, l, w)
					}
				}
				logged(m, p, "", 200)
			default:
				_, ok = check(cl, m, p, "", 404, nf)
				logged(m, p, "", 404)
			}
		case 2:
			m := pick(r, []string{"GET", "POST", "PURGE", "DELETE"})
			var resp *http.Response
			resp, ok = check(cl, m, "/any/thing"+q, "", 200, "any "+m+" thing", "X-App", "yes")
			if ok {
				id := resp.Header.Get("X-Id")
				if c.Abandon != "RequestID" {
					if id == "" || ids[id] {
						t.Fail("a request has ID %q, others %v", id, ids)
					}
					ids[id] = true
				} else if id != "" {
					t.Fail("without RequestID a request has ID %q", id)
				}
				logged(m, "/any/thing"+q, id, 200)
			}
		case 3:
			body := strings.Repeat("b", r.IntN(3000))
			_, ok = check(cl, "POST", "/two"+q, body, 201, fmt.Sprintf("post %d", len(body)))
			logged("POST", "/two"+q, "", 201)
		case 4:
			_, ok = check(cl, "GET", "/nowhere/"+q, "", 404, nf)
			logged("GET", "/nowhere/"+q, "", 404)
		case 5:
			_, ok = check(cl, "GET", "/std/y"+q, "", 200, "std /std/y", "X-App", "")
		case 6:
			_, ok = check(cl, "GET", "/sub/x"+q, "", 200, fmt.Sprint("sub ", c.Abandon != "RequestID"))
			logged("GET", "/sub/x"+q, "", 200)
		case 7:
			x, err := dial()
			if err != nil {
				t.Fail("a running application refuses a connection: %v", err)
				return
			}
			if c.Abandon == "Recoverer" {
				if resp, _, ok := do(x, "GET", "/panic"+q, ""); ok {
					t.Fail("without Recoverer a panic is answered %d", resp.StatusCode)
				}
				logged("GET", "/panic"+q, "", 0)
			} else {
				_, ok = check(x, "GET", "/panic"+q, "", 500, "")
				logged("GET", "/panic"+q, "", 500)
			}
			x.c.Close()
		case 8:
			if c.Probes {
				ok = t.probed(k, func(m, p string, code int) bool { _, ok := check(cl, m, p, "", code, ""); return ok }, i, nf)
				logged("GET", fmt.Sprintf("/probe/ok/%d", i), "", 200)
				logged("GET", fmt.Sprintf("/probe/panic/%d", i), "", 500)
				logged("OPTIONS", fmt.Sprintf("/probe/ok/%d", i), "", 200)
			}
		}
		dead = !ok
	}
	if dead {
		return
	}
	// Now stop it.
	nheld := r.IntN(4)
	if ending != "int" && nheld == 0 {
		nheld = 1
	}
	var held []*gcl
	for i := 0; i < nheld; i++ {
		x, err := dial()
		if err != nil {
			t.Fail("a running application refuses a connection: %v", err)
			return
		}
		held = append(held, x)
		x.send(reqText("GET", fmt.Sprintf("hold/%d", i)))
		if !k.wait(func() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.held[fmt.Sprint(i)] || k.exited() }) || k.exited() {
			t.Fail("a request is not handled: %s", why())
			return
		}
	}
	if how == "einhorn" && !k.wait(func() bool { return acks.Load() > 0 }) {
		t.Fail("the application serves under Einhorn, but has not acknowledged")
	}
	if ending == "broken" {
		fmt.Fprintf(k.in, "break\n")
		if !k.wait(k.exited) {
			t.Fail("the application does not exit when its listener fails: %s", why())
			return
		}
		if k.err == nil || k.ret.Load() {
			t.Fail("the application exits as if nothing had happened when its listener fails (%v, Serve returned %v): %s", k.err, k.ret.Load(), why())
		} else if !strings.Contains(k.serr.String(), "the listener broke down") {
			t.Fail("the application does not say why it exits when its listener fails: %s", why())
		} else if strings.Contains(k.serr.String(), stopping) {
			t.Fail("the application reports a signal when its listener fails: %s", why())
		}
		t.Count("endings: broken", 1)
		t.Saw(fmt.Sprint(how, c.Abandon, c.NotFound, c.Probes, ending, nheld, all))
		return
	}
	if strings.Contains(why(), stopping) || strings.Contains(why(), stopped) {
		t.Fail("the application says it stops before it was told to: %s", why())
	}
	t0 := time.Now()
	syscall.Kill(k.pid, sig)
	if !k.wait(func() bool { return strings.Contains(k.serr.String(), stopping) || k.exited() }) {
		t.Fail("the application does not react to %v: %s", sig, why())
		return
	}
	t1 := time.Now() // it has received the signal by now
	{
		if !k.wait(func() bool {
			x, err := dial()
			if err == nil {
				x.c.Close()
			}
			return err != nil
		}) {
			t.Fail("the application still accepts connections after %v", sig)
		}
	}
	for _, cl := range cls {
		if !k.wait(func() bool { return cl.ended() || k.exited() }) {
			t.Fail("the application does not close an idle connection after %v", sig)
			return
		}
	}
	hold := func(d time.Duration, what string) bool {
		time.Sleep(d)
		for _, x := range held {
			if x.ended() {
				t.Fail("a request in progress is cut off %s: %s", what, why())
				return false
			}
		}
		if nheld > 0 && (k.exited() || strings.Contains(k.serr.String(), stopped)) {
			t.Fail("the application stopped %s although %d requests are in progress: %s", what, nheld, why())
			return false
		}
		return true
	}
	if !hold(time.Duration(r.IntN(8))*time.Millisecond, "after one interrupt") {
		return
	}
	release := true
	switch ending {
	case "int-int":
		// Two seconds are the window: anywhere in it.
		if late {
			if !hold(time.Until(t0.Add(time.Duration(1050+r.IntN(300))*time.Millisecond)), "after one interrupt") {
				return
			}
		}
		syscall.Kill(k.pid, sig)
		el := time.Since(t0)
		if el > 1500*time.Millisecond {
			// It may have come within the window or after it.
			t.Count("too slow for a second interrupt within the window", 1)
			return
		}
		release = false
		end := func() bool {
			for d := time.Now().Add(4 * time.Second); time.Now().Before(d) && !k.exited(); {
				time.Sleep(2 * time.Millisecond)
			}
			return k.exited()
		}
		for try := 0; !end() && try < 3; try++ {
			// Perhaps the second one took long to arrive.
			t.Count("pairs of interrupts sent again", 1)
			syscall.Kill(k.pid, sig)
			if late {
				time.Sleep(1200 * time.Millisecond)
			} else {
				time.Sleep(100 * time.Millisecond)
			}
			syscall.Kill(k.pid, sig)
		}
		if !k.exited() {
			t.Fail("the application does not stop at once although it was interrupted again after %v: %s", el, why())
			return
		}
		for _, x := range held {
			if code, _, _, err := x.recv(); err == nil {
				t.Fail("a held request was answered %d after two interrupts", code)
			}
		}
	case "int-late":
		if !hold(time.Until(t1.Add(2500*time.Millisecond))+200*time.Millisecond, "after one interrupt") {
			return
		}
		syscall.Kill(k.pid, sig)
		if !hold(60*time.Millisecond, "after a second, late interrupt") {
			return
		}
	}
	if release {
		for i, x := range held {
			fmt.Fprintf(k.in, "release %d\n", i)
			code, body, _, err := x.recv()
			if want := strings.Repeat(fmt.Sprintf("held %d ", i), 2000); err != nil || code != 200 || body != want {
				t.Fail("a request in progress at an interrupt was answered %d with %d bytes (%v), not 200 with %d: %s", code, len(body), err, len(want), why())
			}
			wants = append(wants, want{"GET", fmt.Sprintf("/hold/%d", i), "", 200})
		}
	}
	if !k.wait(k.exited) {
		t.Fail("the application does not exit after its last request: %s", why())
		return
	}
	if k.err != nil {
		t.Fail("the application exits with %v after %s: %s", k.err, ending, why())
	} else if !k.ret.Load() {
		t.Fail("Serve did not return")
	}
	text := ansi.ReplaceAllString(k.serr.String(), "")
	if strings.Count(text, stopping) != 1 || strings.Count(text, stopped) != 1 {
		t.Fail("the application reports its stop %d times and its end %d times: %s", strings.Count(text, stopping), strings.Count(text, stopped), why())
	}
	if ctl != nil {
		ctl.(*net.UnixListener).SetDeadline(time.Now().Add(2 * time.Millisecond))
		if n := acks.Load(); n != 1 {
			t.Fail("the application acknowledged %d times", n)
		}
	}
	if c.Abandon != "Logger" && release {
		t.appLog(text, c.Abandon != "RequestID", func(yield func(m, p, id string, code int)) {
			for _, w := range wants {
				yield(w.method, w.path, w.id, w.code)
			}
		})
	} else if c.Abandon == "Logger" && strings.Contains(text, "Started ") {
		t.Fail("without Logger there are log lines: %s", why())
	}
	t.Count("requests answered as documented", int64(len(all)))
	t.Count("requests in progress at an interrupt", int64(nheld))
	t.Count("applications: "+how, 1)
	t.Count("endings: "+ending, 1)
	t.Saw(fmt.Sprint(how, c.Abandon, c.NotFound, c.Probes, ending, sig, nheld, all))
	t.Sample(func() any { return fmt.Sprintf("%s, %s: %v", how, ending, all) })
}

var startedRE = regexp.MustCompile(`^\S+ \S+ (?:\[(\S+)\] )?Started (\S+) "([^"]*)" from (\S*)$`)
var returningRE = regexp.MustCompile(`^\S+ \S+ (?:\[(\S+)\] )?Returning (\d+) in (\S+)$`)

// appLog matches an application's log with what was requested.
func (t *T) appLog(text string, ids bool, wants func(func(m, p, id string, code int))) {
	type req struct {
		m, p, id string
		code     string
	}
	var started []*req
	byID := map[string]*req{}
	ends := map[string]int{}
	for _, ln := range strings.Split(text, "\n") {
		if f := startedRE.FindStringSubmatch(ln); f != nil {
			q := &req{m: f[2], p: f[3], id: f[1]}
			started = append(started, q)
			if q.id != "" && byID[q.id] != nil {
				t.Fail("two requests are logged with the same ID: %s", ln)
			}
			byID[q.id] = q
		} else if f := returningRE.FindStringSubmatch(ln); f != nil {
			if q := byID[f[1]]; q != nil {
				q.code = f[2]
			} else {
				t.Fail("the end of a request is logged, but not its start: %s", ln)
			}
			ends[f[2]]++
		}
	}
	n := 0
	codes := map[string]int{}
	wants(func(m, p, id string, code int) {
		n++
		codes[fmt.Sprint(code)]++
		var hit *req
		for _, q := range started {
			if q.m == m && q.p == p && (id == "" || q.id == id) {
				hit = q
			}
		}
		if hit == nil {
			t.Fail("%s %s (ID %q) is not logged:\n%s", m, p, id, clip(text, 3000))
		} else if ids && code != 0 && hit.code != fmt.Sprint(code) {
			t.Fail("%s %s, answered %d, is logged as returning %q:\n%s", m, p, code, hit.code, clip(text, 3000))
		} else if ids != (hit.id != "") {
			t.Fail("%s %s is logged with ID %q", m, p, hit.id)
		}
	})
	if len(started) != n {
		t.Fail("%d requests were made through the default mux, but the start of %d is logged:\n%s", n, len(started), clip(text, 3000))
	}
	if !ids {
		for c, k := range codes {
			if c != "0" && ends[c] != k {
				t.Fail("%d requests were answered %s, %d are logged so", k, c, ends[c])
			}
		}
	}
}

// probed makes requests that show where in the stack each default middleware is.
func (t *T) probed(k *app, check func(m, p string, code int) bool, i int, nf string) bool {
	ok, pan := fmt.Sprintf("/probe/ok/%d", i), fmt.Sprintf("/probe/panic/%d", i)
	compare := func(p string, from int, want []string) bool {
		fmt.Fprintf(k.in, "probes %s\n", p)
		var rep *bindReport
		select {
		case rep = <-k.reps:
		case <-time.After(40 * time.Second):
			t.m.Inconclusive("no report from probes")
			return false
		}
		if got := rep.Fds; len(got) < from || !slices.Equal(got[from:], want) {
			t.Fail("probes before RequestID (0), Logger (1), Recoverer (2), AutomaticOptions (3) and after (4) see for %s\n%q\nnot\n%q", p, got, want)
			return false
		}
		return true
	}
	in := []string{"in0 id=false started=false", "in1 id=true started=false", "in2 id=true started=true", "in3 id=true started=true", "in4 id=true started=true"}
	if !check("GET", ok, 200) {
		return false
	}
	// The last probes report after the response has been sent.
	settle := func(p, last string) {
		k.wait(func() bool {
			fmt.Fprintf(k.in, "probes %s\n", p)
			rep := <-k.reps
			n := 0
			for _, s := range rep.Fds {
				if strings.HasPrefix(s, last) {
					n++
				}
			}
			return n > 0 && len(rep.Fds)%10 == 0
		})
	}
	settle(ok, "out0")
	if !compare(ok, 0, append(slices.Clone(in), "out4 done=true status=200 returning=false", "out3 done=true status=200 returning=false", "out2 done=true status=200 returning=false", "out1 done=true status=200 returning=true", "out0 done=true status=200 returning=true")) {
		return false
	}
	if !check("GET", pan, 500) {
		return false
	}
	settle(pan, "out0")
	if !compare(pan, 0, append(slices.Clone(in), "out4 done=false status=0 returning=false", "out3 done=false status=0 returning=false", "out2 done=true status=500 returning=false", "out1 done=true status=500 returning=true", "out0 done=true status=500 returning=true")) {
		return false
	}
	if !check("OPTIONS", ok, 200) {
		return false
	}
	settle(ok, "out0")
	// "Started" for this path has been logged before.
	in[0], in[1] = "in0 id=false started=true", "in1 id=true started=true"
	return compare(ok, 10, append(in, "out4 done=true status=404 returning=false", "out3 done=true status=200 returning=false", "out2 done=true status=200 returning=false", "out1 done=true status=200 returning=true", "out0 done=true status=200 returning=true"))
}

// startKid2 starts an application and follows what it says.
func (t *T) startKid2(env []string, files []*os.File, dir string, args ...string) *app {
	a := &app{held: map[string]bool{}, reps: make(chan *bindReport, 100), ended: make(chan struct{}), serr: &syncBuf{}}
	a.kid = t.startKidTo(a.serr, env, files, dir, args...)
	if a.kid == nil {
		return nil
	}
	go func() {
		for {
			rep := a.next()
			if rep == nil {
				break
			}
			switch rep.What {
			case "held":
				a.mu.Lock()
				a.held[rep.Addr] = true
				a.mu.Unlock()
			case "returned":
				a.ret.Store(true)
			default:
				a.reps <- rep
			}
		}
		a.end.Do(func() {
			a.err = a.cmd.Wait()
			a.tm.Stop()
		})
		close(a.ended)
	}()
	return a
}

func (a *app) kill2() {
	a.cmd.Process.Kill()
	<-a.ended
}
