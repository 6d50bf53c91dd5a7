package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
)

// G07: as long as there is no shutdown, a graceful server is a net/http server.

func init() {
	rule := "random server configurations (time limits, header limits, callbacks, contexts, error log, protocols, default handler) served by package graceful and by net/http, in all the ways a server can be started; the same scripted conversations, well-formed and not, are held with both, and what clients receive, handlers see, callbacks and error logs are told and Serve returns must be the same. Cases are distinguished by configuration and script."
	for ph, n := range map[string][2]int{"main": {900, 20000}, "pert": {250, 6000}, "race": {200, 5000}} {
		n := n
		props["G07/"+ph] = prop{rule, func(m *M) {
			g07DefaultMux()
			log.SetFlags(0)
			log.SetOutput(&g07Std)
			if ph == "main" {
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); m.RunN("patience", m.N(4, 16), 4, g07Patience) }()
				defer wg.Wait()
			}
			m.RunN("conversation", m.N(n[0], n[1]), 40, g07)
			if ph == "main" {
				m.RunN("keepalive", m.N(60, 1000), 4, g07KeepAlive)
				m.RunN("start", m.N(60, 1000), 8, g07Start)
				m.RunN("endurance", m.N(20, 300), 4, g07Endure)
			}
		}}
	}
}

// The default mux belongs to package goji in the workers of A01.
var g07DefaultMux = sync.OnceFunc(func() {
	http.Handle("/", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		// What is served by default: the case in question is found by its address.
		la, _ := r.Context().Value(http.LocalAddrContextKey).(net.Addr)
		if la != nil {
			if h, ok := g07Default.Load(la.String()); ok {
				h.(http.Handler).ServeHTTP(w, r)
				return
			}
		}
		http.Error(w, "no such case", 599)
	}))
})

var g07Default sync.Map // address -> http.Handler
var g07Addr atomic.Uint32

// g07Listen finds an address nobody else uses: 127/8 is large.
func g07Listen(r *rand.Rand) (string, error) {
	for i := 0; i < 50; i++ {
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+os.Getpid()%250, 1+g07Addr.Add(1)%250, 1+r.IntN(250), 10000+r.IntN(20000))
		l, err := net.Listen("tcp", a)
		if err == nil {
			l.Close()
			return a, nil
		}
	}
	return "", errors.New("no address to listen on")
}

type g07cfg struct {
	entry                         string // how the server is started
	read, readHeader, write, idle time.Duration
	maxHeader                     int
	errorLog, baseCtx, connCtx    bool
	connState, nilHandler, noOpts bool
	noKeep, h2                    bool
	protocols                     int
	twice                         bool
	slowStep                      string
}

func (c g07cfg) String() string { return fmt.Sprintf("%+v", struct{ X g07cfgPlain }{g07cfgPlain(c)}) }

type g07cfgPlain g07cfg

// g07side is one of the two servers.
type g07side struct {
	t      *T
	c      g07cfg
	who    string
	addr   string
	mu     sync.Mutex
	ev     map[string][]string // per connection (by client address): states
	seen   map[string][]string // per connection: what handlers saw
	lg     bytes.Buffer
	l      net.Listener
	ret    chan error
	calls  map[string]int
	closed map[string]chan struct{}
}

type g07key string

func (s *g07side) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.lg.Write(b)
}

func (s *g07side) note(conn, f string, a ...any) {
	s.mu.Lock()
	s.seen[conn] = append(s.seen[conn], fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *g07side) done(conn string) chan struct{} {
	if s.closed[conn] == nil {
		s.closed[conn] = make(chan struct{})
	}
	return s.closed[conn]
}

func (s *g07side) start(r *rand.Rand) error {
	s.ev, s.seen, s.calls, s.closed = map[string][]string{}, map[string][]string{}, map[string]int{}, map[string]chan struct{}{}
	c := s.c
	srv := &http.Server{ReadTimeout: c.read, ReadHeaderTimeout: c.readHeader, WriteTimeout: c.write, IdleTimeout: c.idle, MaxHeaderBytes: c.maxHeader, DisableGeneralOptionsHandler: c.noOpts}
	if c.errorLog {
		srv.ErrorLog = log.New(s, "", 0)
	} else {
		srv.ErrorLog = log.New(io.Discard, "", 0)
	}
	h := http.HandlerFunc(s.serve)
	if !c.nilHandler {
		srv.Handler = h
	}
	if c.baseCtx {
		srv.BaseContext = func(l net.Listener) context.Context {
			s.mu.Lock()
			s.calls["base "+strconv.FormatBool(l.Addr().String() == s.addr)]++
			s.mu.Unlock()
			return context.WithValue(context.Background(), g07key("base"), "b")
		}
	}
	if c.connCtx {
		srv.ConnContext = func(ctx context.Context, nc net.Conn) context.Context {
			return context.WithValue(ctx, g07key("conn"), fmt.Sprint("c", nc.LocalAddr().String() == s.addr, ctx.Value(g07key("base"))))
		}
	}
	// The last state tells that a connection is done with, so there is always a
	// callback, but only what it was told is compared where that was chosen.
	srv.ConnState = func(nc net.Conn, st http.ConnState) {
		k := nc.RemoteAddr().String()
		s.mu.Lock()
		s.ev[k] = append(s.ev[k], st.String())
		if st == http.StateClosed || st == http.StateHijacked {
			close(s.done(k))
		}
		s.mu.Unlock()
	}
	switch c.protocols {
	case 1:
		p := new(http.Protocols)
		p.SetHTTP1(true)
		srv.Protocols = p
	case 2:
		p := new(http.Protocols)
		p.SetHTTP1(true)
		p.SetUnencryptedHTTP2(true)
		srv.Protocols = p
	}
	if c.noKeep {
		srv.SetKeepAlivesEnabled(false)
	}
	if c.nilHandler {
		g07Default.Store(s.addr, h)
	}
	s.ret = make(chan error, 2)
	method := c.entry == "ListenAndServe"
	if method {
		srv.Addr = s.addr
	} else {
		l, err := net.Listen("tcp", s.addr)
		if err != nil {
			return err
		}
		s.l = l
	}
	fields := func() map[string]reflect.Value {
		m := map[string]reflect.Value{}
		for _, f := range []string{"Addr", "Handler", "ReadTimeout", "ReadHeaderTimeout", "WriteTimeout", "IdleTimeout", "MaxHeaderBytes", "ConnState", "ErrorLog", "BaseContext", "ConnContext", "TLSConfig", "DisableGeneralOptionsHandler", "Protocols", "HTTP2"} {
			v := reflect.ValueOf(srv).Elem().FieldByName(f)
			m[f] = reflect.New(v.Type()).Elem()
			m[f].Set(v)
		}
		return m
	}
	before := fields()
	go func() {
		var err error
		if s.who == "net/http" {
			if method {
				err = srv.ListenAndServe()
			} else {
				err = srv.Serve(s.l)
			}
		} else {
			g := (*graceful.Server)(srv)
			if method {
				err = g.ListenAndServe()
			} else {
				err = g.Serve(s.l)
			}
			// The server handed in is the caller's.
			after := fields()
			for f, a := range before {
				b := after[f]
				same := true
				switch a.Kind() {
				case reflect.Func:
					same = a.Pointer() == b.Pointer()
				case reflect.Interface:
					same = a.IsNil() == b.IsNil() && (a.IsNil() || a.Elem().Type() == b.Elem().Type() && a.Elem().Pointer() == b.Elem().Pointer())
				default:
					same = a.Interface() == b.Interface()
				}
				if !same {
					s.t.Fail("Serve changed %s of the server it was called on", f)
				}
			}
		}
		s.ret <- err
	}()
	return nil
}

func (s *g07side) stop() string {
	g07Default.Delete(s.addr)
	if s.l == nil {
		return "" // there is no way to stop it
	}
	s.l.Close()
	select {
	case err := <-s.ret:
		return strings.ReplaceAll(fmt.Sprint(err), s.addr, "ADDR")
	case <-time.After(2 * time.Minute):
		return "nothing"
	}
}

var g07File = sync.OnceValue(func() string {
	p := filepath.Join(os.Getenv("VH_TMP"), fmt.Sprint("g07-", os.Getpid()))
	if err := os.WriteFile(p, bytes.Repeat([]byte("0123456789abcdef"), 3000), 0o600); err != nil {
		panic(err)
	}
	return p
})

// serve is the application: the path says what it does.
func (s *g07side) serve(w http.ResponseWriter, r *http.Request) {
	conn := r.RemoteAddr
	op, arg, _ := strings.Cut(strings.TrimPrefix(r.URL.Path, "/"), "/")
	var hdr []string
	for k, v := range r.Header {
		hdr = append(hdr, fmt.Sprint(k, v))
	}
	sort.Strings(hdr)
	_, isSrv := r.Context().Value(http.ServerContextKey).(*http.Server)
	la, _ := r.Context().Value(http.LocalAddrContextKey).(net.Addr)
	dl, hasDl := r.Context().Deadline()
	_ = dl
	s.note(conn, "%s %s %s host=%v %v len=%d te=%v close=%v uri=%q srv=%v local=%v base=%v conn=%v tls=%v dl=%v", r.Method, r.URL, r.Proto, strings.ReplaceAll(r.Host, s.addr, "ADDR"), hdr, r.ContentLength, r.TransferEncoding, r.Close, r.RequestURI, isSrv,
		la != nil && la.String() == s.addr, r.Context().Value(g07key("base")), r.Context().Value(g07key("conn")), r.TLS != nil, hasDl)
	_, fl := w.(http.Flusher)
	_, hj := w.(http.Hijacker)
	_, rf := w.(io.ReaderFrom)
	_, cn := w.(http.CloseNotifier)
	_, pu := w.(http.Pusher)
	s.note(conn, "writer %v %v %v %v %v", fl, hj, rf, cn, pu)
	ms, _ := strconv.Atoi(arg)
	rc := http.NewResponseController(w)
	switch op {
	case "echo":
		b, err := io.ReadAll(r.Body)
		s.note(conn, "body %d %v trailer %v", len(b), g07Err(err), r.Trailer)
		fmt.Fprintf(w, "%d %x", len(b), sha256.Sum256(b))
	case "chunk":
		for i := 0; i < 5; i++ {
			fmt.Fprintf(w, "part %d;", i)
			w.(http.Flusher).Flush()
		}
	case "sleep":
		time.Sleep(time.Duration(ms) * time.Millisecond)
		n, err := io.WriteString(w, "slept")
		s.note(conn, "write %d %v flush %v", n, err, rc.Flush() != nil)
	case "panic":
		io.WriteString(w, arg)
		if arg == "abort" {
			panic(http.ErrAbortHandler)
		}
		panic("panics with " + arg)
	case "hijack":
		c, brw, err := rc.Hijack()
		if err != nil {
			s.note(conn, "hijack %v", err)
			w.WriteHeader(555)
			return
		}
		fmt.Fprintf(brw, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi")
		brw.Flush()
		l, err := brw.ReadString('\n')
		s.note(conn, "then %q %v", l, g07Err(err))
		fmt.Fprintf(c, "bye")
		c.Close()
	case "early":
		w.WriteHeader(202)
		io.WriteString(w, "early")
	case "partial":
		b := make([]byte, 10)
		n, err := io.ReadFull(r.Body, b)
		s.note(conn, "part %q %v", b[:n], g07Err(err))
		io.WriteString(w, "partial")
	case "trailer":
		w.Header().Set("Trailer", "T")
		io.WriteString(w, "x")
		w.Header().Set("T", "v")
		w.Header().Set(http.TrailerPrefix+"U", "u")
	case "info":
		w.Header().Set("Link", "l")
		w.WriteHeader(103)
		w.WriteHeader(ms)
	case "status":
		w.WriteHeader(ms)
		_, err := io.WriteString(w, "some body")
		s.note(conn, "write %v", err)
	case "close":
		w.Header().Set("Connection", "close")
		io.WriteString(w, "closing")
	case "headers":
		w.Header()["Connection"] = []string{"X-Hop"}
		w.Header().Set("X-Hop", "1")
		w.Header()["Date"] = nil
		w.Header().Add("Set-Cookie", "a=b")
		w.Header().Add("Set-Cookie", "c=d")
		w.Header().Set("Content-Length", "3")
		n, err := io.WriteString(w, "four")
		s.note(conn, "write %d %v", n, err)
	case "short":
		w.Header().Set("Content-Length", "30")
		io.WriteString(w, "four")
	case "file":
		http.ServeFile(w, r, g07File())
	case "copy":
		f, err := os.Open(g07File())
		if err != nil {
			panic(err)
		}
		defer f.Close()
		n, err := io.Copy(w, f)
		s.note(conn, "copied %d %v", n, err)
	case "gone":
		// The client goes away meanwhile.
		io.Copy(io.Discard, r.Body)
		w.(http.Flusher).Flush()
		<-r.Context().Done()
		s.note(conn, "gone: %v", context.Cause(r.Context()))
	case "deadline":
		err := rc.SetReadDeadline(time.Now().Add(-time.Second))
		_, err2 := io.ReadAll(r.Body)
		s.note(conn, "deadline %v, then %v", err, err2 != nil)
		io.WriteString(w, "late")
	case "wdeadline":
		err := rc.SetWriteDeadline(time.Now().Add(-time.Second))
		io.WriteString(w, "never")
		s.note(conn, "deadline %v, then %v", err, rc.Flush() != nil)
	case "duplex":
		err := rc.EnableFullDuplex()
		io.WriteString(w, "first;")
		rc.Flush()
		b, err2 := io.ReadAll(r.Body)
		s.note(conn, "duplex %v %d %v", err, len(b), err2)
		fmt.Fprint(w, len(b))
	case "upgrade":
		w.Header().Set("Connection", "Upgrade")
		w.Header().Set("Upgrade", "x")
		w.WriteHeader(101)
		c, brw, err := rc.Hijack()
		if err != nil {
			s.note(conn, "upgrade %v", err)
			return
		}
		l, err := brw.ReadString('\n')
		fmt.Fprintf(c, "got %s", l)
		s.note(conn, "then %q %v", l, g07Err(err))
		c.Close()
	case "max":
		r.Body = http.MaxBytesReader(w, r.Body, 20)
		_, err := io.ReadAll(r.Body)
		s.note(conn, "max %v", err)
		http.Error(w, "too much", 413)
	case "goexit":
		io.WriteString(w, "half")
		runtime.Goexit()
	default:
		http.NotFound(w, r)
	}
}

func g07Err(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "timeout"
	case errors.Is(err, syscall.ECONNRESET), errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "ended"
	}
	return err.Error()
}

// g07step is something the client sends, and whether it awaits a response.
type g07step struct {
	raw   string
	split []int // sent in pieces
	await bool
	head  bool
	slow  bool // and then nothing: the server's time limit has to end it
	leave bool // and then the client leaves
	rest  string
	extra string // sent when the response has come
}

func g07Script(r *rand.Rand, c *g07cfg) (l []g07step) {
	hdrs := func() string {
		s := "Host: " + pick(r, []string{"h", "h:80", "", "example.com", "ADDR"}) + "\r\n"
		for i := r.IntN(4); i > 0; i-- {
			s += pick(r, []string{"X-A: 1", "X-A: 2", "Cookie: a=b", "Accept: */*", "x-b:   spaced  ", "Connection: keep-alive", "Pragma: no-cache", "If-None-Match: \"x\"", "Range: bytes=5-9", "Expect: nonsense-not", "X-Empty:", "Connection: x-a"}) + "\r\n"
		}
		return strings.ReplaceAll(s, "Expect: nonsense-not\r\n", "")
	}
	n := 1 + r.IntN(4)
	for i := 0; i < n; i++ {
		st := g07step{await: true}
		op := pick(r, []string{"echo", "echo", "echo", "chunk", "early", "partial", "trailer", "info/200", "info/404", "status/204", "status/304", "status/500", "status/200", "close", "headers", "short", "file", "copy", "nothing", "panic/here", "panic/abort", "hijack", "upgrade", "deadline", "wdeadline", "duplex", "max", "malformed", "options", "pipeline", "http10", "head", "expect", "gone", "bighead", "chunked", "goexit", "connect", "absolute", "lf"})
		body := strings.Repeat("b", pick(r, []int{0, 1, 9, 10, 100, 3000, 70000}))
		bodyHdr := fmt.Sprintf("Content-Length: %d\r\n", len(body))
		switch op {
		case "echo", "early", "partial", "max", "short", "nothing", "headers", "trailer":
			m := pick(r, []string{"POST", "PUT", "POST", "FOO"})
			st.raw = m + " /" + op + pick(r, []string{"", "?q=1", "?a=%20b", "/x%2fy"}) + " HTTP/1.1\r\n" + hdrs() + bodyHdr + "\r\n" + body
		case "duplex", "deadline":
			st.raw = "POST /" + op + " HTTP/1.1\r\n" + hdrs() + "Content-Length: 100\r\n\r\n" + strings.Repeat("d", 40)
			if op == "duplex" {
				st.extra = strings.Repeat("d", 60)
			}
		case "http10":
			st.raw = "GET /" + pick(r, []string{"echo", "chunk", "close"}) + " HTTP/1.0\r\n" + pick(r, []string{"", "Connection: keep-alive\r\n", "Connection: close\r\n"}) + "X-Pad: 0123456789\r\n\r\n"
		case "head":
			st.raw, st.head = "HEAD /"+pick(r, []string{"echo", "file", "chunk", "status/404"})+" HTTP/1.1\r\n"+hdrs()+"\r\n", true
		case "options":
			st.raw = "OPTIONS * HTTP/1.1\r\n" + hdrs() + pick(r, []string{"", bodyHdr}) + "\r\n"
			if strings.Contains(st.raw, "Content-L") {
				st.raw += body
			}
		case "connect":
			st.raw = "CONNECT h:80 HTTP/1.1\r\nHost: h:80\r\n\r\n"
		case "absolute":
			st.raw = "GET http://other.example/echo?x=y HTTP/1.1\r\n" + hdrs() + "\r\n"
		case "lf":
			st.raw = "GET /echo HTTP/1.1\nHost: h\nX-Pad: 0123456789\n\n"
		case "malformed":
			st.raw = pick(r, []string{"GARBAGE WITHOUT A MEANING\r\n\r\n", "GET / HTTP/9.9\r\nHost: h\r\n\r\n", "GET /echo HTTP/1.1\r\n\r\n", "GET /echo HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n", "GET /echo HTTP/1.1\r\nHost: h\r\nBad Header: x\r\n\r\n",
				"GET /%zz HTTP/1.1\r\nHost: h\r\n\r\n", "POST /echo HTTP/1.1\r\nHost: h\r\nContent-Length: x\r\n\r\n", "POST /echo HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: gzip\r\n\r\n", "G\x00T / HTTP/1.1\r\nHost: h\r\n\r\n",
				"POST /echo HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "GET /echo HTTP/1.1\r\nHost: \xff\r\n\r\n", "\r\n\r\nGET /echo HTTP/1.1\r\nHost: h\r\n\r\n", "POST /echo HTTP/1.1\r\nHost: h\r\nExpect: whatever\r\nContent-Length: 1\r\n\r\nx",
				"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"})
			if chance(r, 0.1) && c.protocols != 2 {
				st.raw = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"
			}
			st.leave = strings.HasPrefix(st.raw, "\x16")
		case "bighead":
			st.raw = "GET /echo HTTP/1.1\r\nHost: h\r\nX-Big: " + strings.Repeat("x", pick(r, []int{500, 4000, 6000, 20000, 1100000})) + "\r\n\r\n"
		case "chunked":
			st.raw = "POST /echo HTTP/1.1\r\n" + hdrs() + "Transfer-Encoding: chunked\r\nTrailer: T\r\n\r\n5\r\nhello\r\n6;ext=1\r\n world\r\n" + pick(r, []string{"0\r\nT: v\r\n\r\n", "0\r\n\r\n", "zz\r\n"})
		case "expect":
			st.raw = "POST /" + pick(r, []string{"echo", "early"}) + " HTTP/1.1\r\n" + hdrs() + "Expect: 100-continue\r\nContent-Length: 5\r\n\r\n"
			st.extra = "12345"
		case "pipeline":
			st.raw = "GET /chunk HTTP/1.1\r\nHost: h\r\n\r\nPOST /echo HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\nabcGET /status/404 HTTP/1.1\r\nHost: h\r\n\r\n"
			l = append(l, st, g07step{await: true}, g07step{await: true})
			continue
		case "gone":
			st.raw, st.leave = "GET /gone HTTP/1.1\r\nHost: h\r\n\r\n", true
		case "hijack":
			st.raw, st.extra = "GET /hijack HTTP/1.1\r\nHost: h\r\n\r\n", "line\n"
		case "upgrade":
			st.raw, st.extra = "GET /upgrade HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: x\r\n\r\n", "line\n"
		default:
			st.raw = pick(r, []string{"GET", "GET", "DELETE", "TRACE"}) + " /" + op + " HTTP/1.1\r\n" + hdrs() + pick(r, []string{"", "", "", "Connection: close\r\n"}) + "\r\n"
		}
		if chance(r, 0.3) && len(st.raw) > 2 && len(st.raw) < 5000 {
			st.split = []int{1 + r.IntN(len(st.raw)-1)}
		}
		l = append(l, st)
		if op == "gone" || st.leave {
			break
		}
	}
	// At most one thing that takes longer than the server allows.
	switch {
	case c.slowStep == "idle" && c.idle > 0:
		l = append(l, g07step{raw: "GET /echo HTTP/1.1\r\nHost: h\r\n\r\n", await: true}, g07step{slow: true})
	case c.slowStep == "header" && (c.readHeader > 0 || c.read > 0):
		l = append(l, g07step{raw: "GET /echo HTTP/1.1\r\nHo", slow: true})
	case c.slowStep == "body" && c.read > 0:
		l = append(l, g07step{raw: "POST /echo HTTP/1.1\r\nHost: h\r\nContent-Length: 10\r\n\r\n123", await: true, slow: true})
	case c.slowStep == "write" && c.write > 0:
		l = append(l, g07step{raw: fmt.Sprintf("GET /sleep/%d HTTP/1.1\r\nHost: h\r\n\r\n", c.write.Milliseconds()+80), slow: true})
	}
	return
}

// g07Talk plays a script and tells what came back.
func g07Talk(t *T, addr string, l []g07step) (out []string, local string, err error) {
	nc, err := net.Dial("tcp", addr)
	for i := 0; err != nil && i < 200; i++ {
		time.Sleep(5 * time.Millisecond) // ListenAndServe tells nobody when it is ready
		nc, err = net.Dial("tcp", addr)
	}
	if err != nil {
		return nil, "", err
	}
	defer nc.Close()
	local = nc.LocalAddr().String()
	br := bufio.NewReader(nc)
	say := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for i, st := range l {
		raw := []byte(strings.ReplaceAll(st.raw, "ADDR", addr))
		at := 0
		for _, k := range st.split {
			nc.Write(raw[at:k])
			at = k
			time.Sleep(time.Millisecond)
		}
		if at < len(raw) {
			nc.Write(raw[at:])
		}
		if st.leave {
			if bytes.Contains(raw, []byte("/gone")) {
				b := make([]byte, 15)
				_, err := io.ReadFull(br, b)
				say("%d: %q %v, leaving", i, b, g07Err(err))
			}
			return
		}
		if !st.await && !st.slow {
			continue
		}
		nc.SetReadDeadline(time.Now().Add(20 * time.Second))
		for {
			rsp, err := http.ReadResponse(br, &http.Request{Method: map[bool]string{true: "HEAD", false: "GET"}[st.head]})
			if err != nil {
				say("%d: %s", i, g07Err(err))
				return out, local, nil
			}
			if st.extra != "" && (rsp.StatusCode == 100 || !strings.Contains(st.raw, "100-continue")) {
				io.WriteString(nc, st.extra)
			}
			var b []byte
			if rsp.StatusCode == 101 {
				b, err = io.ReadAll(br)
			} else {
				b, err = io.ReadAll(rsp.Body)
			}
			var hs []string
			for k, v := range rsp.Header {
				if k == "Date" || k == "Last-Modified" {
					v = []string{"yes"}
				}
				hs = append(hs, fmt.Sprint(k, v))
			}
			sort.Strings(hs)
			if len(b) > 200 {
				b = []byte(fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b)))
			}
			say("%d: %s %s %v len=%d te=%v close=%v %q %s trailer=%v", i, rsp.Proto, rsp.Status, hs, rsp.ContentLength, rsp.TransferEncoding, rsp.Close, b, g07Err(err), rsp.Trailer)
			if err != nil {
				return out, local, nil
			}
			if rsp.StatusCode >= 200 || rsp.StatusCode == 101 {
				break
			}
		}
		if strings.Contains(st.raw, "/hijack") {
			b, err := io.ReadAll(br)
			say("%d: then %q %v", i, b, g07Err(err))
			return out, local, nil
		}
	}
	return
}

var g07Port = regexp.MustCompile(`127\.\d+\.\d+\.\d+:\d+`)
var g07Rest = regexp.MustCompile(`(?s)(http: panic serving [^\n]*).*`)

// play starts the server, holds the conversations, and tells all about it.
func (s *g07side) play(r *rand.Rand, scripts [][]g07step, h2 int) (string, error) {
	if err := s.start(r); err != nil {
		return "", err
	}
	out, h2out := make([]string, len(scripts)), ""
	var wg sync.WaitGroup
	var failed atomic.Pointer[error]
	for i, l := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			said, local, err := g07Talk(s.t, s.addr, l)
			if err != nil {
				failed.Store(&err)
				return
			}
			// The server notices the end.
			s.mu.Lock()
			d := s.done(local)
			s.mu.Unlock()
			select {
			case <-d:
			case <-time.After(20 * time.Second):
				said = append(said, "the server never notices the end of the connection")
			}
			// The handler of a hijacked connection runs on.
			for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
				s.mu.Lock()
				n := len(s.seen[local])
				ok := true
				for k, e := range s.seen[local] {
					if strings.HasPrefix(e, "writer ") && k == n-1 {
						for _, x := range []string{"/hijack", "/upgrade", "/gone"} {
							ok = ok && !strings.Contains(s.seen[local][k-1], x)
						}
					}
				}
				s.mu.Unlock()
				if ok {
					break
				}
			}
			s.mu.Lock()
			if s.c.connState {
				said = append(said, "states "+strings.Join(s.ev[local], " "))
			}
			said = append(said, s.seen[local]...)
			s.mu.Unlock()
			out[i] = strings.Join(said, "\n")
		}()
	}
	if h2 > 0 {
		tr := &http.Transport{Protocols: new(http.Protocols), DisableCompression: true}
		tr.Protocols.SetUnencryptedHTTP2(true)
		cl := &http.Client{Transport: tr}
		var res []string
		for i := 0; i < h2; i++ {
			rsp, err := cl.Post("http://"+s.addr+"/"+[]string{"echo", "chunk", "trailer"}[i%3], "text/plain", strings.NewReader(strings.Repeat("h", 100*i)))
			if err != nil {
				res = append(res, "h2: "+strings.ReplaceAll(err.Error(), s.addr, "ADDR"))
				continue
			}
			b, err := io.ReadAll(rsp.Body)
			res = append(res, fmt.Sprintf("h2: %s %s %q %v %v", rsp.Proto, rsp.Status, b, g07Err(err), rsp.Trailer))
		}
		tr.CloseIdleConnections()
		h2out = strings.Join(res, "\n")
	}
	wg.Wait()
	ret := s.stop()
	if p := failed.Load(); p != nil {
		return "", *p
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	var lines []string
	lg := s.lg.String()
	for _, l := range regexp.MustCompile(`(?m)^http: `).Split(lg, -1)[0:] {
		l = strings.SplitN(l, "\n", 2)[0]
		l = g07Port.ReplaceAllString(l, "ADDR")
		if l != "" {
			lines = append(lines, "log: "+l)
		}
	}
	sort.Strings(lines)
	var calls []string
	for k, n := range s.calls {
		calls = append(calls, fmt.Sprint(k, n))
	}
	sort.Strings(calls)
	all := strings.Join(out, "\n--\n") + "\n" + h2out + "\n" + strings.Join(lines, "\n") + "\ncalls " + strings.Join(calls, " ") + "\nreturns " + ret
	return g07Port.ReplaceAllString(all, "ADDR"), nil
}

func g07(t *T) {
	r := t.Rng
	c := g07cfg{entry: "Serve", errorLog: chance(r, 0.5), baseCtx: chance(r, 0.4), connCtx: chance(r, 0.4), connState: chance(r, 0.7), nilHandler: chance(r, 0.2), noOpts: chance(r, 0.2), noKeep: chance(r, 0.1), protocols: r.IntN(4)}
	if chance(r, 0.03) {
		c.entry = "ListenAndServe"
	}
	if chance(r, 0.3) {
		c.maxHeader = pick(r, []int{1, 1000, 5000, 100000})
	}
	d := pick(r, []time.Duration{40, 80, 150}) * time.Millisecond
	if chance(r, 0.35) {
		c.slowStep = pick(r, []string{"idle", "header", "body", "write"})
		switch c.slowStep {
		case "idle":
			c.idle = d
		case "header":
			if chance(r, 0.5) {
				c.readHeader = d
			} else {
				c.read = d
			}
		case "body":
			c.read = d
		case "write":
			c.write = d
		}
	} else {
		for _, p := range []*time.Duration{&c.read, &c.readHeader, &c.write, &c.idle} {
			if chance(r, 0.3) {
				*p = time.Hour
			}
		}
	}
	var scripts [][]g07step
	for i := 1 + r.IntN(3); i > 0; i-- {
		scripts = append(scripts, g07Script(r, &c))
	}
	h2 := 0
	if c.protocols == 2 && c.slowStep == "" {
		h2 = r.IntN(4)
	}
	t.Desc(func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "%s h2=%d\n", c, h2)
		for _, s := range scripts {
			for _, st := range s {
				fmt.Fprintf(&b, "  %q split %v slow %v\n", clip(st.raw, 300), st.split, st.slow)
			}
		}
		return b.String()
	})
	run := func(who string, k int) (string, bool) {
		a, err := g07Listen(r)
		if err != nil {
			t.m.Inconclusive("%v", err)
			return "", false
		}
		s := &g07side{t: t, c: c, who: who, addr: a}
		out, err := s.play(r, scripts, h2)
		if err != nil {
			if k == 4 {
				t.m.Inconclusive("%s: %v", who, err)
			}
			return "", false
		}
		return out, true
	}
	var want, got []string
	for k := 0; k < 5; k++ {
		if k > 0 {
			// Time limits are a matter of scheduling, and then both kinds of server
			// give several answers.
			t.Count("repetitions", 1)
			time.Sleep(time.Duration(k*20) * time.Millisecond)
		}
		w, ok1 := run("net/http", k)
		g, ok2 := run("graceful", k)
		if !ok1 || !ok2 {
			continue
		}
		want, got = append(want, w), append(got, g)
		if l := g07Std.take(); l != "" {
			t.Fail("package graceful serves and logs %s", clip(l, 400))
		}
		for _, w := range want {
			for _, g := range got {
				if w == g {
					t.Count("responses", int64(strings.Count(g, " HTTP/")))
					t.Count("requests handled", int64(strings.Count(g, "\nwriter ")))
					t.Count("state changes", int64(strings.Count(g, "active")))
					t.Saw(c.String() + g)
					t.Sample(func() any { return clip(g, 600) })
					return
				}
			}
		}
	}
	if len(got) < 5 {
		return
	}
	t.Fail("package graceful serves differently from net/http:\n%s", g07Diff(want[4], got[4]))
}

// g07Log collects what is logged that net/http would not log.
type g07Log struct {
	mu sync.Mutex
	b  strings.Builder
}

var g07Std g07Log

func (l *g07Log) Write(p []byte) (int, error) {
	if !bytes.HasPrefix(p, []byte("http")) {
		l.mu.Lock()
		l.b.Write(p)
		l.mu.Unlock()
	}
	return len(p), nil
}

func (l *g07Log) take() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	l.b.Reset()
	return s
}

func g07Diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; ; i++ {
		if i >= len(la) || i >= len(lb) || la[i] != lb[i] {
			f := func(l []string) string {
				if i < len(l) {
					return clip(strings.Join(l[i:min(i+3, len(l))], "\n    "), 1500)
				}
				return "(nothing)"
			}
			return fmt.Sprintf("  net/http:\n    %s\n  graceful:\n    %s", f(la), f(lb))
		}
	}
}

// g07KeepAlive looks at the sockets of accepted connections.
func g07KeepAlive(t *T) {
	r := t.Rng
	lc := net.ListenConfig{KeepAlive: -1, KeepAliveConfig: net.KeepAliveConfig{}}
	a, err := g07Listen(r)
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	entry := pick(r, []string{"graceful.Serve", "graceful.ListenAndServe"})
	t.Desc(func() string { return entry })
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "ok") })
	ret := make(chan error, 1)
	var l net.Listener
	if entry == "graceful.Serve" {
		l, err = lc.Listen(context.Background(), "tcp", a)
		if err != nil {
			t.m.Inconclusive("%v", err)
			return
		}
		go func() { ret <- graceful.Serve(l, h) }()
	} else {
		go func() { ret <- graceful.ListenAndServe(a, h) }()
	}
	for i := 1 + r.IntN(3); i > 0; i-- {
		nc, err := net.Dial("tcp", a)
		for k := 0; err != nil && k < 400; k++ {
			time.Sleep(5 * time.Millisecond)
			nc, err = net.Dial("tcp", a)
		}
		if err != nil {
			t.m.Inconclusive("%v", err)
			return
		}
		fmt.Fprintf(nc, "GET / HTTP/1.1\r\nHost: h\r\n\r\n")
		rsp, err := http.ReadResponse(bufio.NewReader(nc), nil)
		if err != nil || rsp.StatusCode != 200 {
			nc.Close()
			select {
			case e := <-ret:
				if errors.Is(e, syscall.EADDRINUSE) {
					t.Count("address taken by another process", 1)
					return
				}
				t.Fail("%s: no response: %v; it returned %v", entry, err, e)
			case <-time.After(time.Second):
				t.Fail("%s: no response: %v", entry, err)
			}
			return
		}
		// The server's end is one of this process's descriptors.
		on, found := false, false
		want := nc.LocalAddr().(*net.TCPAddr)
		ents, _ := os.ReadDir("/proc/self/fd")
		for _, e := range ents {
			fd, _ := strconv.Atoi(e.Name())
			p, err := syscall.Getpeername(fd)
			if err != nil {
				continue
			}
			if s4, ok := p.(*syscall.SockaddrInet4); ok && s4.Port == want.Port && net.IP(s4.Addr[:]).Equal(want.IP) {
				v, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE)
				if err == nil {
					found, on = true, v != 0
				}
			}
		}
		nc.Close()
		if !found {
			t.m.Inconclusive("the server's socket was not found")
			return
		}
		if !on {
			t.Fail("%s: keep-alives are not enabled on an accepted connection", entry)
			return
		}
		t.Count("sockets looked at", 1)
	}
	t.Saw(entry + a)
	if l != nil {
		l.Close()
		<-ret
	}
}

// g07Start compares how servers fail to start.
func g07Start(t *T) {
	r := t.Rng
	a, err := g07Listen(r)
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	l, err := net.Listen("tcp", a)
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	defer l.Close()
	if t.Index < 2 {
		// The default ports, if they can be occupied first.
		port := []string{":80", ":443"}[t.Index]
		l, err := net.Listen("tcp", port)
		if err != nil {
			t.Count("default port not available", 1)
			return
		}
		defer l.Close()
		dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "g07")
		if err != nil {
			t.m.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		c, k := writePair(dir, newCA("g07").issue("h", time.Now().Add(-time.Hour), time.Now().Add(time.Hour)))
		_, want := net.Listen("tcp", port)
		res := make(chan error, 2)
		if port == ":80" {
			go func() { res <- (&graceful.Server{}).ListenAndServe() }()
			go func() { res <- graceful.ListenAndServe("", nil) }()
		} else {
			go func() { res <- (&graceful.Server{}).ListenAndServeTLS(c, k) }()
			go func() { res <- graceful.ListenAndServeTLS("", c, k, nil) }()
		}
		for i := 0; i < 2; i++ {
			select {
			case err := <-res:
				if fmt.Sprint(err) != fmt.Sprint(want) {
					t.Fail("without an address, a server is started on the default port, which is taken: %v; expected %v", err, want)
				}
			case <-time.After(time.Minute):
				t.Fail("without an address, a server is started somewhere else than on port %s", port)
			}
		}
		t.Saw(port)
		return
	}
	addr := pick(r, []string{a, "nonsense", "127.0.0.1:notaport", "127.0.0.1:99999", "[::1", "192.0.2.77:80", ":::"})
	tls := chance(r, 0.5)
	cert := pick(r, []string{"/nonexistent", "/dev/null"})
	t.Desc(func() string { return fmt.Sprint(addr, tls, cert) })
	call := func(f func() error) string {
		c := make(chan error, 1)
		go func() { c <- f() }()
		select {
		case err := <-c:
			return fmt.Sprint(err)
		case <-time.After(time.Minute):
			return "nothing for a minute"
		}
	}
	h := http.NotFoundHandler()
	var want string
	var got []string
	if !tls {
		want = call(func() error { return (&http.Server{Addr: addr, Handler: h}).ListenAndServe() })
		got = append(got, call(func() error { return (&graceful.Server{Addr: addr, Handler: h}).ListenAndServe() }), call(func() error { return graceful.ListenAndServe(addr, h) }))
		for _, g := range got {
			if g != want {
				t.Fail("ListenAndServe on %q returns %q instead of %q", addr, g, want)
			}
		}
	} else {
		// Here the order of complaints differs, but there must be one.
		got = append(got, call(func() error { return (&graceful.Server{Addr: addr, Handler: h}).ListenAndServeTLS(cert, cert) }), call(func() error { return graceful.ListenAndServeTLS(addr, cert, cert, h) }))
		for _, g := range got {
			if g == "<nil>" || g == "nothing for a minute" {
				t.Fail("ListenAndServeTLS on %q with unusable certificates %q returns %q", addr, cert, g)
			}
		}
	}
	t.Saw(addr + fmt.Sprint(tls, cert))
}

// g07Endure asks much of one server: many requests on a connection, many bytes
// in a body or many connections at the same time.
func g07Endure(t *T) {
	r := t.Rng
	a, err := g07Listen(r)
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	l, err := net.Listen("tcp", a)
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	kind := []string{"requests", "down", "up", "connections", "copied down"}[t.Index%5]
	n := 1 + r.IntN(1<<(6+r.IntN(9))) // requests
	size := int64(1) << (20 + r.IntN(9))
	size += r.Int64N(size)
	if t.Index < 5 {
		n, size = 10000+r.IntN(1000), 1<<28+size
	}
	if kind == "connections" {
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
		n = 1 + n%int(min(lim.Cur/12, 1500))
	}
	t.Desc(func() string { return fmt.Sprint(kind, " ", n, " ", size) })
	var in atomic.Int64
	all, give := make(chan struct{}), make(chan struct{})
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch r.URL.Path {
		case "/n":
			b, _ := io.ReadAll(r.Body)
			fmt.Fprintf(w, "%s %s", r.URL.RawQuery, b)
		case "/down":
			for left := size; left > 0; {
				n, err := w.Write(zeroes[:min(left, 1<<20)])
				if left -= int64(n); err != nil {
					return
				}
			}
		case "/copied down":
			w.Header().Set("Content-Length", fmt.Sprint(size))
			io.Copy(w, &zeroSrc{left: size})
		case "/up":
			n, err := io.Copy(io.Discard, r.Body)
			fmt.Fprint(w, n, err)
		case "/all":
			if in.Add(1) == int64(n) {
				close(all)
			}
			select {
			case <-all:
			case <-give:
			}
			io.WriteString(w, r.URL.RawQuery)
		}
	})
	ret := make(chan error, 1)
	go func() {
		if t.Index%2 == 0 {
			ret <- graceful.Serve(l, h)
		} else {
			ret <- (&graceful.Server{Handler: h}).Serve(l)
		}
	}()
	defer func() {
		l.Close()
		<-ret
	}()
	tr := &http.Transport{MaxIdleConnsPerHost: 2, MaxConnsPerHost: map[bool]int{true: 0, false: 1}[kind == "connections"]}
	defer tr.CloseIdleConnections()
	var dials atomic.Int64
	tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		dials.Add(1)
		return (&net.Dialer{}).DialContext(ctx, network, addr)
	}
	cl := &http.Client{Transport: tr}
	url := "http://" + a
	get := func(path string) (int64, string, error) {
		rsp, err := cl.Get(url + path)
		if err != nil {
			return 0, "", err
		}
		defer rsp.Body.Close()
		var b strings.Builder
		n, err := io.Copy(&limited{&b}, rsp.Body)
		return n, b.String(), err
	}
	switch kind {
	case "requests":
		for i := 0; i < n; i++ {
			var got string
			body := ""
			rsp, err := cl.Post(fmt.Sprintf("%s/n?%d", url, i), "text/plain", strings.NewReader(strings.Repeat("x", i%40)))
			if err == nil {
				var b []byte
				b, err = io.ReadAll(rsp.Body)
				rsp.Body.Close()
				got = string(b)
			}
			body = fmt.Sprintf("%d %s", i, strings.Repeat("x", i%40))
			if err != nil || got != body {
				t.Fail("request %d on a connection gets %q, %v", i, clip(got, 100), err)
				return
			}
		}
		if d := dials.Load(); d != 1 {
			t.Fail("%d requests of one client needed %d connections", n, d)
		}
		t.Count("requests on one connection", int64(n))
	case "down", "copied down":
		got, _, err := get("/" + strings.ReplaceAll(kind, " ", "%20"))
		if got != size || err != nil {
			t.Fail("a response of %d bytes arrives as %d, %v", size, got, err)
		}
		t.Count("bytes", got)
	case "up":
		rsp, err := cl.Post(url+"/up", "text/plain", &zeroSrc{left: size})
		got := ""
		if err == nil {
			b, _ := io.ReadAll(rsp.Body)
			rsp.Body.Close()
			got = string(b)
		}
		if got != fmt.Sprint(size, error(nil)) {
			t.Fail("a request of %d bytes arrives as %q, %v", size, got, err)
		}
		t.Count("bytes", size)
	case "connections":
		var wg sync.WaitGroup
		var bad atomic.Value
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, got, err := get(fmt.Sprintf("/all?%d", i)); got != fmt.Sprint(i) || err != nil {
					bad.Store(fmt.Sprintf("request %d gets %q, %v", i, got, err))
				}
			}()
		}
		select {
		case <-all:
		case <-time.After(90 * time.Second):
			t.Fail("of %d requests at the same time only %d have reached their handlers", n, in.Load())
			close(give)
		}
		wg.Wait()
		if s := bad.Load(); s != nil {
			t.Fail("%d connections at the same time: %s", n, s)
		}
		t.Count("connections at the same time", int64(n))
	}
	t.Saw(fmt.Sprint(kind, n, size))
}

// limited keeps the beginning of what it gets.
type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1000 {
		l.b.Write(p[:min(len(p), 1000)])
	}
	return len(p), nil
}
