package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/textproto"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"math/rand/v2"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

func init() {
	props["B02/main"] = prop{"the same random application (routes, nested muxes, not-found handlers and handlers answering in every way) with and without the middleware, answering the same requests; what the client receives is compared, on a recorder and through a real server. A request is trivial if its method is not OPTIONS.", runB02}
}

// An op is one thing a handler does to its response.
type rop struct {
	kind string // "set", "add", "del", "status", "write"
	k, v string
	code int
}

func (o rop) String() string {
	switch o.kind {
	case "status":
		return fmt.Sprint("WriteHeader(", o.code, ")")
	case "write":
		return fmt.Sprintf("Write(%d)", len(o.v))
	}
	return fmt.Sprintf("%s(%s: %s)", o.kind, o.k, o.v)
}

func randScript(r *rand.Rand) (l []rop) {
	for n := r.IntN(3); n > 0; n-- {
		switch r.IntN(5) {
		case 0:
			l = append(l, rop{kind: "set", k: "X-A", v: pick(r, []string{"1", "2"})})
		case 1:
			l = append(l, rop{kind: "add", k: "X-A", v: "more"})
		case 2:
			l = append(l, rop{kind: "set", k: "Allow", v: pick(r, []string{"GET", "FOO, BAR", "OPTIONS"})})
		case 3:
			l = append(l, rop{kind: "set", k: "Content-Type", v: "text/x-test"})
		case 4:
			l = append(l, rop{kind: "status", code: 103})
		}
	}
	body := ""
	if chance(r, 0.75) {
		body = pick(r, []string{"x", "404 page not found\n", strings.Repeat("body", 300), strings.Repeat("z", 5000), "some text"})
	}
	switch x := r.IntN(12); {
	case x < 5:
		l = append(l, rop{kind: "status", code: 404})
	case x < 6:
		l = append(l, rop{kind: "status", code: 200})
	case x < 8:
		l = append(l, rop{kind: "status", code: pick(r, []int{201, 204, 301, 304, 400, 401, 403, 405, 410, 500, 503})})
	case x < 9:
		l = append(l, rop{kind: "status", code: 404})
		l = append(l, rop{kind: "status", code: 200})
	case x < 10:
		l = append(l, rop{kind: "status", code: 200})
		l = append(l, rop{kind: "status", code: 404})
	}
	for body != "" {
		n := len(body)
		if chance(r, 0.4) {
			n = 1 + r.IntN(n)
		}
		l = append(l, rop{kind: "write", v: body[:n]})
		body = body[n:]
		if chance(r, 0.1) {
			l = append(l, rop{kind: "status", code: 404})
		}
		if chance(r, 0.1) {
			l = append(l, rop{kind: "set", k: "X-Late", v: "1"})
		}
	}
	if chance(r, 0.2) {
		total := 0
		for _, o := range l {
			if o.kind == "write" {
				total += len(o.v)
			}
		}
		l = append([]rop{{kind: "set", k: "Content-Length", v: strconv.Itoa(total)}}, l...)
	}
	return
}

// script404 tells whether the script's final status is an explicit 404.
func script404(l []rop) bool {
	for _, o := range l {
		switch {
		case o.kind == "status" && o.code >= 200:
			return o.code == 404
		case o.kind == "write":
			return false
		}
	}
	return false
}

// recResp is a recorder that follows net/http's rules.
type recResp struct {
	h     http.Header
	code  int
	sent  http.Header
	body  []byte
	infos []int
	log   []string
}

func (w *recResp) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *recResp) WriteHeader(c int) {
	if w.code != 0 {
		return
	}
	if c >= 100 && c < 200 && c != 101 {
		w.infos = append(w.infos, c)
		return
	}
	w.code = c
	w.sent = w.Header().Clone()
}
func (w *recResp) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	if w.code == 204 || w.code == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

type cresp struct {
	code   int
	h      http.Header
	body   string
	infos  []int
	err    string
	closed bool
}

func (c *cresp) String() string {
	b := c.body
	if len(b) > 60 {
		b = fmt.Sprintf("%s...(%d)", b[:60], len(b))
	}
	return fmt.Sprintf("%v %d %v body %q err %q", c.infos, c.code, c.h, b, c.err)
}

// caseServer dispatches to the handler registered for the X-Case header.
type caseServer struct {
	m      sync.Map
	addr   string
	scheme string
	cl     *http.Client
	tr     *http.Transport
}

func newCaseServer() *caseServer {
	s := &caseServer{scheme: "http"}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.addr = l.Addr().String()
	s.tr = &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16}
	s.cl = &http.Client{Transport: s.tr, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	go (&http.Server{Handler: s}).Serve(l)
	return s
}

func (s *caseServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	x, _ := s.m.Load(r.Header.Get("X-Case"))
	c := x.(*srvCase)
	c.mu.Lock()
	c.running++
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		c.running--
		c.mu.Unlock()
	}()
	r.Header.Del("X-Case")
	c.h.ServeHTTP(w, r)
}

// srvCase is a registered handler. The client may have its whole response
// before the handler is done.
type srvCase struct {
	h       http.Handler
	mu      sync.Mutex
	running int
}

func (c *srvCase) wait() {
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Microsecond) {
		c.mu.Lock()
		n := c.running
		c.mu.Unlock()
		if n == 0 {
			return
		}
	}
}

// do sends one request and returns everything the client receives.
func (s *caseServer) do(t *T, name string, h http.Handler, method, path string, hdr http.Header) *cresp {
	sc := &srvCase{h: h}
	s.m.Store(name, sc)
	defer s.m.Delete(name)
	defer sc.wait()
	req, err := http.NewRequest(method, s.scheme+"://"+s.addr+path, nil)
	if err != nil {
		panic(err)
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	req.Header.Set("X-Case", name)
	c := &cresp{}
	req = req.WithContext(httptrace.WithClientTrace(context.Background(), &httptrace.ClientTrace{
		Got1xxResponse: func(code int, h textproto.MIMEHeader) error { c.infos = append(c.infos, code); return nil },
	}))
	resp, err := s.cl.Do(req)
	if err != nil {
		c.err = "request: " + stripAddr(err.Error())
		return c
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		c.err = "body: " + stripAddr(err.Error())
	}
	c.code, c.h, c.body = resp.StatusCode, resp.Header, string(b)
	c.h.Del("Date")
	return c
}

func stripAddr(s string) string {
	if i := strings.LastIndex(s, ": "); i >= 0 {
		return s[i+2:]
	}
	return s
}

func randSimplePath(r *rand.Rand) string {
	return pick(r, []string{"/a", "/b", "/a/b", "/a/c", "/sub/a", "/sub/b", "/sub/x/y", "/zzz", "/"})
}

func runB02(m *M) {
	srv := newCaseServer()
	one := func(t *T, real bool) {
		r := t.Rng
		var desc []string
		t.Desc(func() string { return strings.Join(desc, "\n") })
		type rt struct {
			g      reg
			p      string
			nested bool
			script []rop
		}
		mkRoutes := func(n int, nested bool) (l []rt) {
			for i := 0; i < n; i++ {
				x := rt{g: regs[r.IntN(len(regs))], p: pick(r, []string{"/a", "/b", "/a/b", "/:x", "/a/:y", "/x/*", "/a/*", "*"}), script: randScript(r)}
				if chance(r, 0.6) {
					x.g = regs[1+r.IntN(len(regs)-1)]
				}
				l = append(l, x)
			}
			return
		}
		outer := mkRoutes(1+r.IntN(5), false)
		inner := mkRoutes(1+r.IntN(4), true)
		useNested := chance(r, 0.4)
		if useNested {
			g := regs[0]
			if chance(r, 0.3) {
				g = pick(r, regs)
			}
			outer = append(outer, rt{g: g, p: "/sub/*", nested: true})
		}
		nfO, nfI := randScript(r), randScript(r)
		customO, customI := chance(r, 0.7), chance(r, 0.7)
		envInit := useNested || chance(r, 0.5)
		useRouter, lateRouter := chance(r, 0.25), chance(r, 0.5)
		filter := -1 // a layer inside that answers itself
		var filterScript []rop
		if chance(r, 0.1) {
			filter, filterScript = r.IntN(2), randScript(r)
		}
		var results []string // of the handlers' writes
		play := func(l []rop) http.HandlerFunc {
			return func(w http.ResponseWriter, r *http.Request) {
				for _, o := range l {
					switch o.kind {
					case "set":
						w.Header().Set(o.k, o.v)
					case "add":
						w.Header().Add(o.k, o.v)
					case "status":
						w.WriteHeader(o.code)
					case "write":
						n, err := w.Write([]byte(o.v))
						results = append(results, fmt.Sprint(n, "/", len(o.v), " ", err))
					}
				}
			}
		}
		build := func(auto bool) *web.Mux {
			mux, sub := web.New(), web.New()
			if envInit {
				mux.Use(middleware.EnvInit)
			}
			if useRouter && !lateRouter {
				mux.Use(mux.Router)
			}
			if auto {
				mux.Use(middleware.AutomaticOptions)
			}
			if filter >= 0 {
				mux.Use(func(h http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						if r.URL.Path == "/a" {
							play(filterScript)(w, r)
							return
						}
						h.ServeHTTP(w, r)
					})
				})
			}
			if useRouter && lateRouter {
				mux.Use(mux.Router)
			}
			sub.Use(middleware.SubRouter)
			for _, x := range inner {
				x.g.call(sub, x.p, play(x.script))
			}
			if customI {
				sub.NotFound(play(nfI))
			}
			for _, x := range outer {
				if x.nested {
					x.g.call(mux, x.p, sub)
				} else {
					x.g.call(mux, x.p, play(x.script))
				}
			}
			if customO {
				mux.NotFound(play(nfO))
			}
			return mux
		}
		for i, l := range [][]rt{outer, inner} {
			if i == 1 && !useNested {
				break
			}
			for _, x := range l {
				desc = append(desc, fmt.Sprintf("%s %s %s nested=%v %v", []string{"outer", "inner"}[i], x.g.name, x.p, x.nested, x.script))
			}
		}
		desc = append(desc, fmt.Sprint("not found: ", customO, nfO, " ", customI, nfI, " router ", useRouter, lateRouter, " filter ", filter, filterScript))
		with, without := build(true), build(false)
		// Which methods is path routable with, and does OPTIONS select a route?
		find := func(l []rt, method, path string) *rt {
			for i, x := range l {
				toks, wild := parseStr(x.p)
				if ok, _ := matchStr(toks, wild, path); ok && x.g.has(method) {
					return &l[i]
				}
			}
			return nil
		}
		methodsOf := func(l []rt, path string) (v []string) {
			for _, s := range stdMethods {
				if find(l, s, path) != nil {
					v = append(v, s)
				}
			}
			return
		}
		n := len(desc)
		for k := 0; k < 5; k++ {
			method, path := "OPTIONS", randSimplePath(r)
			if chance(r, 0.25) {
				method = pick(r, stdMethods[1:8])
			}
			if !real && chance(r, 0.06) {
				path = pick(r, []string{"*", "", "/a\x00", "/%2a"})
			}
			desc = append(desc[:n], fmt.Sprintf("%s %s real=%v", method, path, real))
			// The final handler's script and the routable methods it failed on.
			var script []rop
			var valid []string
			custom := true
			routed := useRouter && !lateRouter // before the filter
			if filter >= 0 && path == "/a" {
				script = filterScript
				if routed && find(outer, method, path) == nil {
					valid = methodsOf(outer, path)
				}
			} else if x := find(outer, method, path); x == nil {
				valid = methodsOf(outer, path)
				script, custom = nfO, customO
			} else if !x.nested {
				script = x.script
			} else if y := find(inner, method, strings.TrimPrefix(path, "/sub")); y == nil {
				valid = methodsOf(inner, strings.TrimPrefix(path, "/sub"))
				script, custom = nfI, customI
			} else {
				script = y.script
			}
			is404 := script404(script) || !custom
			expectAuto := method == "OPTIONS" && is404 && len(valid) > 0
			var a, b *cresp
			if real {
				a = srv.do(t, fmt.Sprint(t.Index, "a"), with, method, path, nil)
				b = srv.do(t, fmt.Sprint(t.Index, "b"), without, method, path, nil)
			} else {
				rseed := r.Uint64()
				do := func(h http.Handler) *cresp {
					w := &recResp{}
					h.ServeHTTP(w, spice(rand.New(rand.NewPCG(rseed, 1)), newReq(method, path)))
					w.WriteHeader(200)
					return &cresp{code: w.code, h: w.sent, body: string(w.body), infos: w.infos}
				}
				results = nil
				a = do(with)
				ra := results
				results = nil
				b = do(without)
				// The handler cannot tell either.
				if !expectAuto && fmt.Sprint(ra) != fmt.Sprint(results) {
					t.Fail("with the middleware the handler's writes return %q instead of %q", ra, results)
				}
				for _, s := range ra {
					if x, y, ok := strings.Cut(strings.TrimSuffix(s, " <nil>"), "/"); expectAuto && (!ok || x != y) {
						t.Fail("the handler's write of the body that is dropped returns %q", s)
					}
				}
			}
			if expectAuto {
				allow := a.h.Values("Allow")
				var got []string
				if len(allow) == 1 {
					got = strings.Split(allow[0], ", ")
				}
				want := append([]string{}, valid...)
				has := false
				for _, v := range valid {
					has = has || v == "OPTIONS"
				}
				if !has {
					want = append(want, "OPTIONS")
				}
				sort.Strings(got)
				sort.Strings(want)
				if a.code != 200 || a.body != "" || a.err != "" || fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fail("an OPTIONS request routable with %v was answered with %v", valid, a)
				}
				if cl := a.h.Get("Content-Length"); cl != "" && cl != "0" {
					t.Fail("the answer has no body but Content-Length %s", cl)
				}
			} else if a.String() != b.String() || a.body != b.body {
				t.Fail("with the middleware the client receives\n%v\ninstead of\n%v", a, b)
			}
			key := ""
			if method == "OPTIONS" {
				key = fmt.Sprint(a, script, valid, real)
			}
			t.Saw(key)
			if expectAuto {
				t.Count("answered automatically", 1)
			}
			t.Sample(func() any { return desc[n] + " -> " + a.String() })
		}
	}
	m.Run("recorder", m.N(15000, 400000), func(t *T) { one(t, false) })
	m.Run("server", m.N(700, 20000), func(t *T) { one(t, true) })
}
