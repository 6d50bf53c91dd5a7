S = []
def b(id, prop, needs, breaks, edits, demo, **kw):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

H = '''
package main

import (
%s
	"net/http"
	"github.com/zenazn/goji/web"
)
'''
def imp0(*l): return imp(*l).replace('\t"net/http"\n', "")
def imp1(*l): return imp(*l).replace('\t"github.com/zenazn/goji/web"\n', "")
def imp(*l): return H % "\n".join('\t"%s"' % x for x in l)
MW = "github.com/zenazn/goji/web/middleware"
MU = "github.com/zenazn/goji/web/mutil"

TAG = '''
func tag(s string) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, s); h.ServeHTTP(w, r) })
	}
}
'''
b("m01-generation-wrap", "M01", "exactly 256 edits of the middleware stack between two requests",
  "requests run through a pooled stack from before the edits",
  [("web/middleware.go", "	pool   *cPool\n	router internalRouter\n", "	pool   *cPool\n	gen    uint8\n	router internalRouter\n"),
   ("web/middleware.go", "	m    http.Handler\n	pool *cPool\n", "	m    http.Handler\n	gen  uint8\n	pool *cPool\n"),
   ("web/middleware.go", "	m.pool = makeCPool()\n}", "	// Stacks of older generations are dropped when they are next seen.\n	m.gen++\n}"),
   ("web/middleware.go", "	cs := p.alloc()\n	if cs == nil {\n		cs = m.newStack()\n	}\n", "	cs := p.alloc()\n	if cs == nil || cs.gen != m.gen {\n		cs = m.newStack()\n		cs.gen = m.gen\n	}\n"),
   ("web/middleware.go", "	if cs.pool != m.pool {\n		return\n	}", "	if cs.gen != m.gen {\n		return\n	}")],
  imp("io") + TAG + '''
func main() {
	m := web.New()
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, ".") })
	old := tag("old")
	m.Use(old)
	for i := 0; i < 64; i++ {
		ask(m, "GET", "/")
	}
	for i := 0; i < 128; i++ {
		must(m.Abandon(old))
		old = tag("new")
		m.Use(old)
	}
	for i := 0; i < 64; i++ {
		if got := ask(m, "GET", "/").Body.String(); got != "new." {
			fail("layers %q", got)
		}
	}
}
''')
b("m01-last-layer", "M01", "the same middleware twice in one stack, with something in between",
  "Insert and Abandon act on the innermost instance instead of the outermost",
  [("web/middleware.go", '''	for i, middleware := range m.stack {
		if funcEqual(l, middleware.orig) {
			return i
		}
	}
''', '''	for i := len(m.stack) - 1; i >= 0; i-- {
		if funcEqual(l, m.stack[i].orig) {
			return i
		}
	}
''')], imp("io") + TAG + '''
func main() {
	m := web.New()
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, ".") })
	a, bb, c := tag("a"), tag("b"), tag("c")
	m.Use(a)
	m.Use(bb)
	m.Use(a)
	must(m.Insert(c, a))
	if got := ask(m, "GET", "/").Body.String(); got != "caba." {
		fail("layers %q", got)
	}
	must(m.Abandon(a))
	if got := ask(m, "GET", "/").Body.String(); got != "cba." {
		fail("layers %q", got)
	}
}
''')
b("m01-early-release", "M01", "a request that edits its own mux's stack, or one served while its mux is edited by a layer",
  "a stack from before the edit goes back into the pool of the edited one, and serves later requests",
  [("web/middleware.go", '''	if cs.pool != m.pool {
		return
	}
	p := cs.pool
	cs.pool = nil
	p.release(cs)''', '''	cs.pool = nil
	m.pool.release(cs)''')], imp("io") + TAG + '''
func main() {
	for i := 0; i < 50; i++ {
		m := web.New()
		first := true
		m.Use(func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if first {
					first = false
					m.Use(tag("late"))
				}
				h.ServeHTTP(w, r)
			})
		})
		m.Get("/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, ".") })
		ask(m, "GET", "/")
		for i := 0; i < 3; i++ {
			if got := ask(m, "GET", "/").Body.String(); got != "late." {
				fail("layers %q", got)
			}
		}
	}
}
''')
b("m02-hot-slot", "M02", "two requests taking a middleware stack at the same instant",
  "concurrent requests share one stack and so each other's context",
  [("web/middleware.go", "	pool   *cPool\n	router internalRouter\n", "	pool   *cPool\n	hot    *cStack // the stack released last\n	router internalRouter\n"),
   ("web/middleware.go", "	m.pool = makeCPool()\n}", "	m.pool = makeCPool()\n	m.hot = nil\n}"),
   ("web/middleware.go", "	cs := p.alloc()\n	if cs == nil {\n", "	cs := m.hot\n	m.hot = nil\n	if cs == nil {\n		cs = p.alloc()\n	}\n	if cs == nil {\n"),
   ("web/middleware.go", "	cs.pool = nil\n	p.release(cs)", "	cs.pool = nil\n	if m.hot == nil {\n		m.hot = cs\n		return\n	}\n	p.release(cs)")],
  imp("fmt", "sync") + '''
func main() {
	m := web.New()
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			c.Env = map[interface{}]interface{}{"id": r.Header.Get("Id")}
			h.ServeHTTP(w, r)
			if fmt.Sprint(c.Env["id"]) != r.Header.Get("Id") {
				fail("request %s sees %v", r.Header.Get("Id"), c.Env)
			}
		})
	})
	m.Get("/:x", func(c web.C, w http.ResponseWriter, r *http.Request) {
		if fmt.Sprint(c.Env["id"]) != r.Header.Get("Id") {
			fail("request %s sees %v", r.Header.Get("Id"), c.Env)
		}
	})
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60000; i++ {
				ask(m, "GET", "/x", "Id", fmt.Sprint(g, i))
			}
		}()
	}
	wg.Wait()
}
''', race=True)
b("m02-pooled-params", "M02", "a request in progress while another one with parameters is served by the same pattern",
  "URL parameters of a request change while it is being handled",
  [("web/string_pattern.go", '''	if c.URLParams == nil {
		c.URLParams = matches
	} else {''', '''	if c.URLParams == nil {
		c.URLParams = matches
		if len(matches) == 1 && s.wildcard {
			// By far the most common case for sub-routers.
			if s.tails == nil {
				return true
			}
			for k := range s.tails {
				delete(s.tails, k)
			}
			for k, v := range matches {
				s.tails[k] = v
			}
			c.URLParams = s.tails
		}
	} else {'''),
   ("web/string_pattern.go", "	wildcard bool\n", "	wildcard bool\n	tails    map[string]string\n"),
   ("web/string_pattern.go", "		wildcard: wildcard,\n	}", "		wildcard: wildcard,\n		tails:    make(map[string]string, 1),\n	}")],
  imp() + '''
func main() {
	m := web.New()
	m.Get("/files/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/files/a" {
			ask(m, "GET", "/files/b")
			if c.URLParams["*"] != "/a" {
				fail("parameters %v", c.URLParams)
			}
		}
	})
	ask(m, "GET", "/files/a")
}
''')
b("m03-copy-env", "M03", "a nested mux that changes an environment its parent had already allocated",
  "changes made to the environment inside a nested mux are lost",
  [("web/middleware.go", '''func (s *cStack) ServeHTTPC(c C, w http.ResponseWriter, r *http.Request) {
	s.C = c
''', '''func (s *cStack) ServeHTTPC(c C, w http.ResponseWriter, r *http.Request) {
	s.C = C{URLParams: c.URLParams}
	if c.Env != nil {
		s.C.Env = make(map[interface{}]interface{}, len(c.Env))
		for k, v := range c.Env {
			s.C.Env[k] = v
		}
	}
''')], imp("fmt", MW) + '''
func main() {
	m, sub := web.New(), web.New()
	m.Use(middleware.EnvInit)
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h.ServeHTTP(w, r)
			if fmt.Sprint(c.Env["user"]) != "me" {
				fail("environment %v", c.Env)
			}
		})
	})
	m.Handle("/*", sub)
	sub.Get("/a", func(c web.C, w http.ResponseWriter, r *http.Request) { c.Env["user"] = "me" })
	ask(m, "GET", "/a")
}
''')
b("m03-func-context", "M03", "a context-aware function used as a plain net/http handler inside a mux",
  "it is given the last context it was called with instead of an empty one",
  [("web/web.go", '''func (h HandlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h(C{}, w, r)
}''', '''func (h HandlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	h(emptyC, w, r)
}

var emptyC = C{URLParams: map[string]string{}, Env: map[interface{}]interface{}{}}''')],
  imp() + '''
func main() {
	h := web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) {
		if len(c.Env) != 0 {
			fail("environment %v", c.Env)
		}
		if c.Env != nil {
			c.Env["x"] = r.URL.Path
		}
	})
	for i := 0; i < 3; i++ {
		ask(h, "GET", "/")
	}
}
''')
b("b01-no-defer", "B01", "a panic below a sub-router that is recovered above it",
  "the parent sees the child's path after a panic",
  [("web/middleware/subrouter.go", '''			defer func() {
				r.URL.Path = oldpath

				if s.c.Env == nil {
					return
				}
				if oldmatch.Handler != nil {
					s.c.Env[web.MatchKey] = oldmatch
				} else {
					delete(s.c.Env, web.MatchKey)
				}
			}()
''', '''			s.h.ServeHTTP(w, r)

			r.URL.Path = oldpath
			if s.c.Env != nil {
				if oldmatch.Handler != nil {
					s.c.Env[web.MatchKey] = oldmatch
				} else {
					delete(s.c.Env, web.MatchKey)
				}
			}
			return
''')], imp(MW) + '''
func main() {
	m, sub := web.New(), web.New()
	var after string
	m.Use(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer func() { recover(); after = r.URL.Path }()
			h.ServeHTTP(w, r)
		})
	})
	m.Handle("/sub/*", sub)
	sub.Use(middleware.SubRouter)
	sub.Get("/x", func(w http.ResponseWriter, r *http.Request) { panic("oops") })
	ask(m, "GET", "/sub/x")
	if after != "/sub/x" {
		fail("path %q", after)
	}
}
''')
b("b01-keep-inner-match", "B01", "explicit routing in the nested mux only, observed by the parent after it returned",
  "the parent sees the child's routing information",
  [("web/middleware/subrouter.go", '''				} else {
					delete(s.c.Env, web.MatchKey)
				}
''', '''				}
''')], imp(MW) + '''
func main() {
	m, sub := web.New(), web.New()
	bad := false
	m.Use(middleware.EnvInit)
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h.ServeHTTP(w, r)
			_, bad = c.Env[web.MatchKey]
		})
	})
	m.Handle("/sub/*", sub)
	sub.Use(middleware.SubRouter)
	sub.Use(sub.Router)
	sub.Get("/x", func(w http.ResponseWriter, r *http.Request) {})
	ask(m, "GET", "/sub/x")
	if bad {
		fail("routing information left behind")
	}
}
''')
b("b01-underscore-first", "B01", "a parent that binds both '_' and '*'",
  "the nested mux routes on the wrong suffix",
  [("web/middleware/subrouter.go", '''		path, ok := s.c.URLParams["*"]
		if !ok {
			path, ok = s.c.URLParams["_"]
		}''', '''		path, ok := s.c.URLParams["_"]
		if !ok {
			path, ok = s.c.URLParams["*"]
		}''')], imp(MW) + '''
func main() {
	m, sub := web.New(), web.New()
	ok := false
	m.Handle("/:_/*", sub)
	sub.Use(middleware.SubRouter)
	sub.Get("/x", func(w http.ResponseWriter, r *http.Request) { ok = true })
	ask(m, "GET", "/a/x")
	if !ok {
		fail("not routed on the suffix")
	}
}
''')
b("b02-other-errors", "B02", "an application whose not-found handler answers OPTIONS with an error other than 404",
  "the application's own answer is replaced",
  [("web/middleware/options.go", "code == http.StatusNotFound", "code >= http.StatusBadRequest")],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.AutomaticOptions)
	m.Get("/a", func(w http.ResponseWriter, r *http.Request) {})
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(403) })
	if w := ask(m, "OPTIONS", "/a"); w.Code != 403 {
		fail("status %d", w.Code)
	}
}
''')
b("b02-single-method", "B02", "a path that can be routed with exactly one method",
  "OPTIONS requests for paths with a single method are answered 404",
  [("web/middleware/options.go", "if methods != nil && code", "if len(methods) > 1 && code")],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.AutomaticOptions)
	m.Post("/a", func(w http.ResponseWriter, r *http.Request) {})
	if w := ask(m, "OPTIONS", "/a"); w.Code != 200 || w.Header().Get("Allow") != "OPTIONS, POST" && w.Header().Get("Allow") != "POST, OPTIONS" {
		fail("%d %v", w.Code, w.Header())
	}
}
''')
b("b02-allow-add", "B02", "an application that has set an Allow header itself before the not-found handler answers",
  "the Allow header has entries for methods that are not routable",
  [("web/middleware/options.go", '''p.w.Header().Set("Allow",''', '''p.w.Header().Add("Allow",''')],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.AutomaticOptions)
	m.Get("/a", func(w http.ResponseWriter, r *http.Request) {})
	m.NotFound(func(w http.ResponseWriter, r *http.Request) { w.Header().Set("Allow", "TEAPOT"); w.WriteHeader(404) })
	if w := ask(m, "OPTIONS", "/a"); len(w.Header()["Allow"]) != 1 {
		fail("%v", w.Header())
	}
}
''')
b("b03-wrap", "B03", "more than a million requests in one process",
  "request IDs repeat",
  [("web/middleware/request_id.go", '''fmt.Sprintf("%s-%06d", prefix, myid)''', '''fmt.Sprintf("%s-%06d", prefix, myid%1000000)''')],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.RequestID)
	seen := map[string]bool{}
	m.Get("/", func(c web.C, w http.ResponseWriter, r *http.Request) {
		id := middleware.GetReqID(c)
		if seen[id] {
			fail("%s twice", id)
		}
		seen[id] = true
	})
	for i := 0; i < 1000200; i++ {
		ask(m, "GET", "/")
	}
}
''')
b("b03-reload", "B03", "two requests getting their ID at the same instant",
  "concurrent requests get the same ID",
  [("web/middleware/request_id.go", "		myid := atomic.AddUint64(&reqid, 1)\n", "		atomic.AddUint64(&reqid, 1)\n		myid := atomic.LoadUint64(&reqid)\n")],
  imp("sync", MW) + '''
func main() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := map[string]bool{}
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var ids []string
			c := &web.C{}
			h := middleware.RequestID(c, http.HandlerFunc(func(http.ResponseWriter, *http.Request) { ids = append(ids, middleware.GetReqID(*c)) }))
			for i := 0; i < 200000; i++ {
				h.ServeHTTP(nil, nil)
			}
			mu.Lock()
			defer mu.Unlock()
			for _, id := range ids {
				if seen[id] {
					fail("%s twice", id)
				}
				seen[id] = true
			}
		}()
	}
	wg.Wait()
}
''')
b("b03-clock-prefix", "B03", "two processes started within the same second",
  "different processes hand out the same request IDs",
  [("web/middleware/request_id.go", '"crypto/rand"', '"math/rand"'),
   ("web/middleware/request_id.go", '	"sync/atomic"\n', '	"sync/atomic"\n	"time"\n'),
   ("web/middleware/request_id.go", "	var buf [12]byte\n", "	rand := rand.New(rand.NewSource(time.Now().Unix()))\n	var buf [12]byte\n")],
  imp("fmt", "os", "os/exec", MW) + '''
func main() {
	c := &web.C{}
	middleware.RequestID(c, http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})).ServeHTTP(nil, nil)
	if len(os.Args) > 1 {
		fmt.Print(middleware.GetReqID(*c))
		return
	}
	seen := map[string]bool{}
	for i := 0; i < 50; i++ {
		out, err := exec.Command(os.Args[0], "x").Output()
		must(err)
		if seen[string(out)] {
			fail("%s twice", out)
		}
		seen[string(out)] = true
	}
}
''')
b("b04-abort", "B04", "a handler panicking with http.ErrAbortHandler",
  "the panic propagates and nothing is answered",
  [("web/middleware/recoverer.go", "				printPanic(reqID, err)\n", "				if err == http.ErrAbortHandler {\n					panic(err)\n				}\n				printPanic(reqID, err)\n")],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.Recoverer)
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { panic(http.ErrAbortHandler) })
	if w := ask(m, "GET", "/"); w.Code != 500 {
		fail("status %d", w.Code)
	}
}
''')
b("b04-typed", "B04", "a panic with a value that is neither an error nor a string",
  "such panics are swallowed without a trace, and answered 200",
  [("web/middleware/recoverer.go", "			if err := recover(); err != nil {\n", "			err := recover()\n			switch err.(type) {\n			case error, string:\n")],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.Recoverer)
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { panic(struct{ a int }{3}) })
	if w := ask(m, "GET", "/"); w.Code != 500 {
		fail("status %d", w.Code)
	}
}
''')
b("b05-printf", "B05", "a remote address or URL containing a percent sign",
  "the logged line is garbled",
  [("web/middleware/logger.go", '''	buf.WriteString(r.RemoteAddr)

	log.Print(buf.String())''', '''	buf.WriteString(r.RemoteAddr)

	log.Printf(buf.String())''')],
  imp0("bytes", "log", "strings", MW) + '''
func main() {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	m := web.New()
	m.Use(middleware.Logger)
	ask(m, "GET", "/a b%c")
	if !strings.Contains(buf.String(), "/a%20b%25c") {
		fail("%s", buf.String())
	}
}
''')
b("b05-shared-buffer", "B05", "two requests logging at the same instant",
  "log lines of concurrent requests mix",
  [("web/middleware/logger.go", '''func printEnd(reqID string, w mutil.WriterProxy, dt time.Duration) {
	var buf bytes.Buffer
''', '''var endBuf bytes.Buffer

func printEnd(reqID string, w mutil.WriterProxy, dt time.Duration) {
	buf := &endBuf
	buf.Reset()
'''),] + [("web/middleware/logger.go", "cW(&buf, b%s, \"%%03d\", status)" % c, "cW(buf, b%s, \"%%03d\", status)" % c) for c in ("Blue", "Green", "Cyan", "Yellow", "Red")]
  + [("web/middleware/logger.go", "cW(&buf, n%s, \"%%s\", dt)" % c, "cW(buf, n%s, \"%%s\", dt)" % c) for c in ("Green", "Yellow", "Red")]
  + [("web/middleware/logger.go", '''	buf.Reset()

	if reqID != "" {
		cW(&buf''', '''	buf.Reset()

	if reqID != "" {
		cW(buf''')],
  imp("bytes", "log", "strings", "sync", MW) + '''
func main() {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	log.SetFlags(0)
	m := web.New()
	m.Use(middleware.Logger)
	m.Get("/:x", func(w http.ResponseWriter, r *http.Request) {})
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				ask(m, "GET", "/x")
			}
		}()
	}
	wg.Wait()
	for _, l := range strings.Split(strings.TrimSpace(buf.String()), "\\n") {
		if !strings.HasPrefix(l, "Started GET ") && !strings.HasPrefix(l, "Returning 200 in ") || strings.Count(l, "Returning") > 1 {
			fail("%q", l)
		}
	}
}
''', race=True)
b("b05-round-down", "B05", "a duration that is not a whole number of milliseconds",
  "the logged duration is shorter than the handling took",
  [("web/middleware/logger.go", "printEnd(reqID, lw, t2.Sub(t1))", "printEnd(reqID, lw, t2.Sub(t1).Truncate(time.Millisecond))")],
  imp("bytes", "log", "regexp", "time", MW) + '''
func main() {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	m := web.New()
	m.Use(middleware.Logger)
	var took time.Duration
	m.Get("/:x", func(w http.ResponseWriter, r *http.Request) {
		t := time.Now()
		for time.Since(t) < 1900*time.Microsecond {
		}
		took = time.Since(t)
	})
	ask(m, "GET", "/x")
	s := regexp.MustCompile(`Returning 200 in (\\S+)`).FindStringSubmatch(buf.String())
	d, err := time.ParseDuration(s[1])
	must(err)
	if d < took {
		fail("%v instead of %v", d, took)
	}
}
''')
b("b05-late-id", "B05", "an inner layer that replaces the environment or request ID",
  "the end line carries another request ID than the start line",
  [("web/middleware/logger.go", "		printEnd(reqID, lw, t2.Sub(t1))", "		printEnd(GetReqID(*c), lw, t2.Sub(t1))")],
  imp("bytes", "log", "strings", MW) + '''
func main() {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	m := web.New()
	m.Use(middleware.RequestID)
	m.Use(middleware.Logger)
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			c.Env = nil
			h.ServeHTTP(w, r)
		})
	})
	ask(m, "GET", "/x")
	for _, l := range strings.Split(strings.TrimSpace(buf.String()), "\\n") {
		if !strings.Contains(l, "-000001]") {
			fail("%q", l)
		}
	}
}
''')
b("b06-tee-short", "B06", "an underlying writer that accepts only a part of a write while a tee is set",
  "the tee'd writer gets bytes that were not sent",
  [("web/mutil/writer_proxy_go1_8.go", "b.tee.Write(buf[:n])", "b.tee.Write(buf)")],
  '''
package main

import (
	"bytes"
	"net/http"
	"github.com/zenazn/goji/web/mutil"
)

type short struct{ http.Header }

func (s short) Header() http.Header              { return s.Header_() }
func (s short) Header_() http.Header             { return http.Header{} }
func (s short) WriteHeader(int)                  {}
func (s short) Write(b []byte) (int, error)      { return len(b) / 2, errors.New("short") }

func main() {
	w := mutil.WrapWriter(short{})
	var buf bytes.Buffer
	w.Tee(&buf)
	w.Write([]byte("12345678"))
	if buf.String() != "1234" || w.BytesWritten() != 4 {
		fail("%q %d", buf.String(), w.BytesWritten())
	}
}
'''.replace("type short struct{ http.Header }", "type short struct{}").replace("func (s short) Header() http.Header              { return s.Header_() }\nfunc (s short) Header_()", "func (s short) Header()").replace('	"bytes"\n', '	"bytes"\n	"errors"\n'))
b("b06-tee-error", "B06", "a tee'd writer that fails",
  "bytes sent after the tee failed are not counted",
  [("web/mutil/writer_proxy_go1_8.go", '''		if err == nil {
			err = err2
		}
	}
''', '''		if err == nil && err2 != nil {
			return n, err2
		}
	}
''')],
  '''
package main

import (
	"errors"
	"net/http/httptest"
	"github.com/zenazn/goji/web/mutil"
)

type bad struct{}

func (bad) Write(b []byte) (int, error) { return 0, errors.New("full") }

func main() {
	w := mutil.WrapWriter(httptest.NewRecorder())
	w.Tee(bad{})
	w.Write([]byte("12345678"))
	if w.BytesWritten() != 8 {
		fail("%d", w.BytesWritten())
	}
}
''')
b("b06-readfrom-error", "B06", "a streamed copy that ends with an error",
  "bytes sent before the error are not counted",
  [("web/mutil/writer_proxy_go1_8.go", "	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)\n	n, err := rf.ReadFrom(r)\n	f.basicWriter.bytes += int(n)\n", "	n, err := f.basicWriter.ResponseWriter.(io.ReaderFrom).ReadFrom(r)\n	if err == nil {\n		f.basicWriter.bytes += int(n)\n	}\n")],
  '''
package main

import (
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"github.com/zenazn/goji/web/mutil"
)

type bad struct{ n int }

func (b *bad) Read(p []byte) (int, error) {
	if b.n > 3 {
		return 0, errors.New("disk on fire")
	}
	b.n++
	return copy(p, strings.Repeat("x", 100)), nil
}

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	got := make(chan int)
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		p := mutil.WrapWriter(w)
		p.Write([]byte("1"))
		io.Copy(p, &bad{})
		got <- p.BytesWritten()
	}))
	go http.Get("http://" + l.Addr().String())
	if n := <-got; n != 401 {
		fail("%d", n)
	}
}
''')
b("b06-pusher-hijack", "B06", "an underlying writer that offers flushing, hijacking and copying but is not net/http's own",
  "hijacking is not offered although the writer underneath can",
  [("web/mutil/writer_proxy_go1_8.go", "	_, rf := w.(io.ReaderFrom)\n", "	_, rf := w.(interface {\n		io.ReaderFrom\n		io.StringWriter\n	})\n")],
  '''
package main

import (
	"bufio"
	"io"
	"net"
	"net/http"
	"github.com/zenazn/goji/web/mutil"
)

type full struct{ http.ResponseWriter }

func (full) Flush()                                              {}
func (full) Hijack() (net.Conn, *bufio.ReadWriter, error)        { return nil, nil, nil }
func (full) ReadFrom(io.Reader) (int64, error)                   { return 0, nil }

func main() {
	if _, ok := mutil.WrapWriter(full{}).(http.Hijacker); !ok {
		fail("no hijacking")
	}
}
''')
b("b07-comma", "B07", "an X-Forwarded-For whose entries are separated by a bare comma",
  "the remote address is set to something else than documented",
  [("web/middleware/realip.go", '''strings.Index(xff, ", ")''', '''strings.Index(xff, ",")''')],
  imp1(MW) + '''
func main() {
	got := ""
	h := middleware.RealIP(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = r.RemoteAddr }))
	ask(h, "GET", "/", "X-Forwarded-For", "1.2.3.4,5.6.7.8, 9.9.9.9")
	if got != "1.2.3.4,5.6.7.8" {
		fail("%q", got)
	}
}
''')
b("b07-xff-last-line", "B07", "a request with several X-Forwarded-For lines",
  "the remote address is taken from another line than the first",
  [("web/middleware/realip.go", '''	if xff := r.Header.Get(xForwardedFor); xff != "" {
''', '''	xff := ""
	for _, xff = range r.Header[xForwardedFor] {
	}
	if xff != "" {
''')],
  imp1(MW) + '''
func main() {
	got := ""
	h := middleware.RealIP(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = r.RemoteAddr }))
	r, _ := http.NewRequest("GET", "/", nil)
	r.Header.Add("X-Forwarded-For", "1.2.3.4")
	r.Header.Add("X-Forwarded-For", "5.6.7.8")
	h.ServeHTTP(nil, r)
	if got != "1.2.3.4" {
		fail("%q", got)
	}
}
''')
b("b07-query-fresh-env", "B07", "a query middleware below others that have stored something",
  "what the environment held before is lost",
  [("web/middleware/urlquery.go", '''		if c.Env == nil {
			c.Env = make(map[interface{}]interface{})
		}
		c.Env[URLQueryKey] = r.URL.Query()
''', '''		c.Env = map[interface{}]interface{}{URLQueryKey: r.URL.Query()}
''')],
  imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.RequestID)
	m.Use(middleware.URLQuery)
	ok := false
	m.Get("/", func(c web.C, w http.ResponseWriter, r *http.Request) { ok = middleware.GetReqID(c) != "" })
	ask(m, "GET", "/")
	if !ok {
		fail("the request ID is lost")
	}
}
''')
b("b07-query-cache", "B07", "a handler that changes the parsed query, and a later request with the same one",
  "requests see each other's changes to the parsed query",
  [("web/middleware/urlquery.go", '''		c.Env[URLQueryKey] = r.URL.Query()
''', '''		q, ok := parsed.Load(r.URL.RawQuery)
		if !ok {
			q, _ = parsed.LoadOrStore(r.URL.RawQuery, r.URL.Query())
		}
		c.Env[URLQueryKey] = q
'''), ("web/middleware/urlquery.go", '"github.com/zenazn/goji/web"\n	"net/http"\n', '"github.com/zenazn/goji/web"\n	"net/http"\n	"sync"\n'),
   ("web/middleware/urlquery.go", "// URLQuery is a", "// Clients tend to ask the same things again and again.\nvar parsed sync.Map\n\n// URLQuery is a")],
  imp("net/url", MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.URLQuery)
	m.Get("/", func(c web.C, w http.ResponseWriter, r *http.Request) {
		q := c.Env["urlquery"].(url.Values)
		if q.Get("page") != "" {
			fail("%v", q)
		}
		q.Set("page", "1")
	})
	for i := 0; i < 2; i++ {
		r, _ := http.NewRequest("GET", "/?q=x", nil)
		m.ServeHTTP(nil, r)
	}
}
''')

b("m03-notfound-params", "M03", "a nested mux with a context-aware not-found handler, below a parent binding parameters",
  "the not-found handler does not receive the parent's parameters",
  [("web/mux.go", "	m.rt.notFound = parseHandler(handler)\n", """	h := parseHandler(handler)
	// There are no parameters: nothing matched.
	m.rt.notFound = HandlerFunc(func(c C, w http.ResponseWriter, r *http.Request) {
		h.ServeHTTPC(C{Env: c.Env}, w, r)
	})
""")], imp("fmt") + '''
func main() {
	m, sub := web.New(), web.New()
	got := ""
	m.Handle("/:user/*", sub)
	sub.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { got = fmt.Sprint(c.URLParams) })
	ask(m, "GET", "/me/x")
	if got != "map[*:/x user:me]" {
		fail("%s", got)
	}
}
''')
b("m03-wrapped-request", "M03", "a plain http.Handler reached through explicit routing",
  "handlers get a copy of the request instead of the request itself",
  [("web/router.go", """	match.Handler.ServeHTTPC(*c, w, r)
""", """	if h, ok := match.Handler.(netHTTPHandlerWrap); ok && match.Pattern == nil {
		// Not found: don't let it change the request others will see.
		r2 := *r
		h.ServeHTTPC(*c, w, &r2)
		return
	}
	match.Handler.ServeHTTPC(*c, w, r)
""")], imp1().replace(")\n", "\t\"github.com/zenazn/goji/web\"\n)\n", 1) + '''
type h struct{ r **http.Request }

func (x h) ServeHTTP(w http.ResponseWriter, r *http.Request) { *x.r = r }
func main() {
	m := web.New()
	var got *http.Request
	m.NotFound(h{&got})
	r, _ := http.NewRequest("GET", "/", nil)
	m.ServeHTTP(nil, r)
	if got != r {
		fail("another request")
	}
}
''')

b("b03-client-id", "B03", "a client that sends an X-Request-Id header",
  "request IDs are chosen by clients, and so repeat",
  [("web/middleware/request_id.go", '''		myid := atomic''', '''		if id := r.Header.Get("X-Request-Id"); id != "" {
			c.Env[RequestIDKey] = id
			h.ServeHTTP(w, r)
			return
		}
		myid := atomic''')], imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.RequestID)
	seen := map[string]bool{}
	m.Get("/", func(c web.C, w http.ResponseWriter, r *http.Request) {
		id := middleware.GetReqID(c)
		if seen[id] {
			fail("%s twice", id)
		}
		seen[id] = true
	})
	for i := 0; i < 3; i++ {
		ask(m, "GET", "/", "X-Request-Id", "42")
	}
}
''')
