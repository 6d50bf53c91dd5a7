package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"maps"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"vh/vfsched"
)

func init() {
	props["B03/main"] = prop{"request IDs of more than a million concurrent requests on several muxes, collected and checked for format and uniqueness, read back at every layer and after nested muxes; and the prefixes of many processes. Every ID is distinct or a violation.", func(m *M) { runB03(m, false) }}
	props["B03/race"] = prop{"the same with fewer requests, under schedule perturbation and the race detector.", func(m *M) { runB03(m, true) }}
	props["B04/main"] = prop{"panics with values of every kind, at every point of the response and of the stack, with what was logged and what the client received compared with the model; and requests that do not panic compared with and without the middleware. A request is trivial if it does not panic.", runB04}
	props["B05/main"] = prop{"concurrent requests answered in every way, their log records paired by request ID and ordered against the handlers' own events; status and duration compared with what client and handler saw. Every request counts.", runB05}
	children["idchild"] = func([]string) {
		mux := web.New()
		mux.Use(middleware.RequestID)
		mux.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			os.Stdout.WriteString(middleware.GetReqID(c) + "\n")
		})
		for i := 0; i < 3; i++ {
			mux.ServeHTTP(newRW(), newReq("GET", "/"))
		}
	}
}

var idRe = regexp.MustCompile(`^(.*)/([0-9A-Za-z]{10})-([0-9]{6,})$`)

func runB03(m *M, race bool) {
	host, _ := os.Hostname()
	if host == "" {
		host = "localhost"
	}
	total := m.N(1100000, 6000000)
	if race {
		total = m.N(30000, 1000000)
		vfsched.Set(8000, 30, -1, 0, 0)
	}
	m.RunSerial("concurrent", 1, func(t *T) {
		const G = 8
		ids := make([][]string, G)
		mkmux := func() *web.Mux {
			mux, sub := web.New(), web.New()
			mux.Use(middleware.RequestID)
			mux.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					id := middleware.GetReqID(*c)
					x := w.(*rw)
					x.data = id
					h.ServeHTTP(w, r)
					if id2 := middleware.GetReqID(*c); id2 != id {
						t.m.fail(violation{t.Label, t.Index, fmt.Sprintf("the ID was %q on the way in and %q on the way out", id, id2), ""})
					}
				})
			})
			h := func(c web.C, w http.ResponseWriter, r *http.Request) {
				if id := middleware.GetReqID(c); id != w.(*rw).data {
					t.m.fail(violation{t.Label, t.Index, fmt.Sprintf("the ID was %q in the middleware and %q in the handler", w.(*rw).data, id), ""})
				}
			}
			mux.Handle("/a", h)
			mux.Handle("/sub/*", sub)
			sub.Use(middleware.EnvInit)
			sub.Handle("/sub/x", h)
			mux.NotFound(h)
			sub.NotFound(h)
			return mux
		}
		muxes := []*web.Mux{mkmux(), mkmux(), mkmux()}
		// Paths to the counter must be warm when the goroutines start.
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := make([]string, 0, total/G+1)
				<-start
				for i := 0; i < total/G; i++ {
					w := newRW()
					path := "/a"
					if i%16 == 1 {
						path = "/sub/x"
					} else if i%16 == 2 {
						path = "/nope"
					}
					mx := muxes[(i+g)%3]
					q := newReq("GET", path)
					if i%7 == 3 { // what the client says does not count
						q.Header["X-Request-Id"] = []string{"mine"}
					} else if i%7 == 5 {
						q.RemoteAddr = ""
						q.Header["X-Correlation-Id"] = []string{"mine"}
					}
					switch i % 5 {
					case 0:
						mx.ServeHTTPC(web.C{Env: map[interface{}]interface{}{"x": 1, middleware.RequestIDKey: "old"}}, w, q)
					default:
						mx.ServeHTTP(w, q)
					}
					id, _ := w.data.(string)
					l = append(l, id)
				}
				ids[g] = l
			}()
		}
		close(start)
		wg.Wait()
		seen := make(map[string]bool, total)
		maxn := 0
		for _, l := range ids {
			for i, id := range l {
				if seen[id] {
					t.Fail("two requests got the ID %q", id)
				}
				seen[id] = true
				mm := idRe.FindStringSubmatch(id)
				if mm == nil || mm[1] != host {
					t.Fail("the ID %q does not have the form host/random-counter", id)
					break
				}
				n, _ := strconv.Atoi(mm[3])
				maxn = max(maxn, n)
				if i%5000 == 0 {
					m.Saw(id)
				}
			}
			m.evals.Add(int64(len(l)))
		}
		t.Count("distinct IDs", int64(len(seen)))
		t.Count("highest counter", int64(maxn))
		t.Sample(func() any { return fmt.Sprint(ids[0][:3], ids[7][:3]) })
	})
	if race {
		vfsched.Off()
		return
	}
	m.Run("accessor", m.N(2000, 10000), func(t *T) {
		r := t.Rng
		var c web.C
		want := ""
		switch r.IntN(7) {
		case 0:
		case 1:
			c.Env = map[interface{}]interface{}{}
		case 2:
			c.Env = map[interface{}]interface{}{"other": "x", "reqid": "y"}
		case 3:
			c.Env = map[interface{}]interface{}{middleware.RequestIDKey: pick(r, []any{nil, 1, []byte("x"), errors.New("x"), true})}
		case 4:
			c.URLParams = map[string]string{middleware.RequestIDKey: "x"}
		case 5:
			want = fmt.Sprint("id", r.IntN(1000))
			c.Env = map[interface{}]interface{}{middleware.RequestIDKey: want}
		case 6:
			type k string
			c.Env = map[interface{}]interface{}{k(middleware.RequestIDKey): "x"}
		}
		if got := middleware.GetReqID(c); got != want {
			t.Fail("GetReqID of %v is %q instead of %q", c, got, want)
		}
		t.Saw(fmt.Sprint(c))
	})
	m.RunSerial("processes", 1, func(t *T) {
		n := m.N(24, 200)
		out := make([]string, n)
		exe, _ := os.Executable()
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				b, err := exec.Command(exe, "idchild").Output()
				<-sem
				if err != nil {
					m.Inconclusive("child: %v", err)
				}
				out[i] = string(b)
			}()
		}
		wg.Wait()
		seen := map[string]bool{}
		letters := map[rune]int{}
		var at [10]map[rune]int
		for i := range at {
			at[i] = map[rune]int{}
		}
		for _, o := range out {
			l := strings.Fields(o)
			if len(l) != 3 {
				m.Inconclusive("child printed %q", o)
				return
			}
			for i, id := range l {
				mm := idRe.FindStringSubmatch(id)
				if mm == nil || mm[1] != host {
					t.Fail("the ID %q does not have the form host/random-counter", id)
					return
				}
				if i == 0 {
					for j, c := range mm[2] {
						letters[c]++
						at[j][c]++
					}
					if seen[mm[2]] {
						t.Fail("two processes have the random part %q", mm[2])
					}
					seen[mm[2]] = true
				}
			}
			m.Saw(o)
		}
		// With 24 processes 20 letters are expected in every place; 4 or fewer
		// come about by chance in less than one run in 10^20.
		for j := range at {
			if len(at[j]) < 5 {
				t.Fail("letter %d of the random parts of %d processes is one of only %d: it is not random, so that they will soon repeat (%q)", j+1, n, len(at[j]), fmt.Sprint(slices.Collect(maps.Keys(seen))))
				break
			}
		}
		t.Count("distinct process prefixes", int64(len(seen)))
		t.Count("distinct letters in them", int64(len(letters)))
	})
}

// ---- Log capture

// logRec is one record written to the standard logger.
type logEvent struct {
	line string
	at   time.Time
	seq  int64
}

type logCapture struct {
	mu  sync.Mutex
	seq *atomic.Int64
	l   []logEvent
}

func (c *logCapture) Write(b []byte) (int, error) {
	now := time.Now()
	c.mu.Lock()
	c.l = append(c.l, logEvent{ansi.ReplaceAllString(string(b), ""), now, c.seq.Add(1)})
	c.mu.Unlock()
	return len(b), nil
}

func (c *logCapture) take() []logEvent {
	c.mu.Lock()
	defer c.mu.Unlock()
	l := c.l
	c.l = nil
	return l
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func captureLog() *logCapture {
	c := &logCapture{seq: new(atomic.Int64)}
	log.SetOutput(c)
	log.SetFlags(0)
	return c
}

// ---- B04

type strer struct{ s string }

func (s strer) String() string { return "strer:" + s.s }

type badErr struct{ s string }

func (b *badErr) Error() string { panic("Error panics " + b.s) }

type fmter struct{ s string }

func (f fmter) Format(st fmt.State, _ rune) { io.WriteString(st, "fmt:"+f.s) }

//go:noinline
func b04Inner(n int, f func()) int {
	if n == 0 {
		f()
		return 1
	}
	return b04Inner(n-1, f) + 1
}

// panicKind panics in one way; it returns what must appear in the log, if that
// is known.
var panicKinds = []struct {
	name string
	do   func(tok string)
	log  func(tok string) string
}{
	{"string", func(s string) { panic(s) }, func(s string) string { return s }},
	{"error", func(s string) { panic(errors.New(s)) }, func(s string) string { return s }},
	{"wrapped", func(s string) { panic(fmt.Errorf("w: %w", errors.New(s))) }, func(s string) string { return "w: " + s }},
	{"struct", func(s string) {
		panic(struct {
			A string
			B int
		}{s, 7})
	}, func(s string) string { return s }},
	{"pointer", func(s string) { panic(&struct{ A string }{s}) }, func(s string) string { return s }},
	{"stringer", func(s string) { panic(strer{s}) }, func(s string) string { return "strer:" + s }},
	{"formatter", func(s string) { panic(fmter{s}) }, func(s string) string { return "fmt:" + s }},
	{"bad error", func(s string) { panic(&badErr{s}) }, func(s string) string { return "" }},
	{"percent", func(s string) { panic("%d%s%!" + s) }, func(s string) string { return "%d%s%!" + s }},
	{"newlines", func(s string) { panic("a\nb " + s) }, func(s string) string { return s }},
	{"slice", func(s string) { panic([]string{s}) }, func(s string) string { return s }},
	{"map", func(s string) { panic(map[string]int{s: 1}) }, func(s string) string { return s }},
	{"int", func(s string) { panic(42) }, func(string) string { return "42" }},
	{"empty string", func(s string) { panic("") }, func(string) string { return "" }},
	{"nil map", func(s string) { var m map[string]int; m[s] = 1 }, func(string) string { return "nil map" }},
	{"nil pointer", func(s string) { var p *rw; p.code = 1 }, func(string) string { return "nil pointer" }},
	{"index", func(s string) { _ = []int{1}[len(s)] }, func(string) string { return "index out of range" }},
	{"division", func(s string) { _ = 1 / (len(s) - len(s)) }, func(string) string { return "divide by zero" }},
	{"nil", func(s string) { panic(nil) }, func(string) string { return "nil" }},
	{"abort", func(s string) { panic(http.ErrAbortHandler) }, func(string) string { return "abort Handler" }},
	{"func", func(s string) { panic(func() {}) }, func(string) string { return "" }},
	{"chan", func(s string) { panic(make(chan int)) }, func(string) string { return "" }},
	{"runtime error", func(s string) { panic(runtime.Error(&runtime.TypeAssertionError{})) }, func(string) string { return "" }},
	{"type assertion", func(s string) { var x any = s; _ = x.(int) }, func(string) string { return "interface conversion" }},
	{"nested", func(s string) { defer func() { panic("second " + s) }(); panic("first " + s) }, func(s string) string { return "second " + s }},
	{"repanic", func(s string) {
		defer func() { panic(recover()) }()
		panic("re " + s)
	}, func(s string) string { return "re " + s }},
	{"deferred", func(s string) { defer func() { panic("def " + s) }() }, func(s string) string { return "def " + s }},
}

// extended script operations
func playOps(w http.ResponseWriter, l []rop) {
	for _, o := range l {
		switch o.kind {
		case "set":
			w.Header().Set(o.k, o.v)
		case "add":
			w.Header().Add(o.k, o.v)
		case "status":
			w.WriteHeader(o.code)
		case "write":
			w.Write([]byte(o.v))
		case "writestring":
			io.WriteString(w, o.v)
		case "flush":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		case "copy":
			io.Copy(w, readerOnly{strings.NewReader(o.v)})
		case "copyerr":
			if _, err := io.Copy(w, io.MultiReader(strings.NewReader(o.v), errReader{})); err != nil {
				http.Error(w, "copy failed", 500)
			}
		}
	}
}

type readerOnly struct{ r io.Reader }

func (r readerOnly) Read(b []byte) (int, error) { return r.r.Read(b) }

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("source failed") }

func randOps(r *rand.Rand) (l []rop) {
	for n := r.IntN(7); n > 0; n-- {
		switch r.IntN(11) {
		case 0:
			l = append(l, rop{kind: "set", k: "X-A", v: pick(r, []string{"1", "2"})})
		case 1:
			l = append(l, rop{kind: "add", k: "X-B", v: "more"})
		case 2:
			l = append(l, rop{kind: "status", code: pick(r, []int{103, 102})})
		case 3, 4:
			l = append(l, rop{kind: "status", code: pick(r, []int{200, 200, 201, 204, 206, 301, 304, 400, 404, 418, 500, 503, 599, 999})})
		case 5, 6:
			l = append(l, rop{kind: "write", v: strings.Repeat("w", r.IntN(900))})
		case 7:
			l = append(l, rop{kind: "writestring", v: strings.Repeat("s", r.IntN(50))})
		case 8:
			l = append(l, rop{kind: "flush"})
		case 9:
			l = append(l, rop{kind: "copy", v: strings.Repeat("c", pick(r, []int{0, 0, 1, 511, 513, 4000}))})
		case 10:
			l = append(l, rop{kind: "copyerr", v: strings.Repeat("e", pick(r, []int{0, 0, 3, 2000}))})
		}
	}
	return
}

// flushRec is a recorder with all the bells.
type flushRec struct{ recResp }

func (w *flushRec) Flush() { w.WriteHeader(200) }

func runB04(m *M) {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	lc := captureLog()
	srv := newCaseServer()
	var toks atomic.Int64
	one := func(t *T, serial, real bool) {
		r := t.Rng
		withID := chance(r, 0.7)
		withLogger := chance(r, 0.3)
		inner := chance(r, 0.3) // something else between the two
		var mux *web.Mux = web.New()
		var desc []string
		t.Desc(func() string { return strings.Join(desc, "\n") })
		if withID {
			mux.Use(middleware.RequestID)
		}
		if withLogger {
			mux.Use(middleware.Logger)
		}
		var gotID string
		var kind int
		var tok, where string
		var script []rop
		var bad bool // WriteHeader with an invalid code
		var clean string
		mux.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				gotID = middleware.GetReqID(*c)
				clean = fmt.Sprint(len(c.Env), len(c.URLParams), c.Env["left"])
				defer func() {
					if p := recover(); p != nil {
						t.Fail("the panic came through the recoverer: %v", p)
						panic(http.ErrAbortHandler)
					}
				}()
				h.ServeHTTP(w, r)
			})
		})
		mux.Use(middleware.Recoverer)
		boom := func(at string) {
			if at == where {
				panicKinds[kind].do(tok)
			}
		}
		if inner {
			mux.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if c.Env == nil {
						c.Env = map[interface{}]interface{}{}
					}
					c.Env["left"] = "behind"
					boom("layer before")
					h.ServeHTTP(w, r)
					boom("layer after")
				})
			})
		}
		sub := web.New()
		sub.Use(middleware.EnvInit)
		h := func(w http.ResponseWriter, r *http.Request) {
			playOps(w, script)
			if bad {
				w.WriteHeader(pick(t.Rng, []int{0, 42, 99, 1000, -1}))
			}
			boom("handler")
		}
		mux.Handle(&custom{prefix: "/", pred: func(string) bool { boom("pattern"); return false }}, h)
		mux.Handle("/sub/*", sub)
		sub.Handle("/sub/x", h)
		mux.Handle("/x", h)
		mux.NotFound(h)
		sub.NotFound(h)
		places := []string{"handler", "handler", "pattern", "none"}
		if inner {
			places = append(places, "layer before", "layer after")
		}
		for k := 0; k < 4; k++ {
			kind, where = r.IntN(len(panicKinds)), pick(r, places)
			tok = fmt.Sprintf("tok%dx", toks.Add(1))
			if chance(r, 0.01) {
				tok += strings.Repeat("long", 1+r.IntN(1<<(3+r.IntN(12)))) + "end"
			}
			script, bad = randOps(r), false
			if chance(r, 0.3) {
				script = nil
			}
			if real {
				// Not all of these make sense on a real connection.
				var s []rop
				for _, o := range script {
					if o.kind != "copyerr" {
						s = append(s, o)
					}
				}
				script = s
			} else {
				var s []rop
				for _, o := range script {
					if o.kind != "copyerr" || len(o.v) > 0 {
						s = append(s, o)
					}
				}
				script = s
			}
			path := pick(r, []string{"/x", "/sub/x", "/sub/nope", "/nope"})
			desc = append(desc[:0], fmt.Sprintf("%s panic (%s) at %s, %v, ID %v logger %v real %v path %s", panicKinds[kind].name, tok, where, script, withID, withLogger, real, path))
			// What has been sent before the panic?
			started := 0
			if where == "handler" || where == "layer after" || where == "none" {
				rec := &flushRec{}
				playOps(rec, script)
				started = rec.code
				if where == "handler" && chance(r, 0.1) && started == 0 {
					bad = true
					desc = append(desc, "then WriteHeader of an invalid status")
				}
			}
			if bad && real == false {
				bad = false // the recorder does not object
			}
			var code int
			if serial {
				lc.take()
			}
			if real {
				c := srv.do(t, fmt.Sprint(t.Label, t.Index), mux, "GET", path, nil)
				code = c.code
				if c.code == 0 {
					t.Fail("the client got no response: %s", c.err)
				}
			} else {
				var w http.ResponseWriter
				rec := &flushRec{}
				w = rec
				if chance(r, 0.3) {
					w = &rec.recResp
				}
				if w == http.ResponseWriter(&rec.recResp) {
					// No flushing here.
					rec2 := &recResp{}
					if where == "handler" || where == "layer after" || where == "none" {
						playOps(rec2, script)
					}
					started = rec2.code
				}
				mux.ServeHTTP(w, spice(r, newReq("GET", path)))
				code = rec.code
			}
			paniced := where != "none" || bad
			want := started
			if want == 0 {
				want = 200
				if paniced {
					want = 500
				} else if !real && !withLogger {
					want = 0
				}
			}
			if code != want {
				t.Fail("the client received status %d instead of %d", code, want)
			}
			if fmt.Sprint(gotID != "") != fmt.Sprint(withID) {
				t.Fail("request ID %q", gotID)
			}
			if wantClean := map[bool]string{true: "1 0 <nil>", false: "0 0 <nil>"}[withID]; clean != wantClean {
				t.Fail("the request starts with something in its context: %s", clean)
			}
			if serial {
				var recs []string
				found := 0
				var exp string
				if paniced {
					exp = panicKinds[kind].log(tok)
					if bad {
						exp = "WriteHeader"
					}
				}
				for _, e := range lc.take() {
					if strings.Contains(e.line, "Started ") || strings.Contains(e.line, "Returning ") || strings.HasPrefix(e.line, "http: ") {
						continue
					}
					recs = append(recs, e.line)
					if strings.Contains(e.line, exp) && (gotID == "" || strings.Contains(e.line, gotID)) {
						found++
					}
				}
				if paniced && found == 0 {
					t.Fail("the panic was not logged with its value and ID %q: %q", gotID, recs)
				}
				if !paniced && len(recs) != 0 {
					t.Fail("there was no panic, but %q was logged", recs)
				}
			}
			key := ""
			if paniced {
				key = fmt.Sprint(panicKinds[kind].name, where, script, withID, withLogger, real, path)
			}
			t.Saw(key)
			t.Sample(func() any { return fmt.Sprintf("%s -> status %d", desc[0], code) })
		}
	}
	m.RunSerial("logged", m.N(6000, 150000), func(t *T) { one(t, true, false) })
	m.RunSerial("logged server", m.N(600, 15000), func(t *T) { one(t, true, true) })
	m.Run("concurrent server", m.N(1500, 30000), func(t *T) { one(t, false, true) })
	// A backtrace says where it happened.
	m.RunSerial("backtrace", m.N(60, 1000), func(t *T) {
		r := t.Rng
		pr, pw, err := os.Pipe()
		if err != nil {
			m.Inconclusive("%v", err)
			return
		}
		old := os.Stderr
		os.Stderr = pw
		done := make(chan []byte)
		go func() { b, _ := io.ReadAll(pr); done <- b }()
		defer func() { os.Stderr = old; pw.Close(); pr.Close() }()
		mux := web.New()
		if chance(r, 0.5) {
			mux.Use(middleware.RequestID)
		}
		mux.Use(middleware.Recoverer)
		kind, depth, where := r.IntN(len(panicKinds)), r.IntN(30), r.IntN(3)
		t.Desc(func() string {
			return fmt.Sprintf("%s panic at depth %d, place %d", panicKinds[kind].name, depth, where)
		})
		boom := func() { b04Inner(depth, func() { panicKinds[kind].do("tok") }) }
		if where == 0 {
			mux.Use(func(h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { h.ServeHTTP(w, r); boom() })
			})
		}
		mux.Handle("/x", func(w http.ResponseWriter, r *http.Request) {
			if where == 1 {
				w.WriteHeader(201)
			}
			if where != 0 {
				boom()
			}
		})
		lc.take()
		mux.ServeHTTP(newRW(), newReq("GET", "/x"))
		os.Stderr = old
		pw.Close()
		text := string(<-done)
		for _, e := range lc.take() {
			text += e.line
		}
		if !strings.Contains(text, "b04Inner") {
			t.Fail("neither the log nor the standard error say where it happened: %q", text)
		}
		t.Saw(fmt.Sprint(panicKinds[kind].name, depth, where))
	})
	// Panics of many goroutines at once: each is logged with its own ID.
	m.RunSerial("concurrent log", m.N(20, 500), func(t *T) {
		mux := web.New()
		mux.Use(middleware.RequestID)
		mux.Use(middleware.Recoverer)
		var mu sync.Mutex
		ids := map[string]string{}
		mux.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			tok := r.Header.Get("Tok")
			mu.Lock()
			ids[tok] = middleware.GetReqID(c)
			mu.Unlock()
			panic("tok " + tok + " end")
		})
		lc.take()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					q := newReq("GET", "/")
					q.Header.Set("Tok", fmt.Sprintf("%d.%d", g, i))
					w := newRW()
					mux.ServeHTTP(w, q)
					if w.code != 500 {
						t.m.fail(violation{t.Label, t.Index, fmt.Sprint("status ", w.code), ""})
					}
				}
			}()
		}
		wg.Wait()
		recs := lc.take()
		for tok, id := range ids {
			n := 0
			for _, e := range recs {
				if strings.Contains(e.line, "tok "+tok+" end") && strings.Contains(e.line, id) {
					n++
				}
			}
			if n == 0 {
				t.Fail("panic %s of request %s was not logged with its ID", tok, id)
			}
			t.Saw(tok + id)
		}
	})
	// Requests that do not panic are the same with and without.
	m.Run("transparent", m.N(800, 20000), func(t *T) {
		l := randOps(t.Rng)
		t.Desc(func() string { return fmt.Sprint(l) })
		mk := func(rec bool) *web.Mux {
			mux := web.New()
			if rec {
				mux.Use(middleware.Recoverer)
			}
			mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) { playOps(w, l) })
			return mux
		}
		method := pick(t.Rng, []string{"GET", "HEAD", "POST"})
		a := srv.do(t, fmt.Sprint("ta", t.Index), mk(true), method, "/", nil)
		b := srv.do(t, fmt.Sprint("tb", t.Index), mk(false), method, "/", nil)
		if a.String() != b.String() || a.body != b.body {
			t.Fail("with the middleware the client receives\n%v\ninstead of\n%v", a, b)
		}
		t.Saw("")
	})
}

// ---- B05

var startRe = regexp.MustCompile(`(?s)^(?:\[(.*?)\] )?Started (.*)$`)
var endRe = regexp.MustCompile(`(?s)^(?:\[(.*?)\] )?Returning (\d+) in (\S+)\s*$`)

type b05req struct {
	id           string
	method, url  string
	remote       string
	begin, end   int64
	t0, t1       time.Time
	status       int
	l            []rop
	sleep        time.Duration
	handled      bool
	real         bool
	clientStatus int
}

func runB05(m *M) {
	lc := captureLog()
	srv := newCaseServer()
	check := func(t *T, reqs []*b05req, recs []logEvent, withID bool) {
		type pair struct{ start, end []logEvent }
		by := map[string]*pair{}
		var other []string
		get := func(k string) *pair {
			if by[k] == nil {
				by[k] = &pair{}
			}
			return by[k]
		}
		for _, e := range recs {
			if mm := startRe.FindStringSubmatch(e.line); mm != nil {
				p := get(mm[1])
				p.start = append(p.start, e)
			} else if mm := endRe.FindStringSubmatch(e.line); mm != nil {
				p := get(mm[1])
				p.end = append(p.end, e)
			} else if !strings.HasPrefix(e.line, "http: superfluous") {
				other = append(other, e.line)
			}
		}
		if len(other) > 0 {
			t.Fail("unexpected log output %q", other)
		}
		for _, q := range reqs {
			p := get(q.id)
			if len(p.start) != 1 || len(p.end) != 1 {
				t.Fail("request %s %s (ID %q, %v) has %d start lines and %d end lines", q.method, q.url, q.id, q.l, len(p.start), len(p.end))
				continue
			}
			s, e := p.start[0], p.end[0]
			if !(s.seq < q.begin && q.end < e.seq) {
				t.Fail("request %s: start line %d, handled from %d to %d, end line %d", q.url, s.seq, q.begin, q.end, e.seq)
			}
			body := startRe.FindStringSubmatch(s.line)[2]
			if !strings.Contains(body, q.method+" ") && q.method != "" || !strings.Contains(body, q.url) && !strings.Contains(body, strconv.Quote(q.url)) || !strings.Contains(body, q.remote) {
				t.Fail("the start line %q does not give method %q, URL %q and address %q", s.line, q.method, q.url, q.remote)
			}
			mm := endRe.FindStringSubmatch(e.line)
			st, _ := strconv.Atoi(mm[2])
			if st != q.clientStatus {
				t.Fail("the end line says %q, but the client received status %d (%v)", e.line, q.clientStatus, q.l)
			}
			d, err := time.ParseDuration(mm[3])
			if err != nil || d < q.t1.Sub(q.t0) {
				t.Fail("the end line says %q, but handling took %v", e.line, q.t1.Sub(q.t0))
			}
			t.Saw(fmt.Sprint(q.method, q.url, q.l, q.sleep))
		}
	}
	mkmux := func(withID bool, find func(r *http.Request) *b05req, order int) *web.Mux {
		mux, sub := web.New(), web.New()
		if order == 1 {
			mux.Use(middleware.RealIP)
		}
		if withID {
			mux.Use(middleware.RequestID)
		}
		mux.Use(middleware.Logger)
		if order == 2 {
			mux.Use(middleware.AutomaticOptions)
		}
		mux.Use(func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				q := find(r)
				if withID {
					q.id = middleware.GetReqID(*c)
				}
				// What happens to the context further in does not change whose
				// request this is.
				switch len(q.l) % 7 {
				case 1:
					c.Env = nil
				case 3:
					c.Env = map[interface{}]interface{}{middleware.RequestIDKey: "other"}
				case 5:
					if c.Env != nil {
						c.Env[middleware.RequestIDKey] = "changed"
					}
				}
				h.ServeHTTP(w, r)
			})
		})
		h := func(c web.C, w http.ResponseWriter, r *http.Request) {
			q := find(r)
			q.t0 = time.Now()
			q.begin = lc.seq.Add(1)
			if q.sleep > 0 {
				time.Sleep(q.sleep)
			}
			playOps(w, q.l)
			q.handled = true
			// The handler may change what was logged already.
			if len(q.l)%2 == 0 && !q.real {
				r.Method, r.RemoteAddr = "CHANGED", "changed"
			}
			q.end = lc.seq.Add(1)
			q.t1 = time.Now()
		}
		mux.Handle("/sub/*", sub)
		sub.Use(middleware.EnvInit)
		sub.Handle("/sub/x", h)
		sub.NotFound(h)
		mux.Handle("/x", h)
		mux.NotFound(h)
		return mux
	}
	newReqs := func(r *rand.Rand, n int) (l []*b05req, hr []*http.Request) {
		for i := 0; i < n; i++ {
			q := &b05req{l: randOps(r), method: pick(r, []string{"GET", "POST", "HEAD", "FOO", "DELETE"})}
			if chance(r, 0.2) {
				q.sleep = time.Duration(r.IntN(1500)) * time.Microsecond
			}
			q.remote = fmt.Sprintf("192.0.2.%d:%d", r.IntN(250), 1000+r.IntN(5000))
			req := newReq(q.method, pick(r, []string{"/x", "/sub/x", "/sub/%zz", "/\xff", "/a b", "/\"q\"", "/%", "/\n", "/\u00e9"}))
			if chance(r, 0.4) {
				req.URL.RawQuery = pick(r, []string{"a=b", "", "x=%20&y", "q=\"1\""})
			}
			if chance(r, 0.1) {
				req.URL.Scheme, req.URL.Host = "http", "h"
			}
			if chance(r, 0.02) {
				// Long ones.
				long := strings.Repeat(pick(r, []string{"long", "x", "%41"}), 1+r.IntN(1<<(3+r.IntN(13)))) + "end"
				switch r.IntN(4) {
				case 0:
					req.URL.RawQuery = long
				case 1:
					q.method = "M" + long
					req.Method = q.method
				case 2:
					q.remote = long
				default:
					req.URL.Path = "/" + long
				}
			}
			req = spice(r, req)
			req.RemoteAddr = q.remote
			q.url = req.URL.String()
			l = append(l, q)
			hr = append(hr, req)
		}
		return
	}
	// One at a time, with or without IDs.
	m.RunSerial("serial", m.N(15000, 300000), func(t *T) {
		r := t.Rng
		withID := chance(r, 0.5)
		reqs, hrs := newReqs(r, 1)
		mux := mkmux(withID, func(*http.Request) *b05req { return reqs[0] }, r.IntN(3))
		t.Desc(func() string { return fmt.Sprintf("%s %s %v ID %v", reqs[0].method, reqs[0].url, reqs[0].l, withID) })
		lc.take()
		rec := &flushRec{}
		mux.ServeHTTP(rec, hrs[0])
		recs := lc.take()
		q := reqs[0]
		q.clientStatus = rec.code
		if rec.code == 0 {
			q.clientStatus = 200
		}
		if !q.handled {
			t.Fail("the handler did not run")
			return
		}
		check(t, reqs, recs, withID)
		// Otherwise unchanged: the same without.
		rec2 := &flushRec{}
		playOps(rec2, q.l)
		rec2.WriteHeader(200)
		if fmt.Sprint(rec.code, rec.sent, string(rec.body), rec.infos) != fmt.Sprint(rec2.code, rec2.sent, string(rec2.body), rec2.infos) {
			t.Fail("the response is %d %v %q %v instead of %d %v %q %v", rec.code, rec.sent, rec.body, rec.infos, rec2.code, rec2.sent, rec2.body, rec2.infos)
		}
		t.Sample(func() any {
			var l []string
			for _, e := range recs {
				l = append(l, e.line)
			}
			return strings.Join(l, " ")
		})
	})
	// Many at a time.
	many := func(t *T, reqs []*b05req, hrs []*http.Request, workers int) {
		r := t.Rng
		idx := map[*http.Request]*b05req{}
		for i, h := range hrs {
			idx[h] = reqs[i]
		}
		mux := mkmux(true, func(r *http.Request) *b05req { return idx[r] }, r.IntN(3))
		lc.take()
		var wg sync.WaitGroup
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < len(hrs); i += workers {
					rec := &flushRec{}
					mux.ServeHTTP(rec, hrs[i])
					reqs[i].clientStatus = rec.code
					if rec.code == 0 {
						reqs[i].clientStatus = 200
					}
				}
			}()
		}
		wg.Wait()
		check(t, reqs, lc.take(), true)
	}
	m.RunSerial("concurrent", m.N(150, 4000), func(t *T) {
		reqs, hrs := newReqs(t.Rng, 64)
		many(t, reqs, hrs, 8)
	})
	// Requests that take long, all at the same time.
	m.RunSerial("slow", m.N(1, 4), func(t *T) {
		reqs, hrs := newReqs(t.Rng, 200)
		for _, q := range reqs {
			q.sleep = pick(t.Rng, []time.Duration{500, 1000, 5000}) * time.Millisecond
			q.sleep += time.Duration(t.Rng.IntN(20)-10) * time.Millisecond
		}
		many(t, reqs, hrs, len(reqs))
		t.Count("slow requests", int64(len(reqs)))
	})
	m.RunN("terminal", m.N(96, 2000), 8, b05Terminal)
	// Through a real server, compared with the same without the logger.
	m.RunSerial("server", m.N(60, 1500), func(t *T) {
		r := t.Rng
		n := 24
		type res struct{ a, b *cresp }
		out := make([]res, n)
		reqs := make([]*b05req, n)
		for i := range reqs {
			reqs[i] = &b05req{l: randOps(r), method: pick(r, []string{"GET", "POST", "HEAD"}), url: pick(r, []string{"/x", "/x?q=1", "/sub/x", "/nope"}), remote: "127.0.0.1:", real: true}
		}
		lc.take()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < n; i += 8 {
					q := reqs[i]
					mux := mkmux(true, func(*http.Request) *b05req { return q }, 0)
					out[i].a = srv.do(t, fmt.Sprintf("%d.%da", t.Index, i), mux, q.method, q.url, nil)
					out[i].b = srv.do(t, fmt.Sprintf("%d.%db", t.Index, i), http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { playOps(w, q.l) }), q.method, q.url, nil)
				}
			}()
		}
		wg.Wait()
		// The end line may come after the client has the response.
		var recs []logEvent
		for deadline := time.Now().Add(20 * time.Second); time.Now().Before(deadline); {
			recs = append(recs, lc.take()...)
			ends := 0
			for _, e := range recs {
				if strings.Contains(e.line, "Returning ") {
					ends++
				}
			}
			if ends >= n {
				break
			}
			time.Sleep(time.Millisecond)
		}
		for i, q := range reqs {
			a, b := out[i].a, out[i].b
			if a.err != "" && a.code == 0 || b.code == 0 {
				t.Fail("no response for %v: %v / %v", q.l, a, b)
			}
			q.clientStatus = b.code
			for _, o := range q.l {
				if strings.HasPrefix(o.kind, "copy") {
					a.h.Del("Content-Length")
					b.h.Del("Content-Length")
				}
			}
			if a.String() != b.String() || a.body != b.body {
				t.Fail("%v: with the logger the client receives\n%v\ninstead of\n%v", q.l, a, b)
			}
		}
		sort.Slice(recs, func(i, j int) bool { return recs[i].seq < recs[j].seq })
		check(t, reqs, recs, true)
	})
}
