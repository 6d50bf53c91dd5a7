package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/zenazn/goji/web"
)

// R08: what may be registered. An unacceptable value ends the process, so each
// case is a process: it registers acceptable values of every form in every way,
// uses what it registered, and finally registers an unacceptable one.

func init() {
	r := "child processes register random sequences of acceptable patterns, handlers and middleware and are served by each at once; then one unacceptable value is registered, which must end the process, unsuccessfully and with a message naming its type, while it is being registered. Cases are distinguished by the sequence of forms and entries."
	props["R08/main"] = prop{r, func(m *M) { m.RunN("forms", m.N(1200, 30000), 8, r08) }}
	children["regchild"] = regChild
}

type regCmd struct {
	Seed    uint64
	Index   int
	Bad     int    // which unacceptable value; -1: none
	Site    string // where it is passed
	App     bool
	LogMine bool
}

type namedFn func(http.ResponseWriter, *http.Request)
type namedCFn func(web.C, http.ResponseWriter, *http.Request)
type namedMW func(http.Handler) http.Handler
type namedCMW func(*web.C, http.Handler) http.Handler
type namedStr string
type halfPattern struct{}

func (halfPattern) Prefix() string                   { return "" }
func (halfPattern) Match(*http.Request, *web.C) bool { return true }
func (halfPattern) RunIt(r *http.Request, c *web.C)  {}

type ptrPattern struct{ path string }

func (p *ptrPattern) Prefix() string                       { return p.path }
func (p *ptrPattern) Match(r *http.Request, _ *web.C) bool { return r.URL.Path == p.path }
func (p *ptrPattern) Run(*http.Request, *web.C)            {}

type valPattern struct{ path string }

func (p valPattern) Prefix() string                       { return "" }
func (p valPattern) Match(r *http.Request, _ *web.C) bool { return r.URL.Path == p.path }
func (p valPattern) Run(*http.Request, *web.C)            {}

type strPattern string // a string, but a Pattern in its own right

func (p strPattern) Prefix() string { return "" }
func (p strPattern) Match(r *http.Request, _ *web.C) bool {
	return r.URL.Path == strings.ToLower(string(p))
}
func (p strPattern) Run(*http.Request, *web.C) {}

type rePattern struct {
	*regexp.Regexp
	path string
}

func (p rePattern) Prefix() string                       { return "" }
func (p rePattern) Match(r *http.Request, _ *web.C) bool { return r.URL.Path == p.path }
func (p rePattern) Run(*http.Request, *web.C)            {}

type fnHandler func(string) // a function that is a Handler

func (f fnHandler) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	f("")
	io.WriteString(w, "")
}

type ptrHandler struct{ id string }

func (h *ptrHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) { io.WriteString(w, h.id) }

type ptrCHandler struct{ id string }

func (h *ptrCHandler) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	io.WriteString(w, h.id)
}

type valHandler struct{ id string }

func (h valHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) { io.WriteString(w, h.id) }

type mapHandler map[string]string

func (h mapHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) { io.WriteString(w, h["id"]) }

// twoHandler is acceptable in both ways; as a Handler it can be given the context.
type twoHandler struct{ id string }

func (h twoHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	io.WriteString(w, "without context")
}
func (h twoHandler) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	io.WriteString(w, h.id)
}

type oddHandler struct{}

func (oddHandler) ServeHTTP(r *http.Request, w http.ResponseWriter)  {}
func (oddHandler) ServeHTTPC(w http.ResponseWriter, r *http.Request) {}

// goodHandlers are all forms of handlers, each writing id.
func goodHandlers(id string) []web.HandlerType {
	f := func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, id) }
	fc := func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, id) }
	sub := web.New()
	sub.Handle(regexp.MustCompile(""), f)
	std := http.NewServeMux()
	std.HandleFunc("/", f)
	var iface http.Handler = http.HandlerFunc(f)
	var cface web.Handler = web.HandlerFunc(fc)
	return []web.HandlerType{
		f, fc, http.HandlerFunc(f), web.HandlerFunc(fc), &ptrHandler{id}, valHandler{id}, &valHandler{id}, &ptrCHandler{id},
		mapHandler{"id": id}, twoHandler{id}, &twoHandler{id}, sub, std, iface, cface,
		http.TimeoutHandler(http.HandlerFunc(f), time.Minute, ""), http.StripPrefix("", http.HandlerFunc(f)),
		(&ptrHandler{id}).ServeHTTP, (&ptrCHandler{id}).ServeHTTPC, twoHandler{id}.ServeHTTPC,
	}
}

func badHandlers() []interface{} {
	f := func(w http.ResponseWriter, r *http.Request) {}
	var nilH http.Handler
	var nilC web.Handler
	return []interface{}{
		nil, nilH, nilC, "", "handler", 1, 404, int64(7), true, 1.5, struct{}{}, []byte("x"), errors.New("x"), http.StatusOK,
		func() {}, func(http.ResponseWriter) {}, func(*http.Request) {}, func(r *http.Request, w http.ResponseWriter) {},
		func(http.ResponseWriter, *http.Request) error { return nil },
		func(http.ResponseWriter, http.Request) {}, func(*http.ResponseWriter, *http.Request) {},
		func(io.Writer, *http.Request) {}, func(http.ResponseWriter, ...*http.Request) {},
		func(*web.C, http.ResponseWriter, *http.Request) {},
		func(http.ResponseWriter, *http.Request, web.C) {},
		func(web.C, *http.Request, http.ResponseWriter) {},
		func(web.C, http.ResponseWriter, *http.Request) int { return 0 },
		func(interface{}, http.ResponseWriter, *http.Request) {},
		namedFn(f), namedCFn(func(web.C, http.ResponseWriter, *http.Request) {}), &f,
		ptrHandler{"x"}, ptrCHandler{"x"}, oddHandler{}, &oddHandler{}, (&web.Mux{}).Use, web.C{}, &web.C{}, web.Match{},
		[]http.Handler{http.NotFoundHandler()}, map[string]http.Handler{}, make(chan http.Handler), []interface{}{f},
		func(h http.Handler) http.Handler { return h }, func(c *web.C, h http.Handler) http.Handler { return h },
		http.NotFoundHandler, web.New, http.Header{}, http.DefaultServeMux.Handler, &http.Server{}, http.Request{}, new(int), 'x', uint8(1),
		regexp.MustCompile("x"), web.ParsePattern("/x"),
	}
}

func badPatterns() []interface{} {
	s := "/x"
	re := regexp.MustCompile("^/x")
	var nilP web.Pattern
	return []interface{}{
		nil, nilP, 1, 0, int64(3), true, 2.5, []byte("/x"), []rune("/x"), '/', byte('/'), &s, &re, namedStr("/x"), []string{"/x"},
		[]interface{}{"/x"}, errors.New("/x"), strings.NewReader("/x"), bytes.NewBufferString("/x"), halfPattern{}, &halfPattern{},
		ptrPattern{"/x"}, func(*http.Request) bool { return true }, func(*http.Request, *web.C) bool { return true }, func() string { return "/x" },
		newURL("/x"), struct{ Pattern string }{"/x"}, map[string]string{"/x": ""}, make(chan string), http.NotFoundHandler(), web.C{}, web.Match{},
		re.MatchString, [2]string{"/x", "/y"}, struct{}{}, http.Request{}, complex(1, 2), new(interface{}),
	}
}

func badMiddleware() []interface{} {
	mw := func(h http.Handler) http.Handler { return h }
	return []interface{}{
		nil, "", "mw", 1, true, struct{}{}, http.NotFoundHandler(), http.HandlerFunc(http.NotFound), http.NotFound, web.New(), web.C{}, new(web.C),
		func() {}, func(http.Handler) {}, func() http.Handler { return nil }, func(http.Handler) (http.Handler, error) { return nil, nil },
		func(h http.Handler) http.HandlerFunc { return h.ServeHTTP }, func(h http.HandlerFunc) http.Handler { return h },
		func(h http.HandlerFunc) http.HandlerFunc { return h }, func(h *http.Handler) http.Handler { return *h },
		func(c web.C, h http.Handler) http.Handler { return h }, func(h http.Handler, c *web.C) http.Handler { return h },
		func(c *web.C, h http.Handler) {}, func(c *web.C, h web.Handler) http.Handler { return nil },
		func(c *web.C, h web.Handler) web.Handler { return h }, func(h web.Handler) web.Handler { return h },
		func(c **web.C, h http.Handler) http.Handler { return h }, func(...http.Handler) http.Handler { return nil },
		func(h interface{}) http.Handler { return nil }, func(h http.Handler) interface{} { return h },
		func(w http.ResponseWriter, r *http.Request) {}, func(c web.C, w http.ResponseWriter, r *http.Request) {},
		func(w http.ResponseWriter, r *http.Request, next http.HandlerFunc) {},
		namedMW(mw), namedCMW(func(c *web.C, h http.Handler) http.Handler { return h }), &mw,
		[]func(http.Handler) http.Handler{mw}, []interface{}{mw}, map[string]func(http.Handler) http.Handler{"": mw}, errors.New("x"), []byte("x"), 1.5, 'x',
		regexp.MustCompile("x"), web.ParsePattern("/"),
	}
}

type regAPI struct {
	name string
	set  func(web.PatternType, web.HandlerType)
	meth string
}

// regEntries are the functions that take patterns and handlers.
func regEntries(mux *web.Mux) []regAPI {
	return []regAPI{
		{"Handle", mux.Handle, "GET"}, {"Connect", mux.Connect, "CONNECT"}, {"Delete", mux.Delete, "DELETE"}, {"Get", mux.Get, "GET"},
		{"Head", mux.Head, "HEAD"}, {"Options", mux.Options, "OPTIONS"}, {"Patch", mux.Patch, "PATCH"}, {"Post", mux.Post, "POST"},
		{"Put", mux.Put, "PUT"}, {"Trace", mux.Trace, "TRACE"},
	}
}

// appRegs is package goji's own set, where it is linked in.
var appRegs func() (*web.Mux, []regAPI, func(web.HandlerType), func(web.MiddlewareType), func(a, b web.MiddlewareType) error, func(web.MiddlewareType) error)

func regChild(a []string) {
	var c regCmd
	if err := json.Unmarshal([]byte(a[0]), &c); err != nil {
		panic(err)
	}
	r := rand.New(rand.NewPCG(c.Seed, uint64(c.Index)))
	say := func(f string, a ...any) { fmt.Printf(f+"\n", a...) }
	mux := web.New()
	entries := regEntries(mux)
	notFound, use, insert, abandon := mux.NotFound, mux.Use, mux.Insert, mux.Abandon
	if c.App && appRegs != nil {
		mux, entries, notFound, use, insert, abandon = appRegs()
	}
	log.SetOutput(io.Discard) // goji's requests; not its last words
	mark := func(h http.Handler, id string) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Add("Layers", id)
			h.ServeHTTP(w, r)
		})
	}
	var layers []string
	var mws []interface{}
	ask := func(method, path string) *rw {
		w := newRW()
		mux.ServeHTTP(w, newReq(method, path))
		return w
	}
	checkLayers := func(w *rw, what string) {
		if got := strings.Join(w.Header()["Layers"], " "); got != strings.Join(layers, " ") {
			say("BAD after %s a request passed through the layers %q instead of %q", what, got, strings.Join(layers, " "))
		}
	}
	steps := 4 + r.IntN(12)
	for i := 0; i < steps; i++ {
		id := fmt.Sprint("id", i)
		switch r.IntN(8) {
		case 0: // middleware
			var mw interface{}
			form := "func"
			if chance(r, 0.5) {
				mw = func(h http.Handler) http.Handler { return mark(h, id) }
			} else {
				mw, form = func(c *web.C, h http.Handler) http.Handler { return mark(h, id) }, "cfunc"
			}
			if len(mws) > 0 && chance(r, 0.5) {
				k := r.IntN(len(mws))
				if err := insert(mw, mws[k]); err != nil {
					say("BAD Insert of a %s before one that is there: %v", form, err)
				}
				layers = append(layers[:k:k], append([]string{id}, layers[k:]...)...)
				mws = append(mws[:k:k], append([]interface{}{mw}, mws[k:]...)...)
				say("F Insert %s", form)
			} else {
				use(mw)
				layers, mws = append(layers, id), append(mws, mw)
				say("F Use %s", form)
			}
			checkLayers(ask("GET", "/"), "adding "+id)
		case 1: // what is not there can be no reference; that is an error, not the end
			l := badMiddleware()
			k := r.IntN(len(l))
			var err error
			if chance(r, 0.5) {
				say("F Abandon of a %T", l[k])
				err = abandon(l[k])
			} else {
				say("F Insert before a %T", l[k])
				err = insert(func(h http.Handler) http.Handler { return mark(h, "stray") }, l[k])
			}
			if err == nil {
				say("BAD a %T was found in the stack", l[k])
			}
			checkLayers(ask("GET", "/"), "a failed edit")
		case 3:
			if len(mws) == 0 {
				continue
			}
			k := r.IntN(len(mws))
			say("F Abandon %d of %d", k, len(mws))
			if err := abandon(mws[k]); err != nil {
				say("BAD Abandon of what is there: %v", err)
			}
			layers, mws = append(layers[:k:k], layers[k+1:]...), append(mws[:k:k], mws[k+1:]...)
			checkLayers(ask("GET", "/"), "Abandon")
		case 2: // not found
			l := goodHandlers(id)
			k := r.IntN(len(l))
			say("F NotFound %T", l[k])
			notFound(l[k])
			w := ask("GET", "/never")
			if string(w.body) != id {
				say("BAD the not-found handler of type %T set by NotFound answers %q", l[k], w.body)
			}
			checkLayers(w, "NotFound")
		default:
			e := entries[r.IntN(len(entries))]
			path := fmt.Sprintf("/p%02d", i)
			pats := []web.PatternType{
				path, path, regexp.MustCompile("^" + path + "$"), regexp.MustCompile(path + `\z`), &ptrPattern{path}, valPattern{path}, &valPattern{path},
				strPattern(strings.ToUpper(path)), rePattern{regexp.MustCompile("^nothing$"), path}, web.ParsePattern(path), web.ParsePattern(regexp.MustCompile(path)),
				web.ParsePattern(&ptrPattern{path}), web.Pattern(valPattern{path}),
			}
			l := goodHandlers(id)
			p, h := pats[r.IntN(len(pats))], l[r.IntN(len(l))]
			say("F %s %T %T", e.name, p, h)
			e.set(p, h)
			if chance(r, 0.2) {
				mux.Compile()
			}
			w := ask(e.meth, path)
			if string(w.body) != id {
				say("BAD %s %s, registered with a pattern of type %T and a handler of type %T by %s, is answered %d %q", e.meth, path, p, h, e.name, w.code, w.body)
			}
			checkLayers(w, "registering a route")
		}
	}
	if chance(r, 0.4) {
		// What was there before is gone for good.
		for len(mws) > 0 && chance(r, 0.8) {
			k := r.IntN(len(mws))
			if err := abandon(mws[k]); err != nil {
				say("BAD Abandon of what is there: %v", err)
			}
			layers, mws = append(layers[:k:k], layers[k+1:]...), append(mws[:k:k], mws[k+1:]...)
		}
		checkLayers(ask("GET", "/"), "Abandon")
	}
	if c.Bad < 0 {
		say("END")
		return
	}
	log.SetOutput(os.Stderr)
	if c.LogMine {
		log.SetFlags(0)
		log.SetPrefix("app: ")
	}
	if chance(r, 0.3) {
		// Requests go on meanwhile.
		log.SetOutput(os.Stderr)
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				q := web.New()
				q.Get("/", http.NotFound)
				wg.Done()
				for {
					q.ServeHTTP(newRW(), newReq("GET", "/"))
				}
			}()
		}
		wg.Wait()
	}
	say("READY")
	func() {
		defer func() {
			if e := recover(); e != nil {
				say("PANIC %v", e)
			}
		}()
		kind, name, _ := strings.Cut(c.Site, " ")
		switch kind {
		case "pattern":
			v := badPatterns()[c.Bad]
			if name == "ParsePattern" {
				web.ParsePattern(v)
			}
			for _, e := range entries {
				if e.name == name {
					e.set(v, goodHandlers("x")[r.IntN(3)])
				}
			}
		case "handler":
			v := badHandlers()[c.Bad]
			if name == "NotFound" {
				notFound(v)
			}
			for _, e := range entries {
				if e.name == name {
					e.set(pick(r, []web.PatternType{"/x", regexp.MustCompile("x"), valPattern{"/x"}}), v)
				}
			}
		case "middleware":
			v := badMiddleware()[c.Bad]
			if name == "Use" {
				use(v)
			} else {
				var there interface{} = func(h http.Handler) http.Handler { return h }
				if len(mws) > 0 && chance(r, 0.7) {
					there = pick(r, mws)
				} else {
					use(there)
				}
				insert(v, there)
			}
		}
	}()
	say("RETURNED")
}

var regSites = func() (l []string) {
	for _, e := range regEntries(web.New()) {
		l = append(l, "pattern "+e.name, "handler "+e.name)
	}
	return append(l, "pattern ParsePattern", "pattern ParsePattern", "handler NotFound", "handler NotFound", "middleware Use", "middleware Use", "middleware Use",
		"middleware Insert", "middleware Insert", "middleware Insert")
}()

func r08(t *T) {
	r := t.Rng
	c := regCmd{Seed: r.Uint64(), Index: t.Index, Site: regSites[t.Index%len(regSites)], Bad: -1, App: appRegs != nil && chance(r, 0.25), LogMine: chance(r, 0.5)}
	var bad []interface{}
	switch c.Site[:3] {
	case "pat":
		bad = badPatterns()
	case "han":
		bad = badHandlers()
	default:
		bad = badMiddleware()
	}
	if !chance(r, 0.05) {
		c.Bad = r.IntN(len(bad))
	}
	b, _ := json.Marshal(c)
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "regchild", string(b))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	out, msg := so.String(), se.String()
	what := "nothing unacceptable"
	typ := ""
	if c.Bad >= 0 {
		typ = fmt.Sprintf("%T", bad[c.Bad])
		what = fmt.Sprintf("a value of type %s, passed as %s", typ, c.Site)
	}
	t.Desc(func() string { return what + "\n" + out })
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		t.m.Inconclusive("child: %v", err)
		return
	}
	if strings.Contains(msg, "harness:") {
		t.m.Inconclusive("child: %s", msg)
		return
	}
	var key []string
	for _, l := range strings.Split(out, "\n") {
		if s, ok := strings.CutPrefix(l, "BAD "); ok {
			t.Fail("%s", s)
		}
		if strings.HasPrefix(l, "F ") {
			key = append(key, l)
			t.Count("acceptable registrations", 1)
		}
	}
	last := "nothing"
	if len(key) > 0 {
		last = key[len(key)-1]
	}
	switch {
	case c.Bad < 0 && (err != nil || !strings.Contains(out, "\nEND\n")):
		t.Fail("only acceptable values were registered, but the process ended: %v %s (%s)", err, clip(msg, 800), last)
	case c.Bad < 0:
	case !strings.Contains(out, "READY\n"):
		t.Fail("the process ended when an acceptable value was registered (%s): %v %s", last, err, clip(msg, 800))
	case strings.Contains(out, "PANIC"):
		t.Fail("%s: the registering call panics instead of ending the process: %s", what, clip(out[strings.Index(out, "PANIC"):], 300))
	case strings.Contains(out, "RETURNED"):
		t.Fail("%s: the registering call returns", what)
	case err == nil:
		t.Fail("%s: the process ends successfully", what)
	case !ee.Exited():
		t.Fail("%s: the process ends with %v %s", what, err, clip(msg, 800))
	case !strings.Contains(msg, typ) && !(typ == "<nil>" && strings.Contains(msg, "nil")):
		t.Fail("%s: the process ends without naming the type: %q", what, clip(msg, 300))
	case strings.Contains(msg, "goroutine "):
		t.Fail("%s: the process crashes: %s", what, clip(msg, 800))
	case c.LogMine && !strings.Contains(msg, "app: "):
		t.Fail("%s: the message is not logged with package log: %q", what, clip(msg, 300))
	}
	if c.Bad >= 0 {
		t.Count("refused", 1)
	}
	t.Saw(strings.Join(key, ";") + what)
	t.Sample(func() any { return what + ": " + clip(strings.TrimSpace(msg), 200) })
}
