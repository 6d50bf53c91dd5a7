package main

import (
	"fmt"
	"net/http"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"vh/vfsched"
)

func init() {
	props["M01/main"] = prop{"random sequences of Use, Insert, Abandon (of layers of both forms, duplicates and strangers included) and requests, some of which panic, stop early, or edit the stack from inside; every request's trace through the layers is compared with a list model. A request is trivial if the stack is empty.", runM01}
	props["M02/main"] = prop{"requests with unique tokens, nested on the same mux, panicking, concurrent, entered with and without a context; every layer and handler checks that it only ever sees its own request's context. A request is trivial if no other request was in progress or had been served before on that mux.", runM02}
	props["M02/race"] = prop{"concurrent requests on one mux under schedule perturbation and the race detector, each layer checking its context.", runM02Race}
	props["M03/main"] = prop{"handlers of every accepted form at every depth of nested muxes; the context, writer and request each is called with are compared by identity with what the mux was given. A request is trivial if no handler ran.", runM03}
}

// layer is a middleware with an identity.
type layer struct {
	id    int
	desc  string
	mw    web.MiddlewareType
	onReq func(tr *trace, next func())
}

type trace struct {
	ev    []string
	short int // id of the layer that answers itself, or -1
	boom  int // id of the layer that panics after the inner ones returned
	edit  func()
}

func (l *layer) wrap(tr func(r *http.Request) *trace, h http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		t := tr(r)
		t.ev = append(t.ev, fmt.Sprint("+", l.id))
		if t.short == l.id {
			t.ev = append(t.ev, fmt.Sprint("-", l.id))
			return
		}
		h.ServeHTTP(w, r)
		t.ev = append(t.ev, fmt.Sprint("-", l.id))
		if t.boom == l.id {
			panic("boom")
		}
	})
}

type traceKey struct{}

var traceOf sync.Map // *http.Request -> *trace

func traceFor(r *http.Request) *trace {
	v, _ := traceOf.Load(r)
	return v.(*trace)
}

func mkLayer(id int, ctx bool) *layer {
	l := &layer{id: id}
	if ctx {
		l.desc = fmt.Sprintf("C%d", id)
		l.mw = func(c *web.C, h http.Handler) http.Handler { return l.wrap(traceFor, h) }
	} else {
		l.desc = fmt.Sprintf("P%d", id)
		l.mw = func(h http.Handler) http.Handler { return l.wrap(traceFor, h) }
	}
	return l
}

// Two plain functions, and two closures of the same code, whose identities are
// easy to confuse.
var funcLayerA = &layer{id: 101, desc: "fnA"}
var funcLayerB = &layer{id: 102, desc: "fnB"}

func fnA(h http.Handler) http.Handler           { return funcLayerA.wrap(traceFor, h) }
func fnB(_ *web.C, h http.Handler) http.Handler { return funcLayerB.wrap(traceFor, h) }

func runM01(m *M) {
	m.Run("edits", m.N(15000, 400000), func(t *T) {
		r := t.Rng
		mux := web.New()
		ran := 0
		mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) {
			tr := traceFor(r)
			tr.ev = append(tr.ev, "H")
			ran++
			if tr.edit != nil {
				tr.edit()
			}
		})
		funcLayerA.mw, funcLayerB.mw = fnA, fnB
		fa := &layer{id: 101, desc: "fnA", mw: fnA}
		fb := &layer{id: 102, desc: "fnB", mw: fnB}
		pool := []*layer{fa, fb}
		for i := 0; i < 5; i++ {
			pool = append(pool, mkLayer(i, i%2 == 0))
		}
		strangers := []web.MiddlewareType{"string", 42, nil, func() {}, mkLayer(50, true).mw, mkLayer(51, false).mw}
		var model []*layer
		var ops []string
		t.Desc(func() string { return strings.Join(ops, " ") })
		find := func(x *layer) int {
			for i, l := range model {
				if l == x {
					return i
				}
			}
			return -1
		}
		edit := func() {
			switch r.IntN(5) {
			case 0, 1:
				l := pick(r, pool)
				mux.Use(l.mw)
				model = append(model[:len(model):len(model)], l)
				ops = append(ops, "Use("+l.desc+")")
			case 2, 3:
				l, b := pick(r, pool), pick(r, pool)
				if chance(r, 0.5) && len(model) > 0 {
					b = pick(r, model)
				}
				var before web.MiddlewareType = b.mw
				i := find(b)
				if chance(r, 0.05) {
					before, i = pick(r, strangers), -1
				}
				err := mux.Insert(l.mw, before)
				ops = append(ops, "Insert("+l.desc+","+b.desc+")")
				if (err != nil) != (i < 0) {
					t.Fail("Insert before layer %d of the stack returned %v", i, err)
				}
				if i >= 0 {
					n := append([]*layer{}, model[:i]...)
					n = append(n, l)
					model = append(n, model[i:]...)
				}
			case 4:
				b := pick(r, pool)
				var mw web.MiddlewareType = b.mw
				i := find(b)
				if chance(r, 0.05) {
					mw, i = pick(r, strangers), -1
				}
				err := mux.Abandon(mw)
				ops = append(ops, "Abandon("+b.desc+")")
				if (err != nil) != (i < 0) {
					t.Fail("Abandon of layer %d of the stack returned %v", i, err)
				}
				if i >= 0 {
					n := append([]*layer{}, model[:i]...)
					model = append(n, model[i+1:]...)
				}
			}
		}
		serve := func(depth int) {
			tr := &trace{short: -1, boom: -1}
			if chance(r, 0.1) && len(model) > 0 {
				tr.short = pick(r, model).id
			} else if chance(r, 0.1) && len(model) > 0 {
				tr.boom = pick(r, model).id
			}
			// The stack as of now: edits made while the request is in
			// progress are for later requests.
			var want []string
			var back []string
			stopped, paniced := false, false
			for _, l := range model {
				want = append(want, fmt.Sprint("+", l.id))
				back = append([]string{fmt.Sprint("-", l.id)}, back...)
				if l.id == tr.short {
					stopped = true
					break
				}
			}
			if !stopped {
				want = append(want, "H")
			}
			if tr.boom >= 0 && !stopped {
				// The innermost instance panics, and nothing further out
				// is told.
				for i := len(model) - 1; i >= 0; i-- {
					want = append(want, fmt.Sprint("-", model[i].id))
					if model[i].id == tr.boom {
						paniced = true
						break
					}
				}
			} else {
				want = append(want, back...)
			}
			req := spice(r, newReq("GET", "/x"))
			traceOf.Store(req, tr)
			if chance(r, 0.1) && depth == 0 {
				ops = append(ops, "serve{")
				tr.edit = edit
			} else {
				ops = append(ops, "serve")
			}
			func() {
				defer func() {
					if p := recover(); p != nil && p != "boom" {
						panic(p)
					} else if (p != nil) != paniced {
						t.Fail("panic %v, expected one: %v", p, paniced)
					}
				}()
				if chance(r, 0.5) {
					mux.ServeHTTP(newRW(), req)
				} else {
					mux.ServeHTTPC(web.C{}, newRW(), req)
				}
			}()
			if tr.edit != nil {
				ops = append(ops, "}")
			}
			traceOf.Delete(req)
			if fmt.Sprint(tr.ev) != fmt.Sprint(want) {
				t.Fail("request went through %v instead of %v", tr.ev, want)
			}
			key := ""
			if len(want) > 1 {
				key = strings.Join(want, "")
			}
			t.Saw(key)
		}
		for n := 5 + r.IntN(30); n > 0; n-- {
			if chance(r, 0.5) {
				edit()
			} else {
				serve(0)
			}
		}
		serve(0)
		t.Sample(func() any { return strings.Join(ops, " ") })
		t.Count("edits and requests", int64(len(ops)))
	})
	// Many edits with no request in between, so that anything counting edits
	// comes round to where it was when the stacks in use were built.
	m.RunN("gaps", m.N(40, 600), 4, func(t *T) {
		r := t.Rng
		n := pick(r, []int{128, 256, 256, 512, 1024, 4096, 1 << 16}) + pick(r, []int{0, 0, 0, -1, 1})
		mux := web.New()
		mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) { traceFor(r).ev = append(traceFor(r).ev, "H") })
		t.Desc(func() string { return fmt.Sprint(n, " edits between requests") })
		var model []*layer
		check := func() {
			req := spice(r, newReq("GET", "/x"))
			tr := &trace{short: -1, boom: -1}
			traceOf.Store(req, tr)
			defer traceOf.Delete(req)
			mux.ServeHTTP(newRW(), req)
			want := "H"
			for i := len(model) - 1; i >= 0; i-- {
				want = fmt.Sprintf("+%d %s -%d", model[i].id, want, model[i].id)
			}
			if strings.Join(tr.ev, " ") != want {
				t.Fail("request went through %v instead of %v", tr.ev, want)
			}
			t.Saw(fmt.Sprint(want, n))
		}
		pool := []*layer{mkLayer(0, true), mkLayer(1, false), mkLayer(2, true)}
		for k := 0; k < 3; k++ {
			for i := 0; i < 6; i++ {
				check()
			}
			for i := 0; i < n; i++ {
				switch {
				case len(model) > 3 || len(model) > 0 && chance(r, 0.5):
					l := pick(r, model)
					for j := range model {
						if model[j] == l {
							model = append(model[:j:j], model[j+1:]...)
							break
						}
					}
					if err := mux.Abandon(l.mw); err != nil {
						t.Fail("Abandon returned %v", err)
					}
				case len(model) > 0 && chance(r, 0.3):
					l := pick(r, pool)
					if err := mux.Insert(l.mw, model[0].mw); err != nil {
						t.Fail("Insert returned %v", err)
					}
					model = append([]*layer{l}, model...)
				default:
					l := pick(r, pool)
					mux.Use(l.mw)
					model = append(model, l)
				}
			}
		}
		check()
		t.Count("edits", int64(3*n))
	})
	// Stacks of hundreds of layers, edited all over.
	m.Run("tall", m.N(60, 1500), func(t *T) {
		r := t.Rng
		mux := web.New()
		n := pick(r, []int{17, 33, 65, 129, 257, 300, 520})
		mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) { traceFor(r).ev = append(traceFor(r).ev, "H") })
		t.Desc(func() string { return fmt.Sprint("a stack of ", n, " layers") })
		var model []*layer
		first := func(x *layer) int { return slices.Index(model, x) }
		check := func() {
			for k := 0; k < 2; k++ {
				req := spice(r, newReq("GET", "/x"))
				tr := &trace{short: -1, boom: -1}
				traceOf.Store(req, tr)
				mux.ServeHTTP(newRW(), req)
				traceOf.Delete(req)
				var want []string
				for _, l := range model {
					want = append(want, fmt.Sprint("+", l.id))
				}
				want = append(want, "H")
				for i := len(model) - 1; i >= 0; i-- {
					want = append(want, fmt.Sprint("-", model[i].id))
				}
				if !slices.Equal(tr.ev, want) {
					t.Fail("a request went through %v instead of %v", tr.ev, want)
				}
				t.Saw(fmt.Sprint(len(want), want[len(want)/3], t.Index))
			}
		}
		for len(model) < n {
			l := mkLayer(len(model), chance(r, 0.5))
			if len(model) > 0 && chance(r, 0.1) {
				l = pick(r, model)
			}
			mux.Use(l.mw)
			model = append(model, l)
		}
		check()
		for k := 0; k < 12; k++ {
			b := pick(r, model)
			if chance(r, 0.3) {
				b = model[len(model)-1]
			}
			i := first(b)
			if chance(r, 0.5) {
				l := mkLayer(1000+k, chance(r, 0.5))
				if err := mux.Insert(l.mw, b.mw); err != nil {
					t.Fail("Insert before layer %d of %d returned %v", i, len(model), err)
				}
				model = slices.Insert(model, i, l)
			} else {
				if err := mux.Abandon(b.mw); err != nil {
					t.Fail("Abandon of layer %d of %d returned %v", i, len(model), err)
				}
				model = slices.Delete(model, i, i+1)
			}
			if chance(r, 0.4) {
				check()
			}
		}
		check()
	})
	// A request still in progress when the stack is edited must not bring the
	// old stack back when it ends.
	m.Run("overlap", m.N(2000, 40000), func(t *T) {
		r := t.Rng
		mux := web.New()
		hold, held := make(chan bool), make(chan bool, 8)
		mux.Handle("/hold", func(w http.ResponseWriter, r *http.Request) { held <- true; <-hold })
		mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) { traceFor(r).ev = append(traceFor(r).ev, "H") })
		var model []*layer
		var ops []string
		t.Desc(func() string { return strings.Join(ops, " ") })
		check := func() {
			req := spice(r, newReq("GET", "/x"))
			tr := &trace{short: -1, boom: -1}
			traceOf.Store(req, tr)
			defer traceOf.Delete(req)
			mux.ServeHTTP(newRW(), req)
			var want []string
			for _, l := range model {
				want = append(want, fmt.Sprint("+", l.id))
			}
			want = append(want, "H")
			for i := len(model) - 1; i >= 0; i-- {
				want = append(want, fmt.Sprint("-", model[i].id))
			}
			if fmt.Sprint(tr.ev) != fmt.Sprint(want) {
				t.Fail("request went through %v instead of %v", tr.ev, want)
			}
			t.Saw(fmt.Sprint(tr.ev, len(ops)))
		}
		for k := 0; k < 4; k++ {
			nheld := 1 + r.IntN(3)
			var wg sync.WaitGroup
			for i := 0; i < nheld; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					req := newReq("GET", "/hold")
					traceOf.Store(req, &trace{short: -1, boom: -1})
					mux.ServeHTTP(newRW(), req)
					traceOf.Delete(req)
				}()
			}
			for i := 0; i < nheld; i++ {
				<-held
			}
			ops = append(ops, fmt.Sprintf("hold%d", nheld))
			// No request is being set up or ends while we edit.
			switch {
			case len(model) > 0 && chance(r, 0.3):
				mux.Abandon(model[0].mw)
				model = model[1:]
				ops = append(ops, "Abandon")
			case len(model) > 0 && chance(r, 0.4):
				l := mkLayer(len(ops), true)
				mux.Insert(l.mw, model[0].mw)
				model = append([]*layer{l}, model...)
				ops = append(ops, "Insert")
			default:
				l := mkLayer(len(ops), chance(r, 0.5))
				mux.Use(l.mw)
				model = append(model[:len(model):len(model)], l)
				ops = append(ops, "Use")
			}
			if chance(r, 0.5) {
				check()
			}
			for i := 0; i < nheld; i++ {
				hold <- true
			}
			wg.Wait()
			for i := 0; i < 4; i++ {
				check()
			}
		}
	})
}

// ---- M02

// tok is what a request's context carries.
type tok struct {
	id    int64
	seen  int
	inner int // number of nested requests
}

type isoWorld struct {
	t      *T
	mux    *web.Mux
	nlay   int
	init   bool // below EnvInit, which has provided an environment
	served atomic.Int64
	hold   func() // what the handler does in between
	quiet  bool   // do nothing that synchronises requests with each other
	fails  chan string
}

var tokIDs atomic.Int64

func (w *isoWorld) failf(f string, a ...any) {
	select {
	case w.fails <- fmt.Sprintf(f, a...):
	default:
	}
}

// reqInfo travels with the request and not with the context.
type reqInfo struct {
	id    string
	ctx   bool // entered with a context
	env   map[interface{}]interface{}
	par   map[string]string
	left  int // how many more requests to nest
	boom  string
	trace int
}

type infoRW struct {
	rw
	info *reqInfo
}

func (w *isoWorld) layer(n int) web.MiddlewareType {
	key := fmt.Sprint("layer", n)
	return func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(x http.ResponseWriter, r *http.Request) {
			in := x.(*infoRW).info
			if n == 0 {
				// The outermost layer: the context must be exactly the one
				// the request was entered with.
				if w.init && in.env == nil {
					if c.Env == nil || len(c.Env) != 0 {
						w.failf("request %s starts with environment %v below EnvInit", in.id, c.Env)
					}
					c.Env["tok"] = in.id
				}
				if in.ctx {
					if w.init && in.env == nil {
						// Checked already.
					} else if (c.Env == nil) != (in.env == nil) || c.Env != nil && mapPtr(c.Env) != mapPtr(in.env) {
						w.failf("request %s starts with environment %v instead of the one given, %v", in.id, c.Env, in.env)
					}
					if (c.URLParams == nil) != (in.par == nil) || c.URLParams != nil && mapPtr(c.URLParams) != mapPtr(in.par) {
						w.failf("request %s starts with parameters %v instead of the ones given, %v", in.id, c.URLParams, in.par)
					}
				} else if c.Env != nil && !w.init || c.URLParams != nil {
					w.failf("request %s was entered without a context but starts with %v", in.id, *c)
				}
				if c.Env == nil {
					c.Env = map[interface{}]interface{}{}
				}
				c.Env["tok"] = in.id
			}
			w.check(in, *c, key, n)
			c.Env[key] = in.id
			// Write through the pointer: later layers see it.
			c.Env["deepest"] = n
			h.ServeHTTP(x, r)
			w.check(in, *c, key+" on the way out", n+1)
			if c.Env[key] != in.id {
				w.failf("request %s: %s finds %v where it had put its own id", in.id, key, c.Env[key])
			}
			if in.boom == "out" && n == 1 {
				panic("boom-out")
			}
		})
	}
}

func (w *isoWorld) check(in *reqInfo, c web.C, where string, below int) {
	in.trace++
	if c.Env["tok"] != in.id {
		w.failf("request %s: %s sees the context of request %v", in.id, where, c.Env["tok"])
		return
	}
	for i := 0; i < below && i < w.nlay; i++ {
		if c.Env[fmt.Sprint("layer", i)] != in.id {
			w.failf("request %s: %s does not see what layer %d put into the context (%v)", in.id, where, i, c.Env[fmt.Sprint("layer", i)])
		}
	}
}

func (w *isoWorld) handler(c web.C, x http.ResponseWriter, r *http.Request) {
	in := x.(*infoRW).info
	w.check(in, c, "handler", w.nlay)
	if id := c.URLParams["id"]; id != in.id {
		w.failf("request %s: handler sees parameter %q", in.id, id)
	}
	if w.hold != nil {
		w.hold()
	}
	if in.boom == "before" {
		panic("boom-before")
	}
	for ; in.left > 0; in.left-- {
		w.one(in.id+fmt.Sprintf("n%d", in.left), in.left-1, in.left%3 == 0, boomFor(in.left))
	}
	w.check(in, c, "handler after nested requests", w.nlay)
	if id := c.URLParams["id"]; id != in.id {
		w.failf("request %s: after nested requests the handler sees parameter %q", in.id, id)
	}
	if in.boom == "after" {
		panic("boom-after")
	}
}

func boomFor(i int) string { return []string{"", "after", "", "before", "out"}[i%5] }

func (w *isoWorld) one(id string, nest int, ctx bool, boom string) {
	x := &infoRW{info: &reqInfo{id: id, ctx: ctx, left: nest, boom: boom}}
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(string); !ok || !strings.HasPrefix(s, "boom-") {
				panic(p)
			}
		}
		w.served.Add(1)
	}()
	r := newReq("GET", "/req/"+id)
	if ctx {
		c := web.C{}
		if len(id)%2 == 0 {
			x.info.env = map[interface{}]interface{}{"tok": id}
			c.Env = x.info.env
		}
		if len(id)%3 == 0 {
			x.info.par = map[string]string{"given": id}
			c.URLParams = x.info.par
		}
		w.mux.ServeHTTPC(c, x, r)
	} else {
		w.mux.ServeHTTP(x, r)
	}
	want := 2*w.nlay + 2
	if boom == "" && x.info.trace != want {
		w.failf("request %s: %d of %d checkpoints reached", id, x.info.trace, want)
	}
}

func newIso(t *T, nlay int, nested bool) *isoWorld {
	w := &isoWorld{t: t, mux: web.New(), nlay: nlay, fails: make(chan string, 4)}
	if chance(t.Rng, 0.25) {
		w.init = true
		w.mux.Use(middleware.EnvInit)
	}
	for i := 0; i < nlay; i++ {
		w.mux.Use(w.layer(i))
	}
	w.mux.Handle("/req/:id", w.handler)
	w.mux.Handle("/other/*", w.handler)
	return w
}

func (w *isoWorld) report() {
	for {
		select {
		case s := <-w.fails:
			w.t.Fail("%s", s)
		default:
			return
		}
	}
}

func runM02(m *M) {
	m.Run("sequential", m.N(6000, 150000), func(t *T) {
		r := t.Rng
		w := newIso(t, 2+r.IntN(4), true)
		n := 3 + r.IntN(12)
		for i := 0; i < n; i++ {
			if chance(r, 0.05) {
				runtime.GC() // drops pooled stacks
			}
			w.one(fmt.Sprintf("%d.%s", i, strings.Repeat("x", r.IntN(4))), r.IntN(4), chance(r, 0.5), pick(r, []string{"", "", "", "before", "after", "out"}))
		}
		w.report()
		m.evals.Add(w.served.Load())
		m.SawHash(hash64("seq", fmt.Sprint(t.Index)), false)
		t.Count("requests", w.served.Load())
		t.Sample(func() any {
			return fmt.Sprintf("%d requests (nested ones included) through %d layers", w.served.Load(), w.nlay)
		})
	})
	// Requests selecting the same few routes while others on them are in
	// progress: each keeps its own parameters.
	m.Run("routes", m.N(4000, 100000), func(t *T) {
		r := t.Rng
		type rt struct {
			p    web.PatternType
			desc string
			path func(v string) string
			want func(v string) map[string]string
		}
		all := []rt{
			{"/a/*", "/a/*", func(v string) string { return "/a/" + v }, func(v string) map[string]string { return map[string]string{"*": "/" + v} }},
			{"/b/:x", "/b/:x", func(v string) string { return "/b/" + v }, func(v string) map[string]string { return map[string]string{"x": v} }},
			{"/c/:x/:y", "/c/:x/:y", func(v string) string { return "/c/" + v + "/l" }, func(v string) map[string]string { return map[string]string{"x": v, "y": "l"} }},
			{"/d/:x/*", "/d/:x/*", func(v string) string { return "/d/" + v + "/" + v }, func(v string) map[string]string { return map[string]string{"x": v, "*": "/" + v} }},
			{compileRe("^/e/(.*)"), "^/e/(.*)", func(v string) string { return "/e/" + v }, func(v string) map[string]string { return map[string]string{"$1": v} }},
			{compileRe("/f/(?P<x>[a-z0-9]*)/?(.*)"), "/f/(?P<x>[a-z0-9]*)/?(.*)", func(v string) string { return "/f/" + v + "/k" }, func(v string) map[string]string { return map[string]string{"x": v, "$2": "k"} }},
			{"/g", "/g", func(v string) string { return "/g" }, func(v string) map[string]string { return nil }},
		}
		var rts []rt
		for i, n := 0, 1+r.IntN(3); i < n; i++ {
			rts = append(rts, pick(r, all))
		}
		var log []string
		t.Desc(func() string { return strings.Join(log, " ") })
		mux := web.New()
		var visit func()
		var cur rt
		var curV string
		h := func(c web.C, w http.ResponseWriter, req *http.Request) {
			me, v := cur, curV
			want := me.want(v)
			if !eqMap(c.URLParams, want) {
				t.Fail("%s: the handler starts with parameters %v instead of %v", req.URL.Path, c.URLParams, want)
			}
			for k := r.IntN(3); k > 0; k-- {
				visit()
				if !eqMap(c.URLParams, want) {
					t.Fail("%s: after another request the parameters are %v instead of %v", req.URL.Path, c.URLParams, want)
					return
				}
			}
		}
		if chance(r, 0.5) {
			mux.Use(mux.Router)
		}
		for _, x := range rts {
			mux.Handle(x.p, h)
		}
		depthOf := 0
		visit = func() {
			if depthOf > 3 || len(log) > 60 {
				return
			}
			depthOf++
			defer func() { depthOf-- }()
			cur = pick(r, rts)
			curV = fmt.Sprint("v", len(log))
			p := cur.path(curV)
			log = append(log, p)
			if chance(r, 0.5) {
				mux.ServeHTTP(newRW(), newReq("GET", p))
			} else {
				mux.ServeHTTPC(web.C{}, newRW(), newReq("GET", p))
			}
			log = append(log, ".")
		}
		for k := 0; k < 3; k++ {
			visit()
		}
		if len(log) > 6 {
			t.Saw(strings.Join(log, " "))
		} else {
			t.Saw("")
		}
	})
	m.RunN("crowd", m.N(40, 600), 1, isoCrowd)
	m.RunN("concurrent", m.N(150, 4000), 2, func(t *T) {
		r := t.Rng
		w := newIso(t, 2+r.IntN(4), true)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					w.one(fmt.Sprintf("g%d-%d", g, i), i%3, i%2 == 0, boomFor(i))
				}
			}()
		}
		wg.Wait()
		w.report()
		m.evals.Add(w.served.Load())
		m.SawHash(hash64("conc", fmt.Sprint(t.Index)), false)
		t.Count("concurrent requests", w.served.Load())
	})
}

// isoCrowd has many requests in their handlers at the same time, none of which
// has to wait for another.
func isoCrowd(t *T) {
	r := t.Rng
	w := newIso(t, 2+r.IntN(3), false)
	n := 1 + r.IntN(1<<(4+r.IntN(9)))
	var in atomic.Int64
	all, give := make(chan struct{}), make(chan struct{})
	w.hold = func() {
		if in.Add(1) == int64(n) {
			close(all)
		}
		select {
		case <-all:
		case <-give:
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		boom, ctx := boomFor(r.IntN(10)), chance(r, 0.5)
		go func() {
			defer wg.Done()
			w.one(fmt.Sprintf("c%d", i), 0, ctx, boom)
		}()
	}
	select {
	case <-all:
	case <-time.After(60 * time.Second):
		t.Fail("of %d requests at the same time only %d have reached their handlers, where they wait for the others", n, in.Load())
		close(give)
	}
	wg.Wait()
	w.report()
	t.Saw(fmt.Sprint("crowd ", n))
	t.Count("requests in handlers at the same time", int64(n))
}

func runM02Race(m *M) {
	m.RunN("crowd", m.N(4, 60), 1, isoCrowd)
	vfsched.Set(6000, 300, -1, 0, 0)
	m.RunN("race", m.N(60, 3000), 1, func(t *T) {
		w := newIso(t, 3, true)
		// Routes of every kind share compiled patterns between requests.
		w.mux.Handle(compileRe(`^/re/(?P<id>.*)$`), w.handler)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 25; i++ {
					w.one(fmt.Sprintf("g%d-%d", g, i), i%3, i%2 == 0, boomFor(i))
				}
			}()
		}
		wg.Wait()
		w.report()
		m.evals.Add(w.served.Load())
		m.SawHash(hash64("race", fmt.Sprint(t.Index)), false)
		t.Sample(func() any { return fmt.Sprintf("%d requests from 8 goroutines", w.served.Load()) })
	})
}

// ---- M03

type called struct {
	form string
	c    web.C
	w    http.ResponseWriter
	r    *http.Request
}

func runM03(m *M) {
	m.Run("forms", m.N(20000, 500000), func(t *T) {
		r := t.Rng
		var calls []called
		rec := func(form string) hC {
			return func(c web.C, w http.ResponseWriter, r *http.Request) {
				calls = append(calls, called{form, c, w, r})
				if c.Env != nil {
					c.Env["set by "+form] = len(calls)
				}
			}
		}
		depth := r.IntN(4)
		form := pick(r, handlerForms)
		leaf, isCtx := mkHandler(form, rec(form))
		asNotFound := chance(r, 0.2)
		// Innermost first.
		mux := web.New()
		if asNotFound {
			mux.NotFound(leaf)
		} else {
			mux.Handle("/:leaf/*", leaf)
		}
		var levels []string
		plainAbove := false // a level that passes no context
		for i := 0; i < depth; i++ {
			outer := web.New()
			var h web.HandlerType = mux
			lv := "mux"
			if chance(r, 0.15) {
				inner := mux
				h, lv = func(w http.ResponseWriter, r *http.Request) { inner.ServeHTTP(w, r) }, "plain func"
				plainAbove = true
			} else if chance(r, 0.15) {
				h, lv = http.HandlerFunc(mux.ServeHTTP), "http.HandlerFunc"
				plainAbove = true
			} else if chance(r, 0.15) {
				h, lv = web.HandlerFunc(mux.ServeHTTPC), "web.HandlerFunc"
			}
			if chance(r, 0.2) {
				outer.NotFound(h)
			} else {
				outer.Handle(fmt.Sprintf("/:p%d/*", i), h)
			}
			if chance(r, 0.3) {
				outer.Use(func(c *web.C, h http.Handler) http.Handler { return h })
			}
			levels = append([]string{lv}, levels...)
			mux = outer
		}
		plainEntry := chance(r, 0.3)
		env := map[interface{}]interface{}{"given": 1}
		if chance(r, 0.2) {
			env = nil
		}
		par := map[string]string{"given": "p"}
		if chance(r, 0.2) {
			par = nil
		}
		t.Desc(func() string {
			return fmt.Sprintf("levels %v, leaf %s, not-found %v, plain entry %v, env %v, params %v", levels, form, asNotFound, plainEntry, env, par)
		})
		w, req := newRW(), spice(t.Rng, newReq("GET", "/foo/bar"))
		hadPar := par != nil
		if plainEntry {
			mux.ServeHTTP(w, req)
		} else {
			mux.ServeHTTPC(web.C{URLParams: par, Env: env}, w, req)
		}
		if len(calls) != 1 {
			t.Fail("the handler was called %d times", len(calls))
			return
		}
		c := calls[0]
		if c.w != http.ResponseWriter(w) || c.r != req {
			t.Fail("the handler was called with another writer or request: %T %p, %p", c.w, c.w, c.r)
		}
		t.Saw(fmt.Sprint(levels, form, asNotFound, plainEntry, env == nil, par == nil))
		if !isCtx {
			if c.c.Env != nil || c.c.URLParams != nil {
				t.Fail("harness: plain handler with context")
			}
			return
		}
		given := !plainEntry && !plainAbove
		if given && env != nil {
			if c.c.Env == nil || mapPtr(c.c.Env) != mapPtr(env) {
				t.Fail("the handler's environment %v is not the one given, %v", c.c.Env, env)
			} else if env["set by "+form] != 1 {
				t.Fail("what the handler put into the environment is not visible outside")
			}
		} else if c.c.Env["given"] != nil || c.c.Env["plain"] != nil {
			t.Fail("the handler sees an environment it should not: %v", c.c.Env)
		}
		if given && hadPar {
			if c.c.URLParams["given"] != "p" {
				t.Fail("the handler's parameters %v are not the ones given, %v", c.c.URLParams, par)
			}
		} else if c.c.URLParams["given"] != "" {
			t.Fail("the handler sees parameters it should not: %v", c.c.URLParams)
		}
		if !asNotFound && c.c.URLParams["leaf"] != "foo" {
			t.Fail("the handler does not see the parameters of its route: %v", c.c.URLParams)
		}
		if !plainAbove && !asNotFound {
			for i := range levels {
				_ = i
			}
		}
		t.Sample(func() any {
			return fmt.Sprintf("levels %v, leaf %s: called once with params %s", levels, form, fmtMap(c.c.URLParams))
		})
	})

	// Parameters of all levels are visible in the leaf, and changes to the
	// environment are visible in the middleware of every level afterwards.
	m.Run("propagation", m.N(10000, 200000), func(t *T) {
		r := t.Rng
		depth := 1 + r.IntN(4)
		var sawLeaf web.C
		leaf := web.New()
		leaf.Handle("/:z/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			sawLeaf = c
			c.Env["leaf"] = "done"
		})
		mux := leaf
		after := make([]any, depth)
		envs := make([]uintptr, depth)
		for i := depth - 1; i >= 0; i-- {
			outer := web.New()
			outer.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if c.Env == nil {
						c.Env = map[interface{}]interface{}{}
					}
					envs[i] = mapPtr(c.Env)
					c.Env[fmt.Sprint("lvl", i)] = i
					h.ServeHTTP(w, r)
					after[i] = c.Env["leaf"]
				})
			})
			outer.Handle(fmt.Sprintf("/:p%d/*", i), mux)
			mux = outer
		}
		t.Desc(func() string { return fmt.Sprintf("%d levels", depth) })
		seg := pick(r, []string{"foo", "a", "b.c"})
		req := spice(t.Rng, newReq("GET", "/"+seg+"/x"))
		if chance(r, 0.5) {
			mux.ServeHTTP(newRW(), req)
		} else {
			mux.ServeHTTPC(web.C{}, newRW(), req)
		}
		for i := 0; i < depth; i++ {
			if after[i] != "done" {
				t.Fail("level %d of %d does not see what the handler put into the environment", i, depth)
			}
			if envs[i] != envs[0] {
				t.Fail("level %d of %d has another environment", i, depth)
			}
			if sawLeaf.URLParams[fmt.Sprintf("p%d", i)] != seg {
				t.Fail("the handler does not see parameter p%d: %v", i, sawLeaf.URLParams)
			}
			if sawLeaf.Env[fmt.Sprint("lvl", i)] != i {
				t.Fail("the handler does not see what level %d put into the environment: %v", i, sawLeaf.Env)
			}
		}
		t.Saw(fmt.Sprint("prop", depth, seg, t.Index%1000))
	})

	// A context-aware handler used as a plain one gets an empty context.
	m.Run("plain", m.N(200, 2000), func(t *T) {
		n := 0
		hf := web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) {
			n++
			if c.Env != nil || c.URLParams != nil {
				t.Fail("web.HandlerFunc used as http.Handler sees %v", c)
			}
			c.Env = map[interface{}]interface{}{"x": n}
		})
		var h http.Handler = hf
		h.ServeHTTP(newRW(), newReq("GET", "/"))
		mux := web.New()
		mux.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
			n++
			if c.Env != nil || !reflect.DeepEqual(c.URLParams, map[string]string{"*": "/a"}) {
				t.Fail("handler of a mux entered as http.Handler sees %v", c)
			}
		})
		mux.ServeHTTP(newRW(), newReq("GET", "/a"))
		if n != 2 {
			t.Fail("%d of 2 handlers ran", n)
		}
		t.Saw(fmt.Sprint("plain", t.Index))
	})
}
