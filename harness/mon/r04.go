package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"

	"github.com/zenazn/goji/web"
)

func init() {
	props["R04/main"] = prop{"tables mixing pattern kinds (each wrapped in a Pattern that logs how it is consulted) and plain ones, requests with pre-existing parameters and environments; the log of consultations, the parameters, context and request the handler sees are compared with the selected route alone. A request is trivial if no pattern matches its path.", runR04}
	props["R05/main"] = prop{"random tables and requests; the list of valid methods the not-found handler finds is compared with re-issuing the request with every method, and with the naive oracle. A request is trivial if it is routed and could be with every method.", runR05}
	props["R07/main"] = prop{"stacks with the routing middleware at random places, middleware that inspects, replaces, removes or garbles the match, and logging patterns; the match is compared with what plain dispatch selects. A request is trivial if nothing matches.", runR07}
}

// logPat logs how a pattern is used to the request it is used for.
type logPat struct {
	inner web.Pattern
	id    int
}

type consult struct {
	id  int
	op  string // "match", "run"
	ret bool
}

type reqLog struct {
	calls []consult
	req   *http.Request
	ctx   *web.C
	bad   string
}

func (p *logPat) Prefix() string { return p.inner.Prefix() }
func (p *logPat) rec(r *http.Request, c *web.C, op string, ret bool) {
	if c == nil {
		return
	}
	l, ok := c.Env["log"].(*reqLog)
	if !ok {
		return
	}
	if r != l.req {
		l.bad = "a pattern was given another request"
	}
	if l.ctx == nil {
		l.ctx = c
	} else if l.ctx != c {
		l.bad = "patterns were given different contexts"
	}
	l.calls = append(l.calls, consult{p.id, op, ret})
}
func (p *logPat) Match(r *http.Request, c *web.C) bool {
	ok := p.inner.Match(r, c)
	p.rec(r, c, "match", ok)
	return ok
}
func (p *logPat) Run(r *http.Request, c *web.C) {
	p.rec(r, c, "run", true)
	p.inner.Run(r, c)
}

// logged wraps a pattern so that consultations are logged under id.
func (p *pat) logged(id int) *pat {
	q := *p
	q.raw = &logPat{web.ParsePattern(p.raw), id}
	q.desc = "logged " + p.desc
	return &q
}

// checkLog compares a log of consultations with what routing may do.
func (tb *table) checkLog(t *T, l *reqLog, want int, method, path string) {
	if l.bad != "" {
		t.Fail("%s %q: %s", method, path, l.bad)
	}
	last := -1
	runs := 0
	for i, c := range l.calls {
		switch c.op {
		case "match":
			// The same pattern may be asked more than once, but never an
			// earlier one after a later one.
			if c.id < last {
				t.Fail("%s %q: pattern %d consulted after pattern %d: %v", method, path, c.id, last, l.calls)
				return
			}
			last = c.id
			if want != notFoundID && c.id > want {
				t.Fail("%s %q: pattern %d consulted though route %d matches: %v", method, path, c.id, want, l.calls)
				return
			}
			if runs > 0 {
				t.Fail("%s %q: pattern consulted after the selected one was run: %v", method, path, l.calls)
				return
			}
		case "run":
			runs++
			if c.id != want {
				t.Fail("%s %q: pattern %d was run, but route %d is selected: %v", method, path, c.id, want, l.calls)
				return
			}
			if i == 0 || l.calls[i-1] != (consult{c.id, "match", true}) {
				t.Fail("%s %q: pattern %d was run before it matched: %v", method, path, c.id, l.calls)
				return
			}
		}
	}
	if want != notFoundID {
		if _, ok := tb.routes[want].p.raw.(*logPat); ok && runs != 1 {
			t.Fail("%s %q: the selected pattern %d was run %d times: %v", method, path, want, runs, l.calls)
		}
	} else if runs != 0 {
		t.Fail("%s %q: a pattern was run though no route is selected: %v", method, path, l.calls)
	}
}

// overlapping makes routes that often match the same paths, each binding names.
func overlappingPat(r *rand.Rand) *pat {
	switch r.IntN(14) {
	case 0:
		return strPat("/:a/:b")
	case 1:
		return strPat("/:name/*")
	case 2:
		return strPat("/x/:b")
	case 3:
		return strPat("/:a.:b")
	case 4:
		return rePat(compileRe(`^/(?P<name>[a-z]+)/(?P<id>\w+)$`), "/foo/1", "/x/a")
	case 5:
		return rePat(compileRe(`/(\w+)`), "/x/a", "/foo")
	case 6:
		return rePat(compileRe(`^/x/(?P<_>.*)$|^/foo/(b)`), "/x/a", "/foo/b", "/foo/1")
	case 7:
		return strPat("/*")
	case 8:
		return customPat("/", "any", preds[0].f, map[string]string{"custom": "1", "a": "c"})
	case 9:
		return customPat("/x", "even", preds[2].f, map[string]string{"name": "cc"})
	case 10:
		return strPat("/x/a")
	case 11:
		return strPat("/foo/:id")
	}
	return randTablePat(r)
}

func overlappingPath(r *rand.Rand, ps []*pat) string {
	if chance(r, 0.6) {
		return pick(r, []string{"/x/a", "/foo/b", "/foo/1", "/a.b", "/x", "/", "/x/a/b", "/foo", "/foo/bar.baz"})
	}
	return randPath(r, ps)
}

func runR04(m *M) {
	m.Run("random", m.N(40000, 1000000), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(tb.String)
		type seen struct {
			c web.C
			r *http.Request
			w http.ResponseWriter
		}
		var s *seen
		tb.handle = func(id int, c web.C, w http.ResponseWriter, r *http.Request) {
			s = &seen{c, r, w}
			w.(*rw).hits = append(w.(*rw).hits, id)
		}
		var ps []*pat
		for i := 1 + r.IntN(9); i > 0; i-- {
			p := overlappingPat(r)
			ps = append(ps, p)
			q := p
			if chance(r, 0.7) {
				q = p.logged(len(tb.routes))
			}
			tb.addForm(randReg(r), q, pick(r, []string{"func(c,w,r)", "web.Handler", "both"}))
		}
		tb.mux.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { tb.handle(notFoundID, c, w, r) })
		tb.nfSet = true
		for i := 0; i < 10; i++ {
			me, path := randMethod(r), overlappingPath(r, ps)
			req := spice(r, newReq(me, path))
			req.URL.RawQuery = "q=1"
			l := &reqLog{req: req}
			base := randBase(r)
			env := map[interface{}]interface{}{"log": l, "other": i}
			c := web.C{Env: env}
			if base != nil {
				c.URLParams = overlay(base, nil)
			}
			s = nil
			w := newRW()
			tb.mux.ServeHTTPC(c, w, req)
			want, binds := tb.expect(me, path)
			tb.checkHit(t, w, want, me, path)
			if s == nil {
				continue
			}
			tb.checkLog(t, l, want, me, path)
			if exp := overlay(base, binds); !eqMap(s.c.URLParams, exp) {
				t.Fail("%s %q: with parameters %s before, handler %d sees %s instead of %s", me, path, fmtMap(base), want, fmtMap(s.c.URLParams), fmtMap(exp))
			}
			if s.r != req || s.w != http.ResponseWriter(w) || req.Method != me || req.URL.Path != path || req.URL.RawQuery != "q=1" {
				t.Fail("%s %q: the handler was given another request: %s %v", me, path, s.r.Method, s.r.URL)
			}
			if s.c.Env["log"] != any(l) || s.c.Env["other"] != i {
				t.Fail("%s %q: the handler was given another environment", me, path)
			}
			extra := len(env) - 2
			if _, ok := env[web.ValidMethodsKey]; ok {
				extra--
			}
			if extra != 0 {
				t.Fail("%s %q: routing left entries in the environment: %v", me, path, env)
			}
			key := tb.sawKey(me, path, want)
			if key != "" {
				key += fmtMap(base)
			}
			t.Saw(key)
			t.Count("pattern consultations logged", int64(len(l.calls)))
			if len(l.calls) > 2 {
				t.Sample(func() any { return fmt.Sprintf("%s; %s %q -> %d, consulted %v", tb, me, path, want, l.calls) })
			}
		}
	})
}

func runR05(m *M) {
	m.Run("random", m.N(40000, 1000000), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(tb.String)
		var got web.C
		tb.handle = func(id int, c web.C, w http.ResponseWriter, r *http.Request) {
			got = c
			w.(*rw).hits = append(w.(*rw).hits, id)
		}
		var ps []*pat
		for i := 1 + r.IntN(10); i > 0; i-- {
			p := overlappingPat(r)
			if len(ps) > 0 && chance(r, 0.4) {
				p = pick(r, ps)
			}
			ps = append(ps, p)
			g := regs[1+r.IntN(len(regs)-1)]
			if chance(r, 0.1) {
				g = regs[0]
			}
			tb.addForm(g, p, pick(r, []string{"func(c,w,r)", "web.HandlerFunc"}))
		}
		tb.mux.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { tb.handle(notFoundID, c, w, r) })
		tb.nfSet = true
		try := func(me, path string, c web.C) int {
			got = web.C{}
			w := newRW()
			tb.mux.ServeHTTPC(c, w, spice(r, newReq(me, path)))
			if len(w.hits) != 1 {
				t.Fail("%s %q: handlers %v ran", me, path, w.hits)
				return notFoundID
			}
			return w.hits[0]
		}
		for i := 0; i < 6; i++ {
			me, path := randMethod(r), overlappingPath(r, ps)
			// Which methods would be routed, according to the mux itself?
			var valid []string
			for _, s := range stdMethods {
				if try(s, path, web.C{}) != notFoundID {
					valid = append(valid, s)
				}
			}
			if o := tb.valid(path); fmt.Sprint(o) != fmt.Sprint(valid) {
				t.Fail("%q is routed with methods %v, should be with %v", path, valid, o)
			}
			var c web.C
			env := map[interface{}]interface{}{"x": i, 7: "seven", web.MatchKey: "not a match"}
			if chance(r, 0.5) {
				c.Env = env
			}
			stale := false
			id := try(me, path, web.C{})
			if chance(r, 0.3) && c.Env != nil && (id != notFoundID || len(valid) > 0) {
				// A value from elsewhere: overwritten if nothing is
				// selected, and left alone otherwise.
				env[web.ValidMethodsKey], stale = "stale", true
				if chance(r, 0.5) && id == notFoundID {
					env[web.ValidMethodsKey] = []string{"STALE"}
				}
			}
			id = try(me, path, c)
			v, set := got.Env[web.ValidMethodsKey]
			l, isList := v.([]string)
			switch {
			case id != notFoundID:
				if set && !(stale && v == "stale") {
					t.Fail("%s %q is routed to %d, but the valid methods are set to %v", me, path, id, v)
				}
			case len(valid) == 0:
				if set {
					t.Fail("%s %q cannot be routed with any method, but the valid methods are set to %v", me, path, v)
				}
			case !set || !isList || fmt.Sprint(l) != fmt.Sprint(valid):
				t.Fail("%s %q: valid methods are %v, should be %v", me, path, v, valid)
			}
			if c.Env != nil {
				n := 3
				if set {
					n++
				}
				if got.Env["x"] != i || got.Env[7] != "seven" || got.Env[web.MatchKey] != "not a match" || len(got.Env) != n {
					t.Fail("%s %q: the environment was not preserved: %v", me, path, got.Env)
				}
				if mapPtr(got.Env) != mapPtr(c.Env) {
					t.Fail("%s %q: the environment was replaced", me, path)
				}
			}
			if !stale && chance(r, 0.5) {
				// The list is this request's own.
				for i := range l {
					l[i] += "!"
				}
				_ = append(l, "extra")
			}
			key := ""
			if id == notFoundID || len(valid) < len(stdMethods) {
				key = fmt.Sprint(me, path, valid, id, len(tb.routes))
			}
			t.Saw(key)
			if id == notFoundID && len(valid) > 0 {
				t.Count("404s with valid methods", 1)
				t.Sample(func() any { return fmt.Sprintf("%s; %s %q: valid %v", tb, me, path, valid) })
			}
		}
	})
}

func runR07(m *M) {
	m.Run("random", m.N(30000, 800000), func(t *T) {
		r := t.Rng
		tb := newTable()
		mode := ""
		t.Desc(func() string { return tb.String() + "; mode " + mode })
		var got *web.C
		var handlers []web.HandlerType
		tb.handle = func(id int, c web.C, w http.ResponseWriter, r *http.Request) {
			got = &c
			w.(*rw).hits = append(w.(*rw).hits, id)
		}
		var ps []*pat
		rawPats := map[int]bool{}
		for i := r.IntN(8); i >= 0; i-- {
			p := overlappingPat(r)
			ps = append(ps, p)
			q := p
			if chance(r, 0.5) {
				q = p.logged(len(tb.routes))
			} else {
				rawPats[len(tb.routes)] = true
			}
			form := pick(r, handlerForms)
			if form == "func(w,r)" || form == "http.HandlerFunc" || form == "http.Handler" {
				// still fine: these see no context
				_ = form
			}
			handlers = append(handlers, tb.addForm(randReg(r), q, form))
		}
		nf, _ := mkHandler(pick(r, handlerForms), tb.hc(notFoundID))
		tb.mux.NotFound(nf)
		tb.nfSet = true

		// What happens between the routing middleware and the router.
		mode = pick(r, []string{"inspect", "inspect", "inspect", "replace", "delete", "nilhandler", "wrongtype", "pointer", "none", "preset"})
		const replID = 1000
		var inspected *web.Match
		var inspParams map[string]string
		var nlog int
		var l *reqLog
		replH, _ := mkHandler(pick(r, []string{"web.Handler", "web.HandlerFunc", "both"}), func(c web.C, w http.ResponseWriter, r *http.Request) { tb.handle(replID, c, w, r) })
		meddle := func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				mt := web.GetMatch(*c)
				inspected = &mt
				inspParams = overlay(c.URLParams, nil)
				nlog = len(l.calls)
				switch mode {
				case "replace":
					c.Env[web.MatchKey] = web.Match{Handler: replH.(web.Handler)}
				case "delete":
					delete(c.Env, web.MatchKey)
				case "nilhandler":
					c.Env[web.MatchKey] = web.Match{Pattern: mt.Pattern}
				case "wrongtype":
					c.Env[web.MatchKey] = "nonsense"
				case "pointer":
					c.Env[web.MatchKey] = &web.Match{Handler: replH.(web.Handler)}
				}
				h.ServeHTTP(w, r)
			})
		}
		pass := func(h http.Handler) http.Handler { return h }
		if mode == "preset" {
			// A match that comes with the request is executed, too.
			tb.mux.Use(func(c *web.C, h http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if c.Env == nil {
						c.Env = map[interface{}]interface{}{}
					}
					c.Env[web.MatchKey] = web.Match{Handler: replH.(web.Handler)}
					h.ServeHTTP(w, r)
				})
			})
		} else if mode != "none" {
			if chance(r, 0.3) {
				tb.mux.Use(pass)
			}
			tb.mux.Use(tb.mux.Router)
			if chance(r, 0.3) {
				tb.mux.Use(pass)
			}
			if chance(r, 0.1) && mode == "inspect" {
				tb.mux.Use(tb.mux.Router) // twice: routes twice
			}
		}
		if mode != "preset" {
			tb.mux.Use(meddle)
		}

		for i := 0; i < 6; i++ {
			me, path := randMethod(r), overlappingPath(r, ps)
			req := spice(r, newReq(me, path))
			l = &reqLog{req: req}
			base := randBase(r)
			c := web.C{Env: map[interface{}]interface{}{"log": l, "other": i}}
			noEnv := chance(r, 0.2) && mode != "none"
			if noEnv {
				c.Env = nil
			}
			if base != nil {
				c.URLParams = overlay(base, nil)
			}
			if mode == "none" && chance(r, 0.5) {
				c.Env[web.MatchKey] = pick(r, []any{web.Match{}, "x", 1, nil, &web.Match{Handler: replH.(web.Handler)}, web.Match{Pattern: strPatParsed("/x")}})
			}
			if mode != "none" && mode != "preset" && c.Env != nil && chance(r, 0.3) {
				// Routing information from elsewhere, such as an outer mux.
				c.Env[web.MatchKey] = pick(r, []any{web.Match{Handler: replH.(web.Handler)}, web.Match{Pattern: strPatParsed("/outer/*"), Handler: replH.(web.Handler)}, "x"})
				t.Count("requests that came with a match", 1)
			}
			got, inspected = nil, nil
			w := newRW()
			tb.mux.ServeHTTPC(c, w, req)
			want, binds := tb.expect(me, path)
			key := tb.sawKey(me, path, want)
			if key != "" {
				key += mode
			}
			t.Saw(key)
			if mode == "preset" || mode == "replace" {
				tb.checkHit(t, w, replID, me, path)
			} else {
				tb.checkHit(t, w, want, me, path)
			}
			if mode == "preset" {
				if len(l.calls) != 0 {
					t.Fail("%s %q: patterns were consulted though a match was present: %v", me, path, l.calls)
				}
				continue
			}
			if inspected == nil {
				t.Fail("%s %q: middleware did not run", me, path)
				continue
			}
			if mode == "none" {
				continue
			}
			// The match must be the selected route's.
			exp := overlay(base, binds)
			if want == notFoundID {
				if inspected.Pattern != nil || !sameValue(inspected.RawHandler(), nf) {
					t.Fail("%s %q: nothing is selected, but the match is %v, %v", me, path, inspected.Pattern, inspected.RawHandler())
				}
				if inspected.RawPattern() != nil {
					t.Fail("%s %q: nothing is selected, but the raw pattern is %v", me, path, inspected.RawPattern())
				}
			} else {
				if inspected.Pattern == nil || !sameValue(inspected.RawPattern(), tb.routes[want].p.raw) {
					t.Fail("%s %q: the match's original pattern is %v instead of %v", me, path, inspected.RawPattern(), tb.routes[want].p.raw)
				}
				if !sameValue(inspected.RawHandler(), handlers[want]) {
					t.Fail("%s %q: the match's original handler is %T %v instead of %T of route %d", me, path, inspected.RawHandler(), inspected.RawHandler(), handlers[want], want)
				}
			}
			if !eqMap(inspParams, exp) {
				t.Fail("%s %q: after routing the parameters are %s instead of %s", me, path, fmtMap(inspParams), fmtMap(exp))
			}
			if (mode == "inspect" || mode == "replace") && len(l.calls) != nlog {
				t.Fail("%s %q: patterns were consulted again though a match was present: %v", me, path, l.calls[nlog:])
			}
			if got != nil && (got.Env != nil) && mode != "replace" {
				if !eqMap(got.URLParams, exp) {
					t.Fail("%s %q: handler %d sees parameters %s instead of %s", me, path, want, fmtMap(got.URLParams), fmtMap(exp))
				}
				if mt := web.GetMatch(*got); mode == "inspect" && (!sameValue(mt.RawHandler(), inspected.RawHandler())) {
					t.Fail("%s %q: the handler finds another match", me, path)
				}
			}
			t.Count("matches compared: "+mode, 1)
			t.Sample(func() any {
				return fmt.Sprintf("%s; mode %s; %s %q -> route %d, raw pattern %v", tb, mode, me, path, want, inspected.RawPattern())
			})
		}
	})
	// A context without (well-formed) routing information has an empty match.
	m.Run("getmatch", 1, func(t *T) {
		for _, c := range []web.C{{}, {Env: map[interface{}]interface{}{}}, {Env: map[interface{}]interface{}{web.MatchKey: 1}},
			{Env: map[interface{}]interface{}{web.MatchKey: &web.Match{}}}, {Env: map[interface{}]interface{}{web.MatchKey: nil}}} {
			if mt := web.GetMatch(c); mt.Handler != nil || mt.Pattern != nil {
				t.Fail("GetMatch(%v) = %v", c, mt)
			}
			t.Saw(fmt.Sprint("getmatch", c))
		}
	})
	_ = strings.Join
}

func strPatParsed(s string) web.Pattern { return web.ParsePattern(s) }
