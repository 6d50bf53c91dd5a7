package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"regexp"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

func init() {
	props["B01/main"] = prop{"trees of nested muxes mounted under string and regular-expression patterns, with and without explicit routing at each level, whose requests return or panic at any depth: the path and match seen inside each level, the handler that runs and the state restored on exit are compared with a recursive model; and the bare middleware around handlers that tamper with everything. A request is trivial if no suffix was bound for it.", runB01}
}

type b01route struct {
	p     *pat
	id    int
	mount bool
}

type b01level struct {
	sub, rtOut, rtIn bool
	routes           []b01route
	next             *b01level
	mux              *web.Mux
}

type b01req struct {
	t      *T
	trace  []string
	boomAt string // the point at which to panic
	depth  int
}

// rawPath gives some requests the path as sent, in an encoding that is not the
// default one, and returns the escaped path.
func rawPath(r *rand.Rand, req *http.Request) string {
	if chance(r, 0.3) {
		var b strings.Builder
		for i := 0; i < len(req.URL.Path); i++ {
			if c := req.URL.Path[i]; chance(r, 0.3) || c >= 0x7f || c <= ' ' || c == '%' || c == '?' || c == '#' {
				fmt.Fprintf(&b, "%%%02X", c)
			} else {
				b.WriteByte(c)
			}
		}
		req.URL.RawPath = b.String()
	}
	return req.URL.EscapedPath()
}

func matchState(c web.C) string {
	v, ok := c.Env[web.MatchKey]
	if !ok {
		return "none"
	}
	m, isM := v.(web.Match)
	if !isM {
		return fmt.Sprintf("other %v", v)
	}
	return fmt.Sprintf("%T %v %T %p", m.Pattern, m.RawPattern(), m.Handler, m.RawHandler())
}

type b01rw struct {
	rw
	q *b01req
}

func (q *b01req) at(s string) {
	q.trace = append(q.trace, s)
	if s == q.boomAt || q.boomAt == "*" {
		panic("boom")
	}
}

func runB01(m *M) {
	m.Run("trees", m.N(25000, 600000), func(t *T) {
		r := t.Rng
		depth := 1 + r.IntN(4)
		var levels []*b01level
		starred, routed := false, false
		id := 0
		var desc []string
		t.Desc(func() string { return strings.Join(desc, "\n") })
		for i := 0; i < depth; i++ {
			l := &b01level{mux: web.New()}
			l.sub = chance(r, 0.85) || routed
			l.rtOut, l.rtIn = chance(r, 0.15), chance(r, 0.4)
			if l.rtOut && !l.sub {
				l.rtOut, l.rtIn = false, true
			}
			nr := 1 + r.IntN(4)
			mountAt := -1
			if i+1 < depth {
				mountAt = r.IntN(nr)
			}
			for k := 0; k < nr; k++ {
				rt := b01route{id: id}
				id++
				seg := "/" + pick(r, []string{"a", "b", "ab", "foo", "x.y"})
				switch {
				case k == mountAt:
					rt.mount = true
					switch x := r.IntN(10); {
					case x < 3 && !starred:
						rt.p = rePat(regexp.MustCompile(`^`+regexp.QuoteMeta(seg)+`(?P<_>/.*)$`), seg)
					case x < 4 && !starred:
						rt.p = rePat(regexp.MustCompile(`^`+regexp.QuoteMeta(seg)+`(?P<_>.*)$`), seg)
					case x == 4:
						rt.p = strPat("/*")
						starred = true
					case x < 7:
						rt.p = strPat(seg + "/:" + pick(r, []string{"id", "name"}) + "/*")
						starred = true
					default:
						rt.p = strPat(seg + "/*")
						starred = true
					}
				case chance(r, 0.4):
					rt.p = strPat(seg)
				case chance(r, 0.5):
					rt.p = strPat(seg + "/:name")
				case chance(r, 0.3):
					rt.p = strPat("/:id/*")
				default:
					rt.p = strPat("/")
				}
				l.routes = append(l.routes, rt)
			}
			routed = l.rtIn || l.rtOut
			levels = append(levels, l)
			if i > 0 {
				levels[i-1].next = l
			}
			desc = append(desc, fmt.Sprintf("level %d: SubRouter %v, Router outside %v, Router inside %v", i, l.sub, l.rtOut, l.rtIn))
			for _, rt := range l.routes {
				desc = append(desc, fmt.Sprintf("  %d %s mount=%v", rt.id, rt.p.desc, rt.mount))
			}
		}
		for i, l := range levels {
			lvl := i
			probe := func(where string) web.MiddlewareType {
				return func(c *web.C, h http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						q := w.(*b01rw).q
						path, raw, ms := r.URL.Path, r.URL.EscapedPath(), matchState(*c)
						name := fmt.Sprintf("%s%d", where, lvl)
						_, bound := c.URLParams["*"]
						if _, ok := c.URLParams["_"]; ok {
							bound = true
						}
						if where == "out" {
							defer func() {
								if r.URL.Path != path {
									t.Fail("level %d: the path was %q before and is %q afterwards", lvl, path, r.URL.Path)
								} else if e := r.URL.EscapedPath(); e != raw {
									t.Fail("level %d: the escaped path was %q before and is %q afterwards", lvl, raw, e)
								}
								if ms2 := matchState(*c); bound && ms2 != ms {
									t.Fail("level %d: the explicit match was %s before and is %s afterwards", lvl, ms, ms2)
								}
							}()
						} else {
							name += fmt.Sprintf(" %q", path)
							if l.sub && ms != "none" && bound {
								t.Fail("level %d: inside the sub-router there is still an explicit match %s", lvl, ms)
							}
						}
						q.at(name)
						h.ServeHTTP(w, r)
						q.at("back-" + name)
					})
				}
			}
			if l.rtOut {
				l.mux.Use(l.mux.Router)
			}
			if l.sub {
				l.mux.Use(probe("out"))
				l.mux.Use(middleware.SubRouter)
			}
			l.mux.Use(probe("in"))
			if l.rtIn {
				l.mux.Use(l.mux.Router)
			}
			for _, rt := range l.routes {
				if rt.mount {
					l.mux.Handle(rt.p.raw, l.next0(levels, i))
					continue
				}
				l.mux.Handle(rt.p.raw, func(w http.ResponseWriter, r *http.Request) {
					w.(*b01rw).q.at(fmt.Sprintf("h%d %q", rt.id, r.URL.Path))
				})
			}
			l.mux.NotFound(func(w http.ResponseWriter, r *http.Request) {
				w.(*b01rw).q.at(fmt.Sprintf("nf%d %q", lvl, r.URL.Path))
			})
		}
		for k := 0; k < 12; k++ {
			// A path that goes some way down the tree.
			path := ""
			for _, l := range levels {
				var mt *b01route
				for j := range l.routes {
					if l.routes[j].mount {
						mt = &l.routes[j]
					}
				}
				if mt == nil || chance(r, 0.15) {
					path += pick(r, l.routes).p.eg(r)
					break
				}
				e := mt.p.eg(r)
				if l.next.sub {
					if s, ok := mt.p.raw.(string); ok && strings.HasSuffix(s, "/*") {
						// Drop the example's own tail.
						if _, b := mt.p.want(e); b != nil {
							e = strings.TrimSuffix(e, b["*"])
						}
					}
					path += e
				} else {
					path += e
					break
				}
			}
			if chance(r, 0.2) {
				path = mutate(r, path)
			}
			c := web.C{}
			if chance(r, 0.5) {
				c.Env = map[interface{}]interface{}{"x": 1}
			}
			if chance(r, 0.1) {
				c.URLParams = map[string]string{"*": path, "other": "o"}
			} else if chance(r, 0.1) && !starred {
				c.URLParams = map[string]string{"_": path}
			} else if chance(r, 0.1) {
				c.URLParams = map[string]string{"other": "o"}
			}
			orig := path
			if c.URLParams != nil && chance(r, 0.5) && levels[0].sub {
				if _, ok := c.URLParams["other"]; !ok || len(c.URLParams) == 2 {
					orig = "/mounted" + path
				}
			}
			// What should happen.
			var want []string
			suffix := false
			p := orig
			params := c.URLParams
			var back []string
			for i, l := range levels {
				if l.sub {
					want = append(want, fmt.Sprintf("out%d", i))
					back = append(back, fmt.Sprintf("back-out%d", i))
					if s, ok := params["*"]; ok {
						p, suffix = s, true
					} else if s, ok := params["_"]; ok {
						p, suffix = s, true
					}
				}
				in := fmt.Sprintf("in%d %q", i, p)
				want = append(want, in)
				back = append(back, "back-"+in)
				sel := -1
				var binds map[string]string
				for j, rt := range l.routes {
					if ok, b := rt.p.want(p); ok {
						sel, binds = j, b
						break
					}
				}
				if sel < 0 {
					want = append(want, fmt.Sprintf("nf%d %q", i, p))
					break
				}
				if l.rtOut && l.sub {
					// That Router already bound the parameters of whatever
					// matches the unstripped path, before SubRouter looked.
				}
				if !l.routes[sel].mount {
					want = append(want, fmt.Sprintf("h%d %q", l.routes[sel].id, p))
					break
				}
				params = overlay(params, binds)
			}
			for i := len(back) - 1; i >= 0; i-- {
				want = append(want, back[i])
			}
			// A Router outside SubRouter binds parameters SubRouter then
			// uses; such trees are only checked for restoring.
			exact := true
			for _, l := range levels {
				if l.rtOut {
					exact = false
				}
			}
			q := &b01req{t: t}
			paniced := false
			if chance(r, 0.3) && exact {
				j := r.IntN(len(want))
				q.boomAt = want[j]
				want = want[:j+1]
				paniced = true
			}
			req := spice(r, newReq("GET", orig))
			raw := rawPath(r, req)
			w := &b01rw{q: q}
			n := len(desc)
			desc = append(desc, fmt.Sprintf("request %q with %v, panics at %q", orig, c.URLParams, q.boomAt))
			before := matchState(c)
			_, topBound := c.URLParams["*"]
			if _, ok := c.URLParams["_"]; ok {
				topBound = true
			}
			func() {
				defer func() {
					if x := recover(); x != nil && x != "boom" {
						panic(x)
					} else if exact && (x != nil) != paniced {
						t.Fail("panic: %v", x)
					}
				}()
				levels[0].mux.ServeHTTPC(c, w, req)
			}()
			if exact && strings.Join(q.trace, " ") != strings.Join(want, " ") {
				t.Fail("the request went\n%v instead of\n%v", q.trace, want)
			}
			if req.URL.Path != orig {
				t.Fail("the path was %q before and is %q afterwards", orig, req.URL.Path)
			} else if e := req.URL.EscapedPath(); e != raw {
				t.Fail("the escaped path was %q before and is %q afterwards", raw, e)
			}
			if levels[0].sub && !levels[0].rtOut && topBound {
				if after := matchState(c); after != before {
					t.Fail("the explicit match was %s before and is %s afterwards", before, after)
				}
			}
			key := ""
			if suffix || !exact {
				key = strings.Join(q.trace, " ") + desc[0]
			}
			t.Saw(key)
			t.Sample(func() any { return desc[len(desc)-1] + " went " + strings.Join(q.trace, ", ") })
			desc = desc[:n]
		}
	})

	m.Run("bare", m.N(40000, 800000), func(t *T) {
		r := t.Rng
		c := web.C{}
		old := pick(r, []string{"/a/b", "/", "", "/x/y/z", "*"})
		want := old
		if chance(r, 0.9) {
			c.URLParams = map[string]string{}
			if chance(r, 0.4) {
				c.URLParams["_"] = pick(r, []string{"/u", "", "/", "u", "/a/b"})
				want = c.URLParams["_"]
			}
			if chance(r, 0.5) {
				c.URLParams["*"] = pick(r, []string{"/s", "", "/", "s", "/a/b"})
				want = c.URLParams["*"]
			}
			if chance(r, 0.5) {
				c.URLParams["$1"] = "/no"
			}
		}
		bound := len(c.URLParams) > 1 || len(c.URLParams) == 1 && c.URLParams["$1"] == ""
		mkMatch := func() web.Match {
			mm := web.Match{Handler: web.HandlerFunc(func(web.C, http.ResponseWriter, *http.Request) {})}
			if chance(r, 0.5) {
				mm.Pattern = web.ParsePattern("/p")
			}
			return mm
		}
		if chance(r, 0.7) {
			c.Env = map[interface{}]interface{}{"k": "v"}
			if chance(r, 0.6) {
				c.Env[web.MatchKey] = mkMatch()
			}
		}
		env0 := c.Env
		ms := matchState(c)
		var tamper []string
		boom := chance(r, 0.3)
		calls := 0
		req := spice(r, newReq("GET", old))
		raw := rawPath(r, req)
		w := newRW()
		var plan []int
		for k := r.IntN(4); k > 0; k-- {
			plan = append(plan, r.IntN(5))
		}
		t.Desc(func() string {
			return fmt.Sprintf("path %q params %v env %v match %s tampering %v panic %v", old, c.URLParams, env0, ms, tamper, boom)
		})
		h := middleware.SubRouter(&c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
			calls++
			if !bound && (w2 != http.ResponseWriter(w) || r2 != req) {
				t.Fail("no suffix is bound, but the writer or the request is not the original one")
			}
			if r2.URL.Path != want {
				t.Fail("the path inside is %q instead of %q", r2.URL.Path, want)
			}
			if bound && matchState(c) != "none" {
				t.Fail("the parent's match is visible inside: %s", matchState(c))
			}
			if !bound && matchState(c) != ms {
				t.Fail("no suffix is bound, but the match changed from %s to %s", ms, matchState(c))
			}
			for _, x := range plan {
				switch {
				case !bound:
				case x == 0:
					r2.URL.Path = "/tampered"
					tamper = append(tamper, "path")
				case x == 1:
					if c.Env == nil {
						c.Env = map[interface{}]interface{}{}
					}
					c.Env[web.MatchKey] = mkMatch()
					tamper = append(tamper, "match")
				case x == 2:
					if c.Env == nil {
						c.Env = map[interface{}]interface{}{}
					}
					c.Env[web.MatchKey] = 42
					tamper = append(tamper, "bad match")
				case x == 3:
					delete(c.Env, web.MatchKey)
					tamper = append(tamper, "delete")
				case x == 4:
					c.URLParams["*"] = "/changed"
					tamper = append(tamper, "params")
				}
			}
			if boom {
				panic("boom")
			}
		}))
		func() {
			defer func() {
				if x := recover(); (x != nil) != boom {
					t.Fail("panic: %v", x)
				}
			}()
			h.ServeHTTP(w, req)
		}()
		if calls != 1 {
			t.Fail("the handler was called %d times", calls)
		}
		if req.URL.Path != old {
			t.Fail("the path was %q before and is %q afterwards", old, req.URL.Path)
		} else if e := req.URL.EscapedPath(); e != raw {
			t.Fail("the escaped path was %q before and is %q afterwards", raw, e)
		}
		if matchState(c) != ms {
			t.Fail("the match was %s before and is %s afterwards", ms, matchState(c))
		}
		key := ""
		if bound {
			key = fmt.Sprint(old, want, ms == "none", tamper, boom)
		}
		t.Saw(key)
	})

	// Listed finding: a suffix bound under "_" below one bound under "*".
	m.RunSerial("underscore-below-star", 1, func(t *T) {
		leaf := web.New()
		leaf.Use(middleware.SubRouter)
		got := ""
		leaf.Handle("/*", func(w http.ResponseWriter, r *http.Request) { got = r.URL.Path })
		mid := web.New()
		mid.Use(middleware.SubRouter)
		mid.Handle(regexp.MustCompile(`^/foo(?P<_>/.*)$`), leaf)
		top := web.New()
		top.Handle("/admin/*", mid)
		top.ServeHTTP(newRW(), newReq("GET", "/admin/foo/bar"))
		t.Saw("")
		switch got {
		case "/bar":
		case "/foo/bar":
			m.Known("underscore-below-star", "/admin/foo/bar reaches a mux mounted at ^/foo(?P<_>/.*)$ below /admin/* as /foo/bar instead of /bar")
		default:
			t.Fail("/admin/foo/bar reaches the inner mux as %q instead of /bar", got)
		}
	})
}

// next0 is the handler to mount: the next level's mux.
func (l *b01level) next0(levels []*b01level, i int) web.HandlerType { return lazyMux{levels[i+1]} }

type lazyMux struct{ l *b01level }

func (z lazyMux) ServeHTTP(w http.ResponseWriter, r *http.Request) { z.l.mux.ServeHTTP(w, r) }
func (z lazyMux) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	z.l.mux.ServeHTTPC(c, w, r)
}
