S = []
def b(id, prop, needs, breaks, edits, demo, **kw):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

H = '''
package main

import (
%s
	"net/http"
	"github.com/zenazn/goji/web"
)
'''
def imp(*l): return H % "\n".join('\t"%s"' % x for x in l)

b("r01-narrow-index", "R01", "a routing table with several thousand routes, so that the compiled program exceeds 32767 instructions",
  "state indices overflow: requests run the wrong route, none, or crash",
  [("web/bytecode_compiler.go", "	i    int32\n", "	i    int16\n"),
   ("web/bytecode_compiler.go", "mm[j].i += int32(off + msl + subl + 1)", "mm[j].i += int16(off + msl + subl + 1)"),
   ("web/bytecode_compiler.go", "sub[j].i = int32(off + msl)", "sub[j].i = int16(off + msl)"),
   ("web/bytecode_compiler.go", "sub[j].i += int32(off + len(m))", "sub[j].i += int16(off + len(m))"),
   ("web/bytecode_compiler.go", "i: int32(dp)}", "i: int16(dp)}"),
   ("web/bytecode_compiler.go", "i: int32(ts.route)}", "i: int16(ts.route)}"),
   ("web/bytecode_compiler.go", "me[i+o].i = int32(off + len(sub))", "me[i+o].i = int16(off + len(sub))")],
  imp("fmt") + '''
func main() {
	m := web.New()
	const N = 9000
	for i := 0; i < N; i++ {
		s := fmt.Sprintf("/%04d/some/long/resource", i)
		m.Get(s, func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, s) })
	}
	for i := 0; i < N; i += 7 {
		s := fmt.Sprintf("/%04d/some/long/resource", i)
		if w := ask(m, "GET", s); w.Code != 200 || w.Body.String() != s {
			fail("%s: %d %q", s, w.Code, w.Body.String())
		}
	}
}
''')
b("r01-shift-past-equal", "R01", "three routes whose prefixes nest: the shorter one registered between two longer ones",
  "a later, more specific route is tried before an earlier, more general one",
  [("web/router.go", '''		rip := rt.routes[i-1].prefix
		if rip <= pp || strings.HasPrefix(rip, pp) {''', '''		rip := rt.routes[i-1].prefix
		if rip <= pp || strings.HasPrefix(rip, pp) && i == len(rt.routes) {''')],
  imp("io") + '''
func main() {
	m := web.New()
	for _, p := range []string{"/a/:x", "/a/bc/:x", "/a/bc", "/z", "/a/*", "/:any", "/*", "/a/b:x"} {
		p := p
		m.Get(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, p) })
	}
	// "/a/bc" is matched by "/a/:x", which was registered first.
	m2 := web.New()
	for _, p := range []string{"/a/bx", "/b/1", "/a/*", "/a/bx"} {
		p := p
		m2.Get(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, p) })
	}
	m3 := web.New()
	for i, p := range []string{"/b/:x", "/a/b/:x", "/a/:x/:y", "/a/b/c"} {
		i := i
		m3.Handle(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, string(rune('0'+i))) })
	}
	m4 := web.New()
	for i, p := range []string{"/q/users/:id", "/z", "/q/*", "/q/users/me"} {
		i := i
		m4.Handle(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, string(rune('0'+i))) })
	}
	m5 := web.New()
	for i, p := range []string{"/q/users", "/z", "/:a/:b", "/q/teams"} {
		i := i
		m5.Handle(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, string(rune('0'+i))) })
	}
	m6 := web.New()
	for i, p := range []string{"/qa", "/z", "/q:x", "/*"} {
		i := i
		m6.Handle(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, string(rune('0'+i))) })
	}
	m7 := web.New()
	for i, p := range []string{"/q/a", "/z", "/q/*", "/:x/*"} {
		i := i
		m7.Handle(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, string(rune('0'+i))) })
	}
	for _, c := range []struct {
		m    *web.Mux
		path string
		want string
	}{{m, "/a/bc", "/a/:x"}, {m2, "/a/bx", "/a/bx"}, {m3, "/a/b/c", "1"}, {m4, "/q/users/me", "0"}, {m5, "/q/users", "0"}, {m6, "/qa", "0"}, {m7, "/q/a", "0"}} {
		if got := ask(c.m, "GET", c.path).Body.String(); got != c.want {
			fail("%s: %s, not %s", c.path, got, c.want)
		}
	}
}
''')
b("r02-star-suffix", "R02", "a string pattern whose last character is a '*' that does not follow a '/'",
  "such a pattern is taken for a wildcard and matches paths it must not",
  [("web/string_pattern.go", 'if strings.HasSuffix(s, "/*") {', 'if strings.HasSuffix(s, "*") {')],
  imp() + '''
func main() {
	m := web.New()
	m.Get("/glob/a*", func(w http.ResponseWriter, r *http.Request) {})
	if w := ask(m, "GET", "/glob/abc"); w.Code != 404 {
		fail("/glob/a* matches /glob/abc: %d", w.Code)
	}
	if w := ask(m, "GET", "/glob/a*"); w.Code != 200 {
		fail("/glob/a* does not match itself: %d", w.Code)
	}
}
''')
b("r02-first-name-wins", "R02", "a pattern that uses the same name twice, or a context that already binds the name",
  "the parameter has the wrong one of two values",
  [("web/string_pattern.go", "			matches[pat] = path[:m]\n", "			if _, dup := matches[pat]; !dup {\n				matches[pat] = path[:m]\n			}\n")],
  imp("io") + '''
func main() {
	m := web.New()
	m.Get("/:id/children/:id", func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, c.URLParams["id"]) })
	if got := ask(m, "GET", "/1/children/2").Body.String(); got != "2" {
		fail("id is %q", got)
	}
}
''')
b("r02-escaped", "R02", "a path with characters that are escaped on the wire",
  "parameters are bound to the escaped form of the path, and literals with such characters do not match",
  [("web/string_pattern.go", "	path := r.URL.Path\n", "	path := r.URL.EscapedPath()\n")],
  imp("io") + '''
func main() {
	m := web.New()
	m.Get("/u/:name", func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, c.URLParams["name"]) })
	if got := ask(m, "GET", "/u/carl jackson").Body.String(); got != "carl jackson" {
		fail("name is %q", got)
	}
}
''')
b("r03-group-number", "R03", "a regular expression that mixes named and unnamed groups",
  "unnamed groups are numbered among themselves instead of by position",
  [("web/regexp_pattern.go", '''	for i, rname := range rnames {
		if rname == "" {
			rname = fmt.Sprintf("$%d", i)
		}
''', '''	n := 0
	for i, rname := range rnames {
		if rname == "" {
			rname = fmt.Sprintf("$%d", n)
			n++
		}
''')],
  imp("io", "regexp") + '''
func main() {
	m := web.New()
	m.Get(regexp.MustCompile(`^/(?P<y>\\d+)/(\\w+)$`), func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, c.URLParams["y"]+" "+c.URLParams["$2"]) })
	if got := ask(m, "GET", "/2014/may").Body.String(); got != "2014 may" {
		fail("bound %q", got)
	}
}
''')
b("r03-skip-empty-group", "R03", "an optional group that does not take part, below a router that already bound the same name",
  "the parent's value of the parameter shows through instead of the empty string",
  [("web/regexp_pattern.go", "		c.URLParams[p.names[i]] = matches[i]\n", '		if matches[i] != "" {\n			c.URLParams[p.names[i]] = matches[i]\n		}\n')],
  imp("fmt", "regexp") + '''
func main() {
	outer, inner := web.New(), web.New()
	outer.Handle("/:page/*", inner)
	inner.Handle(regexp.MustCompile(`^/docs/(?:p(?P<page>\\d+))?`), func(c web.C, w http.ResponseWriter, r *http.Request) {
		v, ok := c.URLParams["page"]
		fmt.Fprintf(w, "%q %v", v, ok)
	})
	if got := ask(outer, "GET", "/docs/").Body.String(); got != `"" true` {
		fail("page is %s", got)
	}
}
''')
b("r03-fold-prefix", "R03", "a case-insensitive regular expression whose first letters are in one case",
  "the advertised prefix is wrong, so the table hides the route from paths in the other case",
  [("web/regexp_pattern.go", '''			if len(i.Rune) != 1 ||
				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {''', '''			if len(i.Rune) != 1 ||
				syntax.Flags(i.Arg)&syntax.FoldCase != 0 && i.Rune[0] >= 'a' {''')],
  imp("regexp") + '''
func main() {
	m := web.New()
	m.Get(regexp.MustCompile(`(?i)^/HELLO`), func(w http.ResponseWriter, r *http.Request) {})
	m.Get("/hello/other", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(201) })
	for _, p := range []string{"/hello", "/HELLO", "/hElLo/other"} {
		if w := ask(m, "GET", p); w.Code != 200 {
			fail("%s: %d", p, w.Code)
		}
	}
}
''')
b("r04-match-binds", "R04", "a string route that matches the path but not the method, tried before the selected one",
  "parameters of routes that were not selected are visible in the handler",
  [("web/string_pattern.go", "	if c == nil || dryrun {\n", "	if c == nil || dryrun && len(s.pats) > 1 {\n"),
   ("web/string_pattern.go", '''	if !dryrun {
		if s.wildcard {''', '''	if !dryrun || len(s.pats) < 2 {
		if s.wildcard {'''),
   ("web/string_pattern.go", '''		if !dryrun {
			matches[pat] = path[:m]''', '''		if matches != nil {
			matches[pat] = path[:m]'''),
   ("web/string_pattern.go", '''		if !dryrun {
			matches["*"]''', '''		if matches != nil {
			matches["*"]''')],
  imp("fmt") + '''
func main() {
	m := web.New()
	m.Post("/:secret", func(w http.ResponseWriter, r *http.Request) {})
	m.Get("/:name", func(c web.C, w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, c.URLParams) })
	if got := ask(m, "GET", "/x").Body.String(); got != "map[name:x]" {
		fail("parameters: %s", got)
	}
}
''')
b("r04-keep-looking", "R04", "patterns with side effects (or expensive ones) registered below the route that is selected for HEAD",
  "patterns below the selected route are consulted, and the last one that matches is run too",
  [("web/bytecode_runner.go", '''	if route.method&m != 0 {
		route.pattern.Run(r, c)
		return true
	}
	return false''', '''	if route.method&m != 0 {
		route.pattern.Run(r, c)
		return route.method != mHEAD
	}
	return false'''),
   ("web/bytecode_runner.go", '''	var i int
	for {''', '''	var i int
	var found *route
	for {'''),
   ("web/bytecode_runner.go", '''				return 0, &rm.routes[si]
			}
''', '''				if found != nil {
					return 0, found
				}
				return 0, &rm.routes[si]
			} else if methods&m&mHEAD != 0 && found == nil {
				found = &rm.routes[si]
			}
'''),
   ("web/bytecode_runner.go", '''				return methods, nil
			}
			i = int''', '''				if found != nil {
					return 0, found
				}
				return methods, nil
			}
			i = int''')],
  imp("fmt") + '''
type pat struct {
	name string
	log  *[]string
}

func (p pat) Prefix() string { return "/" }
func (p pat) Match(r *http.Request, c *web.C) bool {
	*p.log = append(*p.log, "match "+p.name)
	return true
}
func (p pat) Run(r *http.Request, c *web.C) { *p.log = append(*p.log, "run "+p.name) }
func main() {
	m := web.New()
	var log []string
	h := func(w http.ResponseWriter, r *http.Request) {}
	m.Head(pat{"a", &log}, h)
	m.Handle(pat{"b", &log}, h)
	ask(m, "HEAD", "/")
	if fmt.Sprint(log) != "[match a run a]" {
		fail("%q", log)
	}
}
''')
b("r05-shared-list", "R05", "a not-found handler that edits the list of methods it is given, and a later request with the same list",
  "later requests are told a list that somebody else has edited",
  [("web/router.go", '''	var methodsList = make([]string, 0)
	for mname, meth := range validMethodsMap {
		if methods&meth != 0 {
			methodsList = append(methodsList, mname)
		}
	}
	sort.Strings(methodsList)
''', '''	methodsList := methodNames(methods)
'''),
   ("web/router.go", "func httpMethod(", '''// There are only so many combinations of methods in an application, so there's
// no need to build and sort these lists over and over again.
var methodLists sync.Map

func methodNames(methods method) []string {
	if l, ok := methodLists.Load(methods); ok {
		return l.([]string)
	}
	var methodsList = make([]string, 0)
	for mname, meth := range validMethodsMap {
		if methods&meth != 0 {
			methodsList = append(methodsList, mname)
		}
	}
	sort.Strings(methodsList)
	methodLists.Store(methods, methodsList)
	return methodsList
}

func httpMethod(''')],
  imp("fmt") + '''
func main() {
	m := web.New()
	m.Get("/a", func(w http.ResponseWriter, r *http.Request) {})
	m.Get("/b", func(w http.ResponseWriter, r *http.Request) {})
	m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
		l := c.Env[web.ValidMethodsKey].([]string)
		fmt.Fprint(w, l)
		for i := range l {
			l[i] = "x-" + l[i]
		}
	})
	ask(m, "POST", "/a")
	if got := ask(m, "POST", "/b").Body.String(); got != "[GET HEAD]" {
		fail("methods: %s", got)
	}
}
''')
b("r05-stale-key", "R05", "a request whose environment is shared with an earlier routing that failed (a nested mux tried first)",
  "the list of methods accumulates those of an earlier, unrelated routing",
  [("web/router.go", '''	} else {
		c.Env[ValidMethodsKey] = methodsList
	}''', '''	} else if _, ok := c.Env[ValidMethodsKey]; !ok {
		c.Env[ValidMethodsKey] = methodsList
	}''')],
  imp("fmt") + '''
func main() {
	// The first application is asked first; if it does not know, the second is.
	first, second, outer := web.New(), web.New(), web.New()
	h := func(w http.ResponseWriter, r *http.Request) {}
	first.Post("/x", h)
	first.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { second.ServeHTTPC(c, w, r) })
	second.Get("/x", h)
	second.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, c.Env[web.ValidMethodsKey]) })
	outer.Handle("/*", first)
	if got := ask(outer, "DELETE", "/x").Body.String(); got != "[GET HEAD]" {
		fail("methods: %s", got)
	}
}
''')
b("r06-stale-machine", "R06", "a route registered while another goroutine compiles the table",
  "the table without the new route is installed after the registration returned, and stays",
  [("web/router.go", '''	rt.lock.Lock()
	defer rt.lock.Unlock()
	sm := routeMachine{
		sm:     compile(rt.routes),
		routes: rt.routes,
	}
	rt.setMachine(&sm)''', '''	rt.lock.Lock()
	routes := rt.routes
	rt.lock.Unlock()
	// The list is never modified in place, so there's no need to hold up
	// registrations meanwhile.
	sm := routeMachine{
		sm:     compile(routes),
		routes: routes,
	}
	rt.setMachine(&sm)''')],
  imp("fmt", "sync", "time") + '''
func main() {
	h := func(w http.ResponseWriter, r *http.Request) {}
	for n := 0; n < 40; n++ {
		m := web.New()
		for i := 0; i < 2500; i++ {
			m.Get(fmt.Sprintf("/%d/aaaa", i), h)
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); m.Compile() }()
		time.Sleep(200 * time.Microsecond)
		for i := 0; i < 3; i++ {
			m.Get(fmt.Sprintf("/new/%d", i), h)
		}
		wg.Wait()
		for i := 0; i < 3; i++ {
			if w := ask(m, "GET", fmt.Sprintf("/new/%d", i)); w.Code != 200 {
				fail("a registered route is not served: %d (round %d)", w.Code, n)
			}
		}
	}
}
''')
b("r06-insert-in-place", "R06", "a request being routed on a compiled table while a route is inserted before another one",
  "the request runs the handler of a neighbouring route",
  [("web/router.go", '''	newRoutes := make([]route, len(rt.routes)+1)
	copy(newRoutes, rt.routes[:i])
	newRoutes[i] = route{''', '''	// Grow in bigger steps so that we don't copy everything for each route.
	newRoutes := rt.routes
	if len(newRoutes) == cap(newRoutes) {
		newRoutes = make([]route, len(rt.routes), 2*len(rt.routes)+8)
		copy(newRoutes, rt.routes)
	}
	newRoutes = newRoutes[:len(newRoutes)+1]
	copy(newRoutes[i+1:], rt.routes[i:])
	newRoutes[i] = route{'''),
   ("web/router.go", "	copy(newRoutes[i+1:], rt.routes[i:])\n\n", "\n")],
  imp("io", "sync") + '''
type slow struct {
	web.Pattern
	in, out chan bool
	once    *sync.Once
}

func (s slow) Match(r *http.Request, c *web.C) bool {
	s.once.Do(func() { s.in <- true; <-s.out })
	return false
}
func main() {
	m := web.New()
	in, out := make(chan bool), make(chan bool)
	m.Handle(slow{web.ParsePattern("/*"), in, out, &sync.Once{}}, func(w http.ResponseWriter, r *http.Request) {})
	for _, p := range []string{"/b", "/c", "/d"} {
		p := p
		m.Get(p, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, p) })
	}
	got := make(chan string)
	go func() { got <- ask(m, "GET", "/c").Body.String() }()
	<-in // it is being routed
	m.Get("/a", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "/a") })
	out <- true
	if g := <-got; g != "/c" {
		fail("/c is answered by %q", g)
	}
}
''')
b("r06-invalidate-late", "R06", "a request that compiles the table exactly while a registration is in progress",
  "the compiled table is dropped before the new list is in place, so that a request in between brings the old one back",
  [("web/router.go", '''	rt.lock.Lock()
	defer rt.lock.Unlock()

	// Calculate''', '''	// Nobody should be using the old machine from now on.
	rt.setMachine(nil)

	rt.lock.Lock()
	defer rt.lock.Unlock()

	// Calculate'''),
   ("web/router.go", '''	rt.setMachine(nil)
	rt.routes = newRoutes''', '''	rt.routes = newRoutes''')],
  imp("fmt", "sync") + '''
func main() {
	h := func(w http.ResponseWriter, r *http.Request) {}
	for n := 0; n < 300; n++ {
		m := web.New()
		for i := 0; i < 100; i++ {
			m.Get(fmt.Sprintf("/%d/aaaa", i), h)
		}
		stop := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						ask(m, "GET", "/0/aaaa")
					}
				}
			}()
		}
		for i := 0; i < 20; i++ {
			p := fmt.Sprintf("/new/%d", i)
			m.Get(p, h)
			if w := ask(m, "GET", p); w.Code != 200 {
				fail("a registered route is not served: %d (round %d)", w.Code, n)
			}
		}
		close(stop)
		wg.Wait()
	}
}
''')
b("r07-pattern-decides", "R07", "a match that has a handler but no pattern in the environment, with a route that matches the path",
  "the supplied match is ignored and routing happens again",
  [("web/router.go", "	if match.Handler == nil {\n", "	if match.Pattern == nil {\n")],
  imp("io") + '''
func main() {
	m := web.New()
	n := 0
	m.Use(m.Router)
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.Header.Get("X-Maintenance") != "" {
				hf := web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { n++; io.WriteString(w, "back soon") })
				c.Env[web.MatchKey] = web.Match{Handler: hf}
			}
			h.ServeHTTP(w, r)
		})
	})
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "home") })
	if got := ask(m, "GET", "/", "X-Maintenance", "1").Body.String(); got != "back soon" {
		fail("%q", got)
	}
}
''')
b("r07-keep-outer", "R07", "the routing middleware attached to a mux nested in another one that also has it",
  "the inner mux obeys the routing information of the outer one instead of its own",
  [("web/mux.go", '''	rm.c.Env[MatchKey] = rm.m.rt.getMatch(rm.c, w, r)
''', '''	if GetMatch(*rm.c).Handler == nil {
		rm.c.Env[MatchKey] = rm.m.rt.getMatch(rm.c, w, r)
	}
''')],
  imp("fmt") + '''
func main() {
	outer, inner := web.New(), web.New()
	outer.Use(outer.Router)
	inner.Use(inner.Router)
	depth := 0
	outer.Handle("/in/*", web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) {
		if depth++; depth > 1 {
			fail("the inner mux runs the outer mux's route")
		}
		inner.ServeHTTPC(c, w, r)
	}))
	inner.Get("/in/x", func(c web.C, w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, web.GetMatch(c).RawPattern()) })
	if got := ask(outer, "GET", "/in/x").Body.String(); got != "/in/x" {
		fail("%q", got)
	}
}
''')
