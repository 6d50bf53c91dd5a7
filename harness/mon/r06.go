package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/zenazn/goji/web"
	"vh/vfsched"
)

func init() {
	const rule = "concurrent histories of registering overlapping routes, compiling and serving, each checked for linearizability against an ordered list of routes; and long runs in which a route must be served as soon as its registration has returned. A history is trivial if no registration overlapped a request in time."
	props["R06/main"] = prop{rule, func(m *M) { runR06(m, false) }}
	props["R06/race"] = prop{rule, func(m *M) { runR06(m, true) }}
}

type r06in struct {
	kind byte // 'R'egister, 'C'ompile, 'Q' request
	id   int  // of the route
	pat  int
	path int
}

type r06pat struct {
	mk   func() web.PatternType
	want func(string) bool
	desc string
}

var r06pats = func() (l []r06pat) {
	for _, p := range []string{"", "/", "/a", "/a/b", "/a/b/c", "/z"} {
		for _, exact := range []bool{false, true} {
			c := &custom{prefix: p, pred: func(s string) bool { return !exact || s == "" }}
			l = append(l, r06pat{func() web.PatternType { return c }, func(s string) bool {
				return strings.HasPrefix(s, p) && (!exact || s == p)
			}, fmt.Sprintf("custom(%q,%v)", p, exact)})
		}
	}
	for _, s := range []string{"/a/*", "/:x", "/:x/*", "/a/:y/c", "/*", "/a/b"} {
		toks, wild := parseStr(s)
		l = append(l, r06pat{func() web.PatternType { return s }, func(p string) bool { ok, _ := matchStr(toks, wild, p); return ok }, s})
	}
	for _, s := range []string{`^/a(/b)?$`, `^/(a|z)`, `/a/b/?`, `.*c$`} {
		re := regexp.MustCompile(s)
		l = append(l, r06pat{func() web.PatternType { return re }, func(p string) bool {
			loc := re.FindStringIndex(p)
			return loc != nil && loc[0] == 0
		}, s})
	}
	return
}()

var r06paths = []string{"/a", "/a/b", "/a/b/c", "/z", "/", "/a/b/", "/q", "/z/c"}

// r06match[pattern][path]
var r06match = func() (l [][]bool) {
	for _, p := range r06pats {
		var row []bool
		for _, s := range r06paths {
			row = append(row, p.want(s))
		}
		l = append(l, row)
	}
	return
}()

// The state is the sequence of registered routes: id<<8|pattern as runes.
var r06model = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, i := st.(string), in.(r06in)
		switch i.kind {
		case 'R':
			return true, s + string([]byte{byte(i.id), byte(i.pat)})
		case 'C':
			return true, s
		}
		got := out.(int)
		for k := 0; k+1 < len(s); k += 2 {
			if r06match[s[k+1]][i.path] {
				return got == int(s[k]), s
			}
		}
		return got == notFoundID, s
	},
}

// perturb picks a schedule perturbation for the next case (race build only).
func perturb(r *rand.Rand, sites int) string {
	switch r.IntN(5) {
	case 0:
		vfsched.Set(0, 0, -1, 0, 0)
		return "none"
	case 1:
		vfsched.Set(20000, 100, -1, 0, 0)
		return "yield"
	case 2:
		vfsched.Set(3000, 500, -1, 0, 0)
		return "sleep"
	}
	if sites == 0 {
		return "none"
	}
	// One place is slow.
	s := r.IntN(sites)
	if hit := vfsched.HitSites(); len(hit) > 0 && chance(r, 0.9) {
		s = pick(r, hit)
	}
	d := time.Duration(20+r.IntN(400)) * time.Microsecond
	vfsched.Set(1500, 30, s, uint32(10000+r.IntN(40000)), d)
	return fmt.Sprint("site", s, d)
}

func runR06(m *M, race bool) {
	n, g, ops := m.N(8000, 400000), 4, 6
	if race {
		n, ops = m.N(800, 100000), 5
	}
	var unknown atomic.Int64
	sites := envInt("VH_SITES")
	m.RunN("histories", n, map[bool]int{false: 2, true: 1}[race], func(t *T) {
		r := t.Rng
		pert := ""
		if race {
			pert = perturb(r, sites)
		}
		mux := web.New()
		mux.NotFound(func(w http.ResponseWriter, r *http.Request) { w.(*rw).hits = append(w.(*rw).hits, notFoundID) })
		nid := 0
		var hist []porcupine.Operation
		t.Desc(func() string { return pert + "\n" + r06String(hist) })
		t0 := time.Now()
		do := func(client int, in r06in) porcupine.Operation {
			o := porcupine.Operation{ClientId: client, Input: in}
			switch in.kind {
			case 'R':
				p := r06pats[in.pat].mk()
				id := in.id
				h := func(w http.ResponseWriter, r *http.Request) { w.(*rw).hits = append(w.(*rw).hits, id) }
				o.Call = int64(time.Since(t0))
				mux.Handle(p, h)
			case 'C':
				o.Call = int64(time.Since(t0))
				mux.Compile()
			case 'Q':
				w, q := newRW(), newReq("GET", r06paths[in.path])
				o.Call = int64(time.Since(t0))
				mux.ServeHTTP(w, q)
				o.Return = int64(time.Since(t0))
				o.Output = -99
				if len(w.hits) == 1 {
					o.Output = w.hits[0]
				}
				return o
			}
			o.Return = int64(time.Since(t0))
			return o
		}
		reg := func() r06in {
			nid++
			return r06in{kind: 'R', id: nid, pat: r.IntN(len(r06pats))}
		}
		for k := r.IntN(4); k > 0; k-- {
			hist = append(hist, do(0, reg()))
		}
		if chance(r, 0.5) {
			hist = append(hist, do(0, r06in{kind: 'C'}))
		}
		plans := make([][]r06in, g)
		for i := range plans {
			for k := 0; k < ops; k++ {
				switch x := r.IntN(20); {
				case x < 8:
					plans[i] = append(plans[i], reg())
				case x < 9:
					plans[i] = append(plans[i], r06in{kind: 'C'})
				default:
					plans[i] = append(plans[i], r06in{kind: 'Q', path: r.IntN(len(r06paths))})
				}
			}
		}
		res := make([][]porcupine.Operation, g)
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, in := range plans[i] {
					res[i] = append(res[i], do(i+1, in))
				}
			}()
		}
		close(start)
		wg.Wait()
		overlap := false
		for i, l := range res {
			hist = append(hist, l...)
			for _, a := range l {
				if a.Input.(r06in).kind != 'R' {
					continue
				}
				for j, l2 := range res {
					for _, b := range l2 {
						if i != j && b.Input.(r06in).kind == 'Q' && a.Call < b.Return && b.Call < a.Return {
							overlap = true
						}
					}
				}
			}
		}
		// Afterwards all must agree on one final table.
		for p := range r06paths {
			hist = append(hist, do(0, r06in{kind: 'Q', path: p}))
		}
		key := ""
		if overlap {
			key = r06String(hist)
		}
		t.Saw(key)
		switch porcupine.CheckOperationsTimeout(r06model, hist, 5*time.Second) {
		case porcupine.Illegal:
			t.Fail("the answers do not correspond to any order of the registrations")
		case porcupine.Unknown:
			unknown.Add(1)
		}
		t.Count("operations", int64(len(hist)))
		t.Sample(func() any { return r06String(hist) })
	})
	m.Count("histories too entangled to decide in time", unknown.Load())
	if u := unknown.Load(); u*20 > int64(n) {
		m.Inconclusive("%d histories of %d could not be decided in time", u, n)
	}

	// Long runs: visible as soon as registered.
	runs := m.N(4, 200)
	m.RunSerial("visible", runs, func(t *T) {
		r := t.Rng
		pert := "off"
		if race {
			pert = "light"
			vfsched.Set(300, 1, -1, 0, 0)
		}
		t.Desc(func() string { return "perturbation " + pert })
		mux := web.New()
		const writers, readers, groups = 2, 4, 5
		per := 400
		if race {
			per = 60
		}
		// broad[w][j]: after how many routes writer w adds the catch-all for group j.
		var broad [writers][groups]int
		for w := range broad {
			for j := range broad[w] {
				broad[w][j] = r.IntN(per * 2)
			}
		}
		var pub [writers]atomic.Int64
		var stop atomic.Bool
		var wg, wgR sync.WaitGroup
		hit := func(id int) func(http.ResponseWriter, *http.Request) {
			return func(w http.ResponseWriter, _ *http.Request) { w.(*rw).hits = append(w.(*rw).hits, id) }
		}
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					for j, at := range broad[w] {
						if at == k {
							mux.Get(fmt.Sprintf("/w%d/g%d/*", w, j), hit(100000+j))
						}
					}
					p := fmt.Sprintf("/w%d/g%d/%d", w, k%groups, k)
					switch k % 3 {
					case 0:
						mux.Get(p, hit(k))
					case 1:
						mux.Handle(regexp.MustCompile("^"+p+"$"), hit(k))
					case 2:
						mux.Get(p[:len(p)-len(fmt.Sprint(k))]+":x/", hit(-1)) // never matches
						mux.Get(p, hit(k))
					}
					pub[w].Store(int64(k + 1))
				}
			}()
		}
		wgR.Add(1)
		go func() {
			defer wgR.Done()
			for !stop.Load() {
				mux.Compile()
				runtime.Gosched()
			}
		}()
		var nreq atomic.Int64
		for g := 0; g < readers; g++ {
			wgR.Add(1)
			seed := r.Uint64()
			go func() {
				defer wgR.Done()
				r := rand.New(rand.NewPCG(seed, 1))
				for !stop.Load() {
					w := r.IntN(writers)
					n := int(pub[w].Load())
					if n == 0 {
						continue
					}
					k := n - 1
					if chance(r, 0.3) {
						k = r.IntN(n)
					}
					j := k % groups
					want := k
					if broad[w][j] <= k {
						want = 100000 + j
					}
					x := newRW()
					mux.ServeHTTP(x, newReq("GET", fmt.Sprintf("/w%d/g%d/%d", w, j, k)))
					nreq.Add(1)
					if len(x.hits) != 1 || x.hits[0] != want {
						t.m.fail(violation{t.Label, t.Index, fmt.Sprintf("route %d of writer %d had been registered (of %d) before the request, which should have been answered by %d, but %v ran (status %d)", k, w, n, want, x.hits, x.code), pert})
						return
					}
				}
			}()
		}
		wg.Wait()
		stop.Store(true)
		wgR.Wait()
		m.evals.Add(nreq.Load())
		m.SawHash(hash64("visible", fmt.Sprint(t.Index)), false)
		t.Count("requests during registration", nreq.Load())
		t.Sample(func() any {
			return fmt.Sprintf("%d requests while 2 writers registered %d routes each", nreq.Load(), per)
		})
	})

	// Handlers and patterns may register routes themselves.
	m.RunSerial("reentrant", m.N(200, 2000), func(t *T) {
		if race {
			perturb(t.Rng, sites)
		}
		mux := web.New()
		mux.Handle("/add/:n", func(c web.C, w http.ResponseWriter, r *http.Request) {
			n := c.URLParams["n"]
			mux.Handle("/"+n, func(w http.ResponseWriter, r *http.Request) { w.(*rw).hits = append(w.(*rw).hits, 7) })
			x := newRW()
			mux.ServeHTTP(x, newReq("GET", "/"+n))
			w.(*rw).hits = append(w.(*rw).hits, x.hits...)
		})
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					x := newRW()
					mux.ServeHTTP(x, newReq("GET", fmt.Sprintf("/add/%d-%d", g, k)))
					if fmt.Sprint(x.hits) != "[7]" {
						t.m.fail(violation{t.Label, t.Index, fmt.Sprintf("a route registered by a handler is not served afterwards: %v", x.hits), ""})
					}
				}
			}()
		}
		wg.Wait()
		t.Saw(fmt.Sprint("reentrant", t.Index))
	})
	if race {
		vfsched.Off()
	}
}

func r06String(h []porcupine.Operation) string {
	var b strings.Builder
	for _, o := range h {
		i := o.Input.(r06in)
		switch i.kind {
		case 'R':
			fmt.Fprintf(&b, "%d [%d,%d] register %d %s\n", o.ClientId, o.Call, o.Return, i.id, r06pats[i.pat].desc)
		case 'C':
			fmt.Fprintf(&b, "%d [%d,%d] compile\n", o.ClientId, o.Call, o.Return)
		case 'Q':
			fmt.Fprintf(&b, "%d [%d,%d] request %s -> %v\n", o.ClientId, o.Call, o.Return, r06paths[i.path], o.Output)
		}
	}
	return b.String()
}
