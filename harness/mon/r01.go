package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"regexp"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
)

// A table is a mux together with the list of its routes in registration order,
// which is all the oracle looks at.
type tRoute struct {
	g    reg
	p    *pat
	form string
	id   int
}

type table struct {
	mux    *web.Mux
	routes []tRoute
	nfSet  bool
	log    []string
	handle func(id int, c web.C, w http.ResponseWriter, r *http.Request)
	form   func(r *rand.Rand) string
}

const notFoundID = -1

func newTable() *table {
	return &table{mux: web.New(), handle: func(id int, _ web.C, w http.ResponseWriter, _ *http.Request) {
		x := w.(*rw)
		x.hits = append(x.hits, id)
	}}
}

func (tb *table) String() string { return strings.Join(tb.log, "; ") }

func (tb *table) hc(id int) hC {
	return func(c web.C, w http.ResponseWriter, r *http.Request) { tb.handle(id, c, w, r) }
}

func (tb *table) add(rng *rand.Rand, g reg, p *pat) { tb.addForm(g, p, pick(rng, handlerForms)) }

func (tb *table) addForm(g reg, p *pat, form string) web.HandlerType {
	id := len(tb.routes)
	h, _ := mkHandler(form, tb.hc(id))
	tb.log = append(tb.log, fmt.Sprintf("#%d %s(%s)", id, g.name, p.desc))
	tb.routes = append(tb.routes, tRoute{g, p, form, id})
	g.call(tb.mux, p.raw, h)
	return h
}

func (tb *table) setNotFound(rng *rand.Rand) {
	h, _ := mkHandler(pick(rng, handlerForms), tb.hc(notFoundID))
	tb.nfSet = true
	tb.mux.NotFound(h)
	tb.log = append(tb.log, "NotFound")
}

// expect is the naive router: the routes are tried one after another.
func (tb *table) expect(method, path string) (id int, binds map[string]string) {
	for _, rt := range tb.routes {
		if !rt.g.has(method) {
			continue
		}
		if ok, b := rt.p.want(path); ok {
			return rt.id, b
		}
	}
	return notFoundID, nil
}

// valid lists the standard methods the request could have been routed with.
func (tb *table) valid(path string) (l []string) {
	for _, m := range stdMethods {
		if id, _ := tb.expect(m, path); id != notFoundID {
			l = append(l, m)
		}
	}
	return
}

func (tb *table) serve(t *T, method, path string) int {
	want, _ := tb.expect(method, path)
	w := newRW()
	tb.mux.ServeHTTP(w, spice(t.Rng, newReq(method, path)))
	tb.log = append(tb.log, fmt.Sprintf("serve %s %q", method, path))
	tb.checkHit(t, w, want, method, path)
	tb.log = tb.log[:len(tb.log)-1]
	return want
}

func (tb *table) checkHit(t *T, w *rw, want int, method, path string) {
	switch {
	case want == notFoundID && !tb.nfSet:
		if len(w.hits) != 0 || w.code != 404 {
			t.Fail("%s %q: no route matches, so the default not-found handler should have run: ran %v, status %d", method, path, w.hits, w.code)
		}
	case len(w.hits) != 1 || w.hits[0] != want || w.code != 0:
		t.Fail("%s %q: handler %d should have run, but %v did (status %d)", method, path, want, w.hits, w.code)
	}
}

func compileRe(s string) *regexp.Regexp {
	re, err := regexp.Compile(s)
	if err != nil {
		return nil
	}
	return re
}

// randTablePat draws a pattern of any kind.
func randTablePat(r *rand.Rand) *pat {
	switch r.IntN(10) {
	case 0, 1, 2, 3, 4:
		return strPat(randStrPat(r))
	case 5, 6, 7:
		return randRePat(r)
	default:
		pd := pick(r, preds)
		pre := ""
		if !chance(r, 0.2) {
			pre = "/" + randSeg(r)
			if chance(r, 0.3) {
				pre += "/" + randSeg(r)
			}
			if chance(r, 0.2) {
				pre = pre[:r.IntN(len(pre)+1)]
			}
		}
		var bind map[string]string
		if chance(r, 0.5) {
			bind = map[string]string{pick(r, patNames): fmt.Sprint("c", r.IntN(100))}
		}
		return customPat(pre, pd.name, pd.f, bind)
	}
}

func quoteSeg(r *rand.Rand) (re, eg string) {
	s := "/" + randSeg(r)
	return regexp.QuoteMeta(s), s
}

// randRePat makes regular expressions of the kinds used for routes, with
// overlapping literal prefixes.
func randRePat(r *rand.Rand) *pat {
	q, e := quoteSeg(r)
	q2, e2 := quoteSeg(r)
	n := pick(r, []string{"a", "b", "name", "_", "id"})
	var s string
	var eg []string
	switch r.IntN(14) {
	case 0:
		s, eg = `^`+q+`/(?P<`+n+`>[a-z]+)$`, []string{e + "/abc", e + "/a"}
	case 1:
		s, eg = `^`+q, []string{e, e + "/x", e + "b"}
	case 2:
		s, eg = `\A`+q+`(`+q2+`)?\z`, []string{e, e + e2}
	case 3:
		s, eg = q+`|`+q2, []string{e, e2, "x" + e2}
	case 4:
		s, eg = `(?:`+q+`|`+q2+`)$`, []string{e, e2, e2 + "a"}
	case 5:
		s, eg = `(?i)`+q+`$`, []string{e, strings.ToUpper(e)}
	case 6:
		s, eg = `^`+q+`(?P<_>/.*)$`, []string{e + "/x", e + "/", e}
	case 7:
		s, eg = q+`*`, []string{e, e[:len(e)-1], e + e[len(e)-1:]}
	case 8:
		s, eg = `.*`+q2, []string{e2, e + e2, "/zz" + e2}
	case 9:
		s, eg = `^`+q+`?(\d+)(?P<`+n+`>[.;,]\w+)?$`, []string{e + "1", e + "12.ab"}
	case 10:
		s, eg = q+`+(?P<`+n+`>b*)/?`, []string{e, e + "bb/"}
	case 11:
		s, eg = `^(?P<`+n+`>`+q+`)(?:`+q2+`)+$`, []string{e + e2, e + e2 + e2}
	case 12:
		s, eg = `^`+q+`|^`+q2+`$`, []string{e, e2, e + e2}
	case 13:
		s, eg = `(`+q+`)(`+q2+`)|`+q+`()$`, []string{e, e + e2}
	}
	re := compileRe(s)
	if re == nil {
		panic("bad regexp " + s)
	}
	return rePat(re, eg...)
}

func init() {
	props["R01/main"] = prop{"random, small exhaustive and large routing tables, built, compiled and served in interleaved order; each request's executed handler is compared with trying the routes one after another. A request is trivial if no route's pattern matches its path.", runR01}
}

func (tb *table) sawKey(method, path string, want int) string {
	for _, rt := range tb.routes {
		if ok, _ := rt.p.want(path); ok {
			return fmt.Sprint(len(tb.routes), method, path, want, rt.p.desc)
		}
	}
	return ""
}

func runR01(m *M) {
	// Random tables, grown while being used.
	m.Run("random", m.N(6000, 150000), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(tb.String)
		var ps []*pat
		n := 1 + r.IntN(12)
		if chance(r, 0.1) {
			n = 20 + r.IntN(40)
		}
		pool := []*pat{}
		for i := 0; i < 1+n/2; i++ {
			pool = append(pool, randTablePat(r))
		}
		nsel := 0
		serve := func(k int) {
			for ; k > 0; k-- {
				me, pa := randMethod(r), randPath(r, ps)
				want := tb.serve(t, me, pa)
				t.Saw(tb.sawKey(me, pa, want))
				if want >= 0 {
					nsel++
				}
			}
		}
		for i := 0; i < n; i++ {
			if chance(r, 0.15) {
				serve(1 + r.IntN(5))
			}
			if chance(r, 0.08) {
				tb.mux.Compile()
				tb.log = append(tb.log, "Compile")
			}
			if chance(r, 0.05) {
				tb.setNotFound(r)
			}
			p := pick(r, pool)
			if chance(r, 0.4) {
				p = randTablePat(r)
			}
			ps = append(ps, p)
			tb.add(r, randReg(r), p)
		}
		if chance(r, 0.3) {
			tb.mux.Compile()
			tb.log = append(tb.log, "Compile")
		}
		serve(15 + n)
		t.Count("requests for which a route was selected", int64(nsel))
		t.Sample(func() any { return tb.String() })
	})

	// Heavily overlapping pure-prefix tables: the shape of the compiled
	// machine depends on these only.
	m.Run("prefixes", m.N(4000, 100000), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(tb.String)
		alpha := pick(r, []string{"ab", "a", "abc", "/a"})
		word := func(max int) string {
			b := make([]byte, r.IntN(max+1))
			for i := range b {
				b[i] = alpha[r.IntN(len(alpha))]
			}
			return string(b)
		}
		max := 3 + r.IntN(10)
		n := 1 + r.IntN(14)
		var all []string
		for i := 0; i < n; i++ {
			pre := word(max)
			if len(all) > 0 && chance(r, 0.5) {
				pre = pick(r, all)
				if chance(r, 0.5) {
					pre += word(4)
				} else {
					pre = pre[:r.IntN(len(pre)+1)]
				}
			}
			all = append(all, pre)
			pd := preds[r.IntN(5)]
			tb.add(r, randReg(r), customPat(pre, pd.name, pd.f, nil))
		}
		for i := 0; i < 40; i++ {
			pa := word(max + 2)
			if chance(r, 0.6) {
				pa = pick(r, all) + word(3)
			}
			if chance(r, 0.1) && len(pa) > 0 {
				b := []byte(pa)
				b[r.IntN(len(b))] ^= byte(1 + r.IntN(255))
				pa = string(b)
			}
			me := randMethod(r)
			want := tb.serve(t, me, pa)
			t.Saw(tb.sawKey(me, pa, want))
		}
	})

	// Every sequence of up to k prefixes over a small set, each matching only
	// some paths, served for every short path.
	words := allWords("ab", m.N(2, 3))
	kinds := []int{0, 1} // any, exact
	type elem struct {
		pre  string
		kind int
	}
	var elems []elem
	for _, w := range words {
		for _, k := range kinds {
			elems = append(elems, elem{w, k})
		}
	}
	paths := allWords("ab", m.N(3, 4))
	k := 4
	if m.Tier == "thorough" {
		k = 4 // 30^4 tables
	}
	total := 1
	for i := 0; i < k; i++ {
		total *= len(elems)
	}
	per := len(elems) * len(elems) // tables per case
	m.Run("exhaustive", total/per, func(t *T) {
		tb := newTable()
		t.Desc(func() string { return tb.String() })
		for j := 0; j < per; j++ {
			tb = newTable()
			x := t.Index*per + j
			for i := 0; i < k; i++ {
				e := elems[x%len(elems)]
				x /= len(elems)
				tb.addForm(regs[0], customPat(e.pre, preds[e.kind].name, preds[e.kind].f, nil), "func(w,r)")
			}
			for _, p := range paths {
				tb.serve(t, "GET", p)
			}
			m.evals.Add(int64(len(paths)))
			m.SawHash(hash64("ex", fmt.Sprint(t.Index, j)), false)
		}
	})
	m.Count("exhaustive: tables", int64(total))

	// Large tables.
	m.Run("large", m.N(3, 12), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(func() string { return fmt.Sprintf("%d routes", len(tb.routes)) })
		n := []int{300, 2500, 9000}[t.Index%3]
		// The middle-sized one has prefixes so long that the compiled machine
		// has more states than 16 bits can count.
		slow := time.Now().Add(12 * time.Second)
		for i := 0; i < n; i++ {
			if i >= 300 && time.Now().After(slow) {
				n = i // whatever is done for each route, its amount grows
				break
			}
			var p string
			pad := ""
			if n == 2500 {
				pad = "/" + strings.Repeat(fmt.Sprintf("x%d", i), 12)
			}
			switch r.IntN(4) {
			case 0:
				p = fmt.Sprintf("/%x%s/%x%s", r.IntN(40), pad, r.IntN(40000), pad)
			case 1:
				p = fmt.Sprintf("/v%d%s/users/%d%s/:id/item%d", r.IntN(30), pad, r.IntN(500), pad, r.IntN(3000))
			case 2:
				p = fmt.Sprintf("/static%d/%s/*", r.IntN(100), randSeg(r))
			case 3:
				p = fmt.Sprintf("/%s/%d%s/%s", randSeg(r), r.IntN(1000), pad, randSeg(r))
			}
			tb.addForm(randReg(r), strPat(p), "func(w,r)")
		}
		for i := 0; i < 400; i++ {
			me, pa := randMethod(r), tb.routes[r.IntN(n)].p.eg(r)
			if chance(r, 0.3) {
				pa = mutate(r, pa)
			}
			want := tb.serve(t, me, pa)
			t.Saw(fmt.Sprint("large", n, me, pa, want))
		}
	})

	// Deep chains of prefixes, each one byte longer than the one before, and
	// long prefixes with late differences.
	m.Run("deep", m.N(60, 1500), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(tb.String)
		base := strings.Repeat(pick(r, []string{"a", "ab", "/xyz", "abc"}), 30)
		if chance(r, 0.3) {
			// Longer than a byte can count, or two.
			base = strings.Repeat(base, 4+pick(r, []int{300, 300, 300, 1100, 4200, 17000, 66000})/len(base))
		}
		n := 2 + r.IntN(60)
		for i := 0; i < n; i++ {
			l := r.IntN(len(base) + 1)
			pre := base[:l]
			if chance(r, 0.4) {
				pre += string(rune('p' + r.IntN(3)))
				if chance(r, 0.5) {
					pre += base[l:min(len(base), l+r.IntN(8))]
				}
			}
			pd := preds[r.IntN(5)]
			tb.add(r, randReg(r), customPat(pre, pd.name, pd.f, nil))
		}
		for i := 0; i < 60; i++ {
			pa := tb.routes[r.IntN(n)].p.eg(r)
			if chance(r, 0.4) {
				pa = base[:r.IntN(len(base)+1)] + pick(r, []string{"", "p", "q", "a"})
			}
			me := randMethod(r)
			want := tb.serve(t, me, pa)
			t.Saw(tb.sawKey(me, pa, want))
		}
	})
}

func allWords(alpha string, max int) []string {
	l := []string{""}
	last := l
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range last {
			for _, c := range alpha {
				next = append(next, w+string(c))
			}
		}
		l = append(l, next...)
		last = next
	}
	return l
}
