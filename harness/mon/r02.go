package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"regexp"
	"strings"

	"github.com/zenazn/goji/web"
)

func init() {
	props["R02/main"] = prop{"every short string pattern against every short path, random longer ones, and patterns inside muxes; each outcome, binding and prefix is compared with a backtracking matcher written from the documentation. A case is trivial if the pattern does not match the path.", runR02}
	props["R03/main"] = prop{"random Perl-style regular expressions (from a grammar with alternation, flags, anchors, classes, repetition, quoting, capturing and named groups) against paths derived from them and mutated (invalid UTF-8 included), alone and in routing tables; compared with whether the original expression's leftmost match starts at byte 0. A case is trivial if the expression does not match.", runR03}
}

// checkPattern compares one parsed pattern with its oracle on one path.
func checkPattern(t *T, p *pat, wp web.Pattern, path string, base map[string]string, env map[interface{}]interface{}) (ok bool) {
	want, binds := p.want(path)
	r := &http.Request{Method: "GET", URL: newURL(path)}
	c := web.C{Env: env}
	if base != nil {
		c.URLParams = overlay(base, nil)
	}
	got := wp.Match(r, &c)
	if got != want {
		t.Fail("pattern %s, path %q: Match says %v, but should say %v", p.desc, path, got, want)
		return want
	}
	if !eqMap(c.URLParams, base) || (base == nil && c.URLParams != nil) {
		t.Fail("pattern %s, path %q: Match changed the URL parameters from %s to %s", p.desc, path, fmtMap(base), fmtMap(c.URLParams))
	}
	if r.URL.Path != path {
		t.Fail("pattern %s, path %q: Match changed the path to %q", p.desc, path, r.URL.Path)
	}
	if !want {
		return false
	}
	if pre := wp.Prefix(); !strings.HasPrefix(path, pre) {
		t.Fail("pattern %s matches %q, which does not start with the advertised prefix %q", p.desc, path, pre)
	}
	wp.Run(r, &c)
	if exp := overlay(base, binds); !eqMap(c.URLParams, exp) {
		t.Fail("pattern %s, path %q: with parameters %s before, Run left %s instead of %s", p.desc, path, fmtMap(base), fmtMap(c.URLParams), fmtMap(exp))
	}
	if r.URL.Path != path {
		t.Fail("pattern %s, path %q: Run changed the path to %q", p.desc, path, r.URL.Path)
	}
	return true
}

func randBase(r *rand.Rand) map[string]string {
	switch r.IntN(4) {
	case 0:
		return nil
	case 1:
		return map[string]string{}
	}
	m := map[string]string{}
	for i := r.IntN(4); i >= 0; i-- {
		m[pick(r, []string{"a", "name", "*", "_", "$1", "other", "id"})] = fmt.Sprint("old", i)
	}
	return m
}

func runR02(m *M) {
	// Everything short.
	pats := allWords("/:a.*", m.N(5, 7))
	paths := allWords("/a.b", m.N(5, 6))
	const chunk = 16
	m.Run("exhaustive", (len(pats)+chunk-1)/chunk, func(t *T) {
		for i := t.Index * chunk; i < len(pats) && i < (t.Index+1)*chunk; i++ {
			p := strPat(pats[i])
			wp := web.ParsePattern(p.raw)
			n := 0
			for _, path := range paths {
				if checkPattern(t, p, wp, path, nil, nil) {
					n++
					m.SawHash(hash64(pats[i], path), false)
				}
			}
			m.evals.Add(int64(len(paths)))
			t.Count("exhaustive: matches", int64(n))
		}
	})
	m.Count("exhaustive: patterns", int64(len(pats)))
	m.Count("exhaustive: paths for each", int64(len(paths)))

	m.Run("random", m.N(40000, 1500000), func(t *T) {
		r := t.Rng
		s := randStrPat(r)
		if chance(r, 0.1) {
			s = mutate(r, s)
		}
		p := strPat(s)
		wp := web.ParsePattern(p.raw)
		for i := 0; i < 12; i++ {
			path := randPath(r, []*pat{p})
			base := randBase(r)
			key := ""
			if checkPattern(t, p, wp, path, base, nil) {
				key = s + "\xff" + path
				t.Sample(func() any {
					_, b := p.want(path)
					return fmt.Sprintf("pattern %q matched %q binding %s", s, path, fmtMap(b))
				})
			}
			t.Saw(key)
		}
		// The same parsed pattern used by several requests must not mix them up.
		if sr, ok := wp.(interface{ Raw() string }); ok && sr.Raw() != s {
			t.Fail("pattern %q: Raw returns %q", s, sr.Raw())
		}
	})

	// In a mux, what the handler sees.
	m.Run("mux", m.N(20000, 500000), func(t *T) {
		r := t.Rng
		p := strPat(randStrPat(r))
		mux := web.New()
		var got map[string]string
		var env any
		ran := false
		mux.Handle(p.raw, func(c web.C, _ http.ResponseWriter, _ *http.Request) { ran, got, env = true, c.URLParams, c.Env["k"] })
		mux.NotFound(func(c web.C, _ http.ResponseWriter, _ *http.Request) { got, env = c.URLParams, c.Env["k"] })
		for i := 0; i < 6; i++ {
			path := randPath(r, []*pat{p})
			base := randBase(r)
			ran, got, env = false, nil, nil
			c := web.C{Env: map[interface{}]interface{}{"k": i}}
			if base != nil {
				c.URLParams = overlay(base, nil)
			}
			mux.ServeHTTPC(c, newRW(), spice(r, newReq("GET", path)))
			want, binds := p.want(path)
			if want != ran {
				t.Fail("route %s, path %q: handler ran %v, should be %v", p.desc, path, ran, want)
			} else if exp := overlay(base, binds); !eqMap(got, exp) {
				t.Fail("route %s, path %q: with parameters %s before, the handler sees %s instead of %s", p.desc, path, fmtMap(base), fmtMap(got), fmtMap(exp))
			}
			if env != i {
				t.Fail("route %s, path %q: environment not preserved", p.desc, path)
			}
			key := ""
			if want {
				key = "mux\xff" + p.desc + path
			}
			t.Saw(key)
		}
	})
}

// ---- Regular expressions

// reNode generates a random expression together with a generator of strings
// that are likely to match it.
type reGen struct {
	r     *rand.Rand
	names int
}

func (g *reGen) gen(d int) (string, func() string) {
	r := g.r
	lit := func(s string) (string, func() string) { return regexp.QuoteMeta(s), func() string { return s } }
	if d <= 0 {
		return lit(pick(r, []string{"/", "a", "b", "/foo", "/a", "f", "\u00e9", "A", ".", "k", "/ab"}))
	}
	switch r.IntN(20) {
	case 0, 1, 2, 3, 4, 5:
		return lit(pick(r, []string{"/", "a", "b", "/foo", "/a", "/a/b", "\u00e9", "A", "K", "abc", "s"}))
	case 6, 7, 8, 9:
		n := 2 + r.IntN(3)
		var ss string
		var fs []func() string
		for i := 0; i < n; i++ {
			s, f := g.gen(d - 1)
			ss += s
			fs = append(fs, f)
		}
		return ss, func() string {
			o := ""
			for _, f := range fs {
				o += f()
			}
			return o
		}
	case 10, 11:
		a, fa := g.gen(d - 1)
		b, fb := g.gen(d - 1)
		s := a + "|" + b
		if chance(r, 0.75) {
			s = "(?:" + s + ")"
		}
		return s, func() string {
			if chance(r, 0.5) {
				return fa()
			}
			return fb()
		}
	case 12, 13:
		a, fa := g.gen(d - 1)
		switch r.IntN(4) {
		case 0:
			return "(" + a + ")", fa
		case 1:
			return "(?:" + a + ")", fa
		default:
			g.names++
			return fmt.Sprintf("(?P<n%d>%s)", g.names, a), fa
		}
	case 14, 15:
		a, fa := g.gen(d - 1)
		op := pick(r, []string{"*", "+", "?", "{0,2}", "{2}", "*?", "+?", "??", "{1,}", "{0}"})
		return "(?:" + a + ")" + op, func() string {
			o := ""
			for i := r.IntN(3); i > 0; i-- {
				o += fa()
			}
			return o
		}
	case 16:
		c := pick(r, []string{"[ab]", "[^/]", ".", `\d`, `\w`, `\pL`, "[a-z]+", `\W`, "[^a]", `[^\n]`, "[A-Za-z]", `\S`, `[/]`, `\x{FFFD}`, `[\x{FFFD}a]`, `(?s:.)`, `[[:alpha:]]`, `\x61`, `\141`, `[a]`, `[aA]`, `\/`})
		return c, func() string {
			return pick(r, []string{"a", "b", "/", "1", "\u00e9", "Z", "\xff", "\n", "x", "\ufffd"})
		}
	case 17:
		fl := pick(r, []string{"i", "s", "m", "U", "-s", "im", "i-s", "sU"})
		a, fa := g.gen(d - 1)
		if chance(r, 0.5) {
			return "(?" + fl + ":" + a + ")", func() string {
				s := fa()
				if chance(r, 0.5) {
					s = strings.ToUpper(s)
				}
				return s
			}
		}
		return "(?" + fl + ")" + a, func() string {
			s := fa()
			if chance(r, 0.5) {
				s = strings.ToUpper(s)
			}
			return s
		}
	case 18:
		return pick(r, []string{"^", "$", `\A`, `\z`, `\b`, `\B`, "(?m)^", "(?m:$)", "(?m:^)", ""}), func() string { return pick(r, []string{"", "", "", "\n"}) }
	default:
		s := pick(r, []string{"a.b", "/x+", "[", "(?", "^", "\\A", "a"})
		return `\Q` + s + `\E`, func() string { return s }
	}
}

func randRegexp(r *rand.Rand) (*regexp.Regexp, func() string) {
	for {
		g := &reGen{r: r}
		s, f := g.gen(1 + r.IntN(4))
		if chance(r, 0.02) {
			// Many groups.
			fs := []func() string{f}
			for k := 3 + r.IntN(130); k > 0; k-- {
				s1, f1 := g.gen(r.IntN(2))
				s, fs = s+"("+s1+")", append(fs, f1)
			}
			f = func() string {
				var b strings.Builder
				for _, f := range fs {
					b.WriteString(f())
				}
				return b.String()
			}
		}
		switch r.IntN(6) {
		case 0, 1:
			s = "^" + s
		case 2:
			s = `\A` + s
		case 3:
			s += pick(r, []string{"$", `\z`, "$", ".*", "(/.*)?$", `\Q/end`, `\Q`, `|`, `|/a`})
		}
		if re, err := regexp.Compile(s); err == nil {
			return re, f
		}
	}
}

func rexPath(r *rand.Rand, f func() string) string {
	s := f()
	switch r.IntN(7) {
	case 0, 1, 2:
	case 3:
		s = mutate(r, s)
	case 4:
		s += pick(r, []string{"", "/", "x", "/foo", "\n", "\xff", s})
	case 5:
		s = pick(r, []string{"/", "x", "a", "\n", "\xff", "/foo", "\ufffd"}) + s
	case 6:
		b := []byte(s)
		if len(b) > 0 {
			b[r.IntN(len(b))] = pick(r, []byte("aA/\xff\xc3\nkK\xe2"))
		}
		s = string(b)
	}
	return s
}

func runR03(m *M) {
	m.Run("random", m.N(60000, 2000000), func(t *T) {
		r := t.Rng
		re, f := randRegexp(r)
		p := rePat(re)
		before := re.String()
		wp := web.ParsePattern(re)
		for i := 0; i < 10; i++ {
			path := rexPath(r, f)
			key := ""
			if checkPattern(t, p, wp, path, randBase(r), nil) {
				key = before + "\xff" + path
				t.Sample(func() any {
					_, b := p.want(path)
					return fmt.Sprintf("regexp %q matched %q binding %s, prefix %q", before, path, fmtMap(b), wp.Prefix())
				})
				if wp.Prefix() != "" {
					t.Count("matches with a non-empty prefix", 1)
				}
			}
			t.Saw(key)
		}
		if re.String() != before {
			t.Fail("registering changed the expression %q to %q", before, re.String())
		}
	})

	// In tables: routes are found through the prefixes, and only the executed
	// route's groups are bound.
	m.Run("table", m.N(12000, 300000), func(t *T) {
		r := t.Rng
		tb := newTable()
		t.Desc(tb.String)
		var params map[string]string
		tb.handle = func(id int, c web.C, w http.ResponseWriter, _ *http.Request) {
			params = c.URLParams
			w.(*rw).hits = append(w.(*rw).hits, id)
		}
		var fs []func() string
		for i := 1 + r.IntN(5); i > 0; i-- {
			if chance(r, 0.25) {
				p := strPat(randStrPat(r))
				tb.addForm(randReg(r), p, "web.Handler")
				fs = append(fs, func() string { return p.eg(r) })
				continue
			}
			re, f := randRegexp(r)
			tb.addForm(randReg(r), rePat(re), "func(c,w,r)")
			fs = append(fs, f)
		}
		tb.mux.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) { tb.handle(notFoundID, c, w, r) })
		tb.nfSet = true
		for i := 0; i < 8; i++ {
			me, path := pick(r, []string{"GET", "GET", "POST", "PUT", "HEAD"}), rexPath(r, pick(r, fs))
			base := randBase(r)
			c := web.C{}
			if base != nil {
				c.URLParams = overlay(base, nil)
			}
			params = nil
			w := newRW()
			tb.mux.ServeHTTPC(c, w, spice(r, newReq(me, path)))
			want, binds := tb.expect(me, path)
			tb.checkHit(t, w, want, me, path)
			if exp := overlay(base, binds); !eqMap(params, exp) {
				t.Fail("%s %q: with parameters %s before, handler %d sees %s instead of %s", me, path, fmtMap(base), want, fmtMap(params), fmtMap(exp))
			}
			t.Saw(tb.sawKey(me, path, want))
		}
	})
}
