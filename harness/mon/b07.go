package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

func init() {
	props["B07/main"] = prop{"random requests (header sets with every subset of the conditional and forwarding headers, repeated, empty and look-alike ones; queries; environments) through NoCache, RealIP, URLQuery and EnvInit, alone and stacked on a mux, with the state the inner handler finds compared with the documented one; and NoCache in processes of different time zones. A request is trivial if the middleware had nothing to change.", runB07}
	children["tzchild"] = func(args []string) {
		if len(args) > 0 && args[0] == "late" {
			time.Local = time.FixedZone("XYZ", -5*3600)
		}
		w := newRW()
		middleware.NoCache(http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})).ServeHTTP(w, newReq("GET", "/"))
		_, off := time.Unix(0, 0).Zone()
		json.NewEncoder(os.Stdout).Encode(map[string]any{"h": w.Header(), "off": off})
	}
}

// The documented response headers, and the request headers HTTP calls conditional.
var noCacheDoc = map[string]string{
	"Expires": "Thu, 01 Jan 1970 00:00:00 UTC", "Cache-Control": "no-cache, private, max-age=0",
	"Pragma": "no-cache", "X-Accel-Expires": "0",
}
var conditional = []string{"Etag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since"}

func randHeader(r *rand.Rand, names []string, p float64) http.Header {
	h := http.Header{}
	for _, n := range names {
		if chance(r, p) {
			vs := []string{}
			for k := 1 + r.IntN(3)*r.IntN(2); k > 0; k-- {
				vs = append(vs, pick(r, []string{"", "*", `"abc"`, `W/"x", "y"`, "Tue, 15 Nov 1994 12:45:26 GMT", "no-cache", "bytes=0-9", "-1"}))
			}
			h[n] = vs
		}
	}
	return h
}

func fmtHeader(h http.Header) string {
	var l []string
	for k, v := range h {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// inner is the handler below a middleware: it checks that it gets what the
// middleware was given, once.
type inner struct {
	t     *T
	w     http.ResponseWriter
	r     *http.Request
	f     func(w http.ResponseWriter, r *http.Request)
	boom  bool
	calls int
}

func (i *inner) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	i.calls++
	if w != i.w || r != i.r {
		i.t.Fail("the handler was not called with the writer and request the middleware got: %T %p instead of %T %p", w, r, i.w, i.r)
	}
	i.f(w, r)
	if i.boom {
		panic(i)
	}
}

// serve drives h, which ends in in, and checks that the call and a panic went through.
func (i *inner) serve(h http.Handler) {
	defer func() {
		if p := recover(); p != nil && p != any(i) {
			panic(p)
		} else if (p != nil) != i.boom {
			i.t.Fail("a panic of the handler did not come through")
		}
		if i.calls != 1 {
			i.t.Fail("the handler was called %d times", i.calls)
		}
	}()
	h.ServeHTTP(i.w, i.r)
}

func randForwarded(r *rand.Rand) string {
	if chance(r, 0.01) {
		return strings.Repeat("long", 1+r.IntN(1<<(3+r.IntN(11)))) + "end"
	}
	return pick(r, []string{"1.2.3.4", "::1", "2001:db8::2", "unknown", "1.2.3.4:99", "a b", "x,y", "10.0.0.1,10.0.0.2", " 9.9.9.9", "9.9.9.9 ", "\u00e9", "secret\"", "-", ","})
}

func runB07(m *M) {
	others := []string{"Range", "If-Match-Not", "If", "X-If-Match", "Accept", "Cache-Control", "Pragma", "Expires", "If-None", "Etags", "If-Schedule-Tag-Match"}
	m.Run("nocache", m.N(30000, 1000000), func(t *T) {
		req := spice(t.Rng, newReq(randMethod(t.Rng), "/x"))
		req.Header = randHeader(t.Rng, append(append([]string{}, conditional...), others...), 0.4)
		want := req.Header.Clone()
		had := 0
		for _, c := range conditional {
			if _, ok := want[c]; ok {
				had++
			}
			delete(want, c)
		}
		w := newRW()
		w.h = randHeader(t.Rng, []string{"Expires", "Cache-Control", "Pragma", "X-Accel-Expires", "Etag", "Last-Modified", "If-Match", "Vary"}, 0.3)
		before := w.h.Clone()
		wantW := w.h.Clone()
		for k, v := range noCacheDoc {
			wantW[k] = []string{v}
		}
		orig := req.Header.Clone()
		t.Desc(func() string { return fmt.Sprintf("request %s\nresponse %s", fmtHeader(orig), fmtHeader(before)) })
		in := &inner{t: t, w: w, r: req, boom: chance(t.Rng, 0.05)}
		in.f = func(_ http.ResponseWriter, r *http.Request) {
			if !reflect.DeepEqual(r.Header, want) {
				t.Fail("the application sees request headers %s instead of %s", fmtHeader(r.Header), fmtHeader(want))
			}
			if !reflect.DeepEqual(w.Header(), wantW) {
				t.Fail("the response headers are %s instead of %s", fmtHeader(w.Header()), fmtHeader(wantW))
			}
		}
		in.serve(middleware.NoCache(in))
		if had > 0 {
			t.Saw("nocache " + fmtHeader(orig))
		} else {
			t.Saw("")
		}
		t.Sample(func() any {
			return "request " + fmtHeader(orig) + " -> " + fmtHeader(req.Header) + "; response " + fmtHeader(w.Header())
		})
	})
	s := newCaseServer()
	m.Run("nocache-server", m.N(400, 10000), func(t *T) {
		hdr := http.Header{}
		for _, c := range conditional {
			if chance(t.Rng, 0.6) {
				hdr[c] = []string{pick(t.Rng, []string{"", `"a"`, "*", "Tue, 15 Nov 1994 12:45:26 GMT"})}
			}
		}
		t.Desc(func() string { return fmtHeader(hdr) })
		mux := web.New()
		mux.Use(middleware.NoCache)
		var saw http.Header
		code := 200 + t.Rng.IntN(300)
		mux.Handle("/x", func(w http.ResponseWriter, r *http.Request) {
			saw = r.Header.Clone()
			w.WriteHeader(code)
		})
		res := s.do(t, fmt.Sprint(t.Index), mux, "GET", "/x", hdr)
		if res.err != "" {
			m.Inconclusive("nocache-server: %s", res.err)
			return
		}
		for _, c := range conditional {
			if v, ok := saw[c]; ok {
				t.Fail("the application sees %s=%q", c, v)
			}
		}
		for k, v := range noCacheDoc {
			if !reflect.DeepEqual(res.h[k], []string{v}) {
				t.Fail("the client receives %s=%q", k, res.h[k])
			}
		}
		t.Saw(fmt.Sprint("nocache-server ", code, fmtHeader(hdr)))
	})
	self, err := os.Executable()
	if err != nil {
		m.Inconclusive("%v", err)
		return
	}
	zones := []string{"", "UTC", "Europe/London", "America/Chicago", "Asia/Kathmandu", "Pacific/Apia", "Africa/Monrovia", "Asia/Tokyo", "America/Sao_Paulo", "late"}
	m.Run("timezones", m.N(len(zones), len(zones)), func(t *T) {
		z := zones[t.Index]
		cmd := exec.Command(self, "tzchild", z)
		env := os.Environ()
		if z != "" && z != "late" {
			env = append(env, "TZ="+z)
		}
		cmd.Env = env
		out, err := cmd.Output()
		var v struct {
			H   http.Header
			Off int
		}
		if err == nil {
			err = json.Unmarshal(out, &v)
		}
		if err != nil {
			m.Inconclusive("tzchild: %v", err)
			return
		}
		t.Saw(fmt.Sprint("zone ", z))
		if v.Off != 0 {
			t.Count("time zones other than UTC at the epoch", 1)
		}
		for k, d := range noCacheDoc {
			if !reflect.DeepEqual(v.H[k], []string{d}) {
				t.Fail("with time zone %q, %s is %q", z, k, v.H[k])
			}
		}
		t.Sample(func() any { return fmt.Sprintf("time zone %q (offset %d): Expires %q", z, v.Off, v.H["Expires"]) })
	})
	m.Run("realip", m.N(30000, 1000000), func(t *T) {
		r := t.Rng
		req := spice(t.Rng, newReq("GET", "/x"))
		req.RemoteAddr = pick(r, []string{"192.0.2.7:4242", "", "@", "[::1]:9"})
		want := req.RemoteAddr
		xff, real := "", ""
		if chance(r, 0.3) {
			real = randForwarded(r)
			req.Header["X-Real-Ip"] = []string{real}
		} else if chance(r, 0.2) {
			req.Header["X-Real-Ip"] = []string{""}
		}
		if chance(r, 0.5) {
			l := []string{randForwarded(r)}
			more := r.IntN(3)
			if chance(r, 0.01) {
				more = r.IntN(1000)
			}
			for k := more; k > 0; k-- {
				l = append(l, pick(r, append([]string{""}, randForwarded(r))))
			}
			xff = strings.Join(l, ", ")
			req.Header["X-Forwarded-For"] = []string{xff}
			if chance(r, 0.2) {
				req.Header["X-Forwarded-For"] = []string{xff, randForwarded(r)}
			}
		} else if chance(r, 0.2) {
			req.Header["X-Forwarded-For"] = []string{""}
		}
		switch {
		case xff != "":
			want = xff
			for i := 0; i+1 < len(xff); i++ {
				if xff[i] == ',' && xff[i+1] == ' ' {
					want = xff[:i]
					break
				}
			}
		case real != "":
			want = real
		}
		if want == "" && xff != "" {
			// ", ..." has no first entry: what that means is not documented.
			t.Saw("")
			return
		}
		orig := req.Header.Clone()
		addr := req.RemoteAddr
		t.Desc(func() string { return addr + " " + fmtHeader(orig) })
		in := &inner{t: t, w: newRW(), r: req, boom: chance(r, 0.05)}
		in.f = func(_ http.ResponseWriter, q *http.Request) {
			if q.RemoteAddr != want {
				t.Fail("the remote address is %q instead of %q", q.RemoteAddr, want)
			}
			if !reflect.DeepEqual(q.Header, orig) {
				t.Fail("the request headers became %s", fmtHeader(q.Header))
			}
		}
		in.serve(middleware.RealIP(in))
		if want != addr {
			t.Saw("realip " + fmtHeader(orig))
		} else {
			t.Saw("")
		}
		t.Sample(func() any { return fmtHeader(orig) + " -> " + req.RemoteAddr })
	})
	randEnv := func(r *rand.Rand) map[interface{}]interface{} {
		if chance(r, 0.4) {
			return nil
		}
		e := map[interface{}]interface{}{}
		for k := r.IntN(4); k > 0; k-- {
			e[pick(r, []interface{}{"a", 7, "urlquery2", "Urlquery", struct{}{}, web.MatchKey, middleware.URLQueryKey})] = pick(r, []interface{}{1, "x", nil, r})
		}
		return e
	}
	m.Run("env", m.N(30000, 1000000), func(t *T) {
		r := t.Rng
		env := randEnv(r)
		before := map[interface{}]interface{}{}
		for k, v := range env {
			before[k] = v
		}
		params := map[string]string{"p": "q"}
		c := &web.C{URLParams: params, Env: env}
		req := spice(t.Rng, newReq("GET", "/x"))
		query := chance(r, 0.5)
		raw := ""
		for k := r.IntN(5); k > 0; k-- {
			raw += pick(r, []string{"a=1", "b", "a=2", "=x", "&", "&&", "%zz", "c=%41", ";", "d;e=1", "+=+", "%00", "\u00e9=\u00e8", "x==y", "?"})
			if k > 1 && chance(r, 0.7) {
				raw += "&"
			}
		}
		if chance(r, 0.003) {
			for k := r.IntN(3000); k > 0; k-- {
				raw += fmt.Sprintf("&k%d=%s", k, strings.Repeat("v", k%50))
			}
		}
		req.URL.RawQuery = raw
		t.Desc(func() string {
			return fmt.Sprintf("urlquery=%v env=%v nil=%v query %q", query, before, env == nil, raw)
		})
		in := &inner{t: t, w: newRW(), r: req, boom: chance(r, 0.05)}
		in.f = func(_ http.ResponseWriter, q *http.Request) {
			if c.Env == nil {
				t.Fail("the environment is nil")
				return
			}
			if env != nil && mapPtr(c.Env) != mapPtr(env) {
				t.Fail("the environment was replaced")
			}
			if !eqMap(c.URLParams, params) || mapPtr(c.URLParams) != mapPtr(params) {
				t.Fail("the URL parameters became %v", c.URLParams)
			}
			n := 0
			for k, v := range before {
				if query && k == any(middleware.URLQueryKey) {
					continue
				}
				n++
				if v2, ok := c.Env[k]; !ok || !sameValue(v, v2) {
					t.Fail("environment key %v was %v and is now %v", k, v, v2)
				}
			}
			if query {
				n++
				got, ok := c.Env[middleware.URLQueryKey].(url.Values)
				if !ok || !reflect.DeepEqual(got, q.URL.Query()) {
					t.Fail("the query is %#v instead of %#v", c.Env[middleware.URLQueryKey], q.URL.Query())
				}
				// It is this request's own.
				for _, v := range got {
					v[0] = "edited"
				}
				got.Set("edited", "1")
			}
			if len(c.Env) != n {
				t.Fail("the environment became %v", c.Env)
			}
			if q.URL.RawQuery != raw || q.URL.Path != "/x" || q.Method != "GET" {
				t.Fail("the request was changed: %v", q.URL)
			}
		}
		if query {
			in.serve(middleware.URLQuery(c, in))
			t.Saw("urlquery " + raw)
		} else {
			in.serve(middleware.EnvInit(c, in))
			if env == nil {
				t.Saw(fmt.Sprint("envinit", t.Index))
			} else {
				t.Saw("")
			}
		}
		t.Sample(func() any { return fmt.Sprintf("query %q -> env %v", raw, c.Env) })
	})
	m.Run("stacked", m.N(20000, 400000), func(t *T) {
		r := t.Rng
		// All of them on one mux, in random order, and several requests on it: each
		// request gets its own environment, query and address.
		mws := []web.MiddlewareType{middleware.NoCache, middleware.RealIP, middleware.URLQuery, middleware.EnvInit}
		r.Shuffle(len(mws), func(i, j int) { mws[i], mws[j] = mws[j], mws[i] })
		mux := web.New()
		for _, x := range mws {
			mux.Use(x)
		}
		calls := 0
		var gotC web.C
		mux.Handle("/*", func(c web.C, w http.ResponseWriter, q *http.Request) { calls++; gotC = c })
		for k := 1 + r.IntN(4); k > 0; k-- {
			req := spice(t.Rng, newReq("GET", "/y"))
			tok := fmt.Sprint(r.IntN(1000))
			req.URL.RawQuery = "tok=" + tok
			req.Header["If-Match"] = []string{"x"}
			req.Header["X-Forwarded-For"] = []string{"addr" + tok + ", 1.1.1.1"}
			w := newRW()
			c := web.C{}
			if chance(r, 0.5) {
				c.Env = map[interface{}]interface{}{"mine": tok}
			}
			hadEnv := c.Env != nil
			calls, gotC = 0, web.C{}
			mux.ServeHTTPC(c, w, req)
			if calls != 1 {
				t.Fail("the handler was called %d times", calls)
				return
			}
			v, _ := gotC.Env[middleware.URLQueryKey].(url.Values)
			_, cond := req.Header["If-Match"]
			if v.Get("tok") != tok || req.RemoteAddr != "addr"+tok || cond || w.Header().Get("Pragma") != "no-cache" || hadEnv && gotC.Env["mine"] != tok || !hadEnv && len(gotC.Env) > 3 {
				t.Fail("the handler found query %v, address %q, environment %v, If-Match present %v, response %s", v, req.RemoteAddr, gotC.Env, cond, fmtHeader(w.Header()))
			}
			v.Set("tok", "edited")
			gotC.Env["edited"] = 1
			t.Saw(fmt.Sprint("stacked ", tok, k))
		}
	})
}
