package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/zenazn/goji/web"
)

func pick[E any](r *rand.Rand, l []E) E { return l[r.IntN(len(l))] }
func chance(r *rand.Rand, p float64) bool {
	return r.Float64() < p
}

var stdMethods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}
var oddMethods = []string{"FOO", "get", "PROPFIND", "", "GETX", "Options"}

func randMethod(r *rand.Rand) string {
	if chance(r, 0.1) {
		return pick(r, oddMethods)
	}
	return pick(r, stdMethods)
}

// reg is one of the registering functions: its name, the methods it serves
// (nil means all), and how to call it.
type reg struct {
	name    string
	methods map[string]bool
	call    func(*web.Mux, web.PatternType, web.HandlerType)
}

func ms(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

var regs = []reg{
	{"Handle", nil, (*web.Mux).Handle},
	{"Connect", ms("CONNECT"), (*web.Mux).Connect},
	{"Delete", ms("DELETE"), (*web.Mux).Delete},
	{"Get", ms("GET", "HEAD"), (*web.Mux).Get},
	{"Head", ms("HEAD"), (*web.Mux).Head},
	{"Options", ms("OPTIONS"), (*web.Mux).Options},
	{"Patch", ms("PATCH"), (*web.Mux).Patch},
	{"Post", ms("POST"), (*web.Mux).Post},
	{"Put", ms("PUT"), (*web.Mux).Put},
	{"Trace", ms("TRACE"), (*web.Mux).Trace},
}

func (g reg) has(method string) bool { return g.methods == nil || g.methods[method] }

func randReg(r *rand.Rand) reg {
	switch r.IntN(10) {
	case 0, 1, 2, 3:
		return regs[0]
	case 4, 5:
		return regs[3]
	}
	return pick(r, regs)
}

// ---- String patterns, as documented, by an independent matcher.

type strTok struct {
	lit  string // literal text, or
	name string // a name
	brk  byte   // and the break character that follows it
	isN  bool
}

const brks = "/.;,"

// parseStr reads a string pattern the way its documentation describes it.
func parseStr(p string) (toks []strTok, wild bool) {
	body := p
	if strings.HasSuffix(p, "/*") {
		wild = true
		body = p[:len(p)-1]
	}
	lit := ""
	for i := 0; i < len(body); {
		if strings.IndexByte(brks, body[i]) >= 0 && i+2 < len(body) && body[i+1] == ':' && strings.IndexByte(brks, body[i+2]) < 0 {
			j := i + 2
			for j < len(body) && strings.IndexByte(brks, body[j]) < 0 {
				j++
			}
			toks = append(toks, strTok{lit: lit + body[i:i+1]})
			lit = ""
			t := strTok{name: body[i+2 : j], isN: true, brk: '/'}
			if j < len(body) {
				t.brk = body[j]
			}
			toks = append(toks, t)
			i = j
			continue
		}
		lit += body[i : i+1]
		i++
	}
	return append(toks, strTok{lit: lit}), wild
}

// matchStr searches for a way of matching (by backtracking, so that it is not
// assumed that the match is unique) and returns the bindings in order.
func matchStr(toks []strTok, wild bool, path string) (ok bool, binds [][2]string) {
	if len(toks) == 0 {
		if wild {
			// The body ended in the '/' that belongs to the tail.
			return true, [][2]string{{"*", "/" + path}}
		}
		return path == "", nil
	}
	t := toks[0]
	if !t.isN {
		if !strings.HasPrefix(path, t.lit) {
			return false, nil
		}
		return matchStr(toks[1:], wild, path[len(t.lit):])
	}
	for n := 1; n <= len(path); n++ {
		if c := path[n-1]; c == '/' || c == t.brk {
			break
		}
		if ok, b := matchStr(toks[1:], wild, path[n:]); ok {
			return true, append([][2]string{{t.name, path[:n]}}, b...)
		}
	}
	return false, nil
}

// ---- Patterns with their own oracle.

type pat struct {
	kind string // "string", "regexp", "custom"
	desc string
	raw  web.PatternType
	// what matching path should say, and bind
	want func(path string) (bool, map[string]string)
	eg   func(r *rand.Rand) string // a path that is likely to match
}

func bindMap(b [][2]string) map[string]string {
	if len(b) == 0 {
		return nil
	}
	m := make(map[string]string, len(b))
	for _, kv := range b {
		m[kv[0]] = kv[1]
	}
	return m
}

func strPat(s string) *pat {
	toks, wild := parseStr(s)
	return &pat{kind: "string", desc: fmt.Sprintf("%q", s), raw: s,
		want: func(path string) (bool, map[string]string) {
			ok, b := matchStr(toks, wild, path)
			return ok, bindMap(b)
		},
		eg: func(r *rand.Rand) string {
			var b strings.Builder
			for _, t := range toks {
				if t.isN {
					b.WriteString(pick(r, egRuns))
				} else {
					b.WriteString(t.lit)
				}
			}
			if wild {
				b.WriteString(pick(r, egTails))
			}
			return b.String()
		}}
}

var egRuns = []string{"a", "b", "carl", "foo", "x.y", "a;b", "1,2", "\u00e9", "*", ":", "%", "\xff", "foo.html", "-", " ",
	"\x00", "a\x00b", "\xaf", "x\xaey", "\u00ef", "\xac\xbb", strings.Repeat("ab", 40), strings.Repeat("k", 70) + ";c", strings.Repeat("xy", 130) + ",1.z"}
var egTails = []string{"", "a", "a/b", "/", "foo/bar", "..", "\xfe", "*", "a/*", "\x00", "\xaf/\x00a", strings.Repeat("t/", 160)}

func rePat(re *regexp.Regexp, eg ...string) *pat {
	names := re.SubexpNames()
	return &pat{kind: "regexp", desc: "regexp " + fmt.Sprintf("%q", re.String()), raw: re,
		want: func(path string) (bool, map[string]string) {
			loc := re.FindStringSubmatchIndex(path)
			// The leftmost match starts at 0 iff any match does.
			if loc == nil || loc[0] != 0 {
				return false, nil
			}
			var b map[string]string
			for i := 1; i < len(names); i++ {
				if b == nil {
					b = map[string]string{}
				}
				n := names[i]
				if n == "" {
					n = fmt.Sprintf("$%d", i)
				}
				v := ""
				if loc[2*i] >= 0 {
					v = path[loc[2*i]:loc[2*i+1]]
				}
				b[n] = v
			}
			return true, b
		},
		eg: func(r *rand.Rand) string {
			if len(eg) > 0 {
				return pick(r, eg)
			}
			return "/" + pick(r, egRuns)
		}}
}

// custom is a user-written Pattern with a truthful prefix.
type custom struct {
	prefix string
	pred   func(rest string) bool
	bind   map[string]string
}

func (c *custom) Prefix() string { return c.prefix }
func (c *custom) Match(r *http.Request, _ *web.C) bool {
	return strings.HasPrefix(r.URL.Path, c.prefix) && c.pred(r.URL.Path[len(c.prefix):])
}
func (c *custom) Run(r *http.Request, cx *web.C) {
	for k, v := range c.bind {
		if cx.URLParams == nil {
			cx.URLParams = map[string]string{}
		}
		cx.URLParams[k] = v
	}
}

func customPat(prefix, name string, pred func(string) bool, bind map[string]string) *pat {
	c := &custom{prefix, pred, bind}
	return &pat{kind: "custom", desc: fmt.Sprintf("custom{%q %s}", prefix, name), raw: c,
		want: func(path string) (bool, map[string]string) {
			if !strings.HasPrefix(path, prefix) || !pred(path[len(prefix):]) {
				return false, nil
			}
			return true, bind
		},
		eg: func(r *rand.Rand) string {
			return prefix + pick(r, []string{"", "a", "b", "/", "ab", "x/y", "zz"})
		}}
}

var preds = []struct {
	name string
	f    func(string) bool
}{
	{"any", func(string) bool { return true }},
	{"exact", func(s string) bool { return s == "" }},
	{"even", func(s string) bool { return len(s)%2 == 0 }},
	{"odd", func(s string) bool { return len(s)%2 == 1 }},
	{"never", func(string) bool { return false }},
	{"has-b", func(s string) bool { return strings.Contains(s, "b") }},
}

// randLit makes literals whose prefixes overlap heavily.
var litPieces = []string{"a", "b", "ab", "ba", "abc", "abcd", "foo", "foobar", "/", "/", ".", "-", "x", "\u00e9", "aaaa"}

func randSeg(r *rand.Rand) string {
	if chance(r, 0.006) {
		return strings.Repeat(pick(r, []string{"a", "ab", "foo"}), 70+r.IntN(120)) + pick(r, litPieces[:5])
	}
	n := 1 + r.IntN(3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		p := pick(r, litPieces)
		if p == "/" {
			p = "b"
		}
		b.WriteString(p)
	}
	return b.String()
}

var patNames = []string{"a", "b", "name", "id", "x", "name", "*", "_", "n:m", "\u00e9", " "}

// randStrPat makes string patterns, mostly sensible ones.
func randStrPat(r *rand.Rand) string {
	if chance(r, 0.03) {
		return pick(r, []string{"", "/", "*", "/*", "a", "//", "/:", "/:/", ":a", "/a:b", "/.:a", "/:a:b", "/::a", "/:a.:b", "/:*", "/:*/*", "/:a//*", "/./*", ",:a;:b", "/:a/:a", "/\xff/:x", "/x*", "/:a/", "/:a/b*", "/*/*", "/*/a", "./*"})
	}
	var b strings.Builder
	n := 1 + r.IntN(4)
	if chance(r, 0.01) {
		n += r.IntN(70)
	}
	for i := 0; i < n; i++ {
		br := byte('/')
		if i > 0 && chance(r, 0.25) {
			br = pick(r, []byte(brks))
		}
		b.WriteByte(br)
		switch r.IntN(6) {
		case 0, 1:
			b.WriteString(":" + pick(r, patNames))
		case 2:
			b.WriteString(randSeg(r) + string(pick(r, []byte(brks))) + ":" + pick(r, patNames))
		default:
			b.WriteString(randSeg(r))
		}
	}
	if chance(r, 0.25) {
		b.WriteString("/*")
	} else if chance(r, 0.15) {
		b.WriteString("/")
	}
	return b.String()
}

// mutate changes a path a little.
func mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := r.IntN(3); k >= 0; k-- {
		switch r.IntN(7) {
		case 0:
			if len(b) > 0 {
				b = b[:r.IntN(len(b))]
			}
		case 1:
			b = append(b, pick(r, litPieces)...)
		case 2:
			if len(b) > 0 {
				i := r.IntN(len(b))
				b[i] = pick(r, []byte("ab/.;,:*x\xff\x00\xaf\xae\xac\xbb"))
			}
		case 3:
			if len(b) > 0 {
				i := r.IntN(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 4:
			i := r.IntN(len(b) + 1)
			b = append(b[:i:i], append([]byte{pick(r, []byte("ab/.;,:*x\xc3\x00\xaf\xbb"))}, b[i:]...)...)
		case 5:
			if i := strings.IndexByte(string(b), '/'); i >= 0 && len(b) > 1 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 6:
			b = append(b, '/')
		}
	}
	return string(b)
}

func randPath(r *rand.Rand, pats []*pat) string {
	switch {
	case len(pats) == 0 || chance(r, 0.08):
		return pick(r, []string{"", "/", "*", "a", "/a", "/foo", "/abc/abc", "//", "\xff", "/\xff", "/a/b/c", "/.", "/a.b", "/aaaaaaaaaaaaaaaa"})
	case chance(r, 0.5):
		return pick(r, pats).eg(r)
	}
	return mutate(r, pick(r, pats).eg(r))
}

// ---- Requests and writers.

func newReq(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "example.com", RemoteAddr: "192.0.2.1:1234"}
}

// spice gives a request some of what real ones come with, none of which any
// of the properties depends on.
func spice(r *rand.Rand, q *http.Request) *http.Request {
	if !chance(r, 0.3) {
		return q
	}
	for n := 1 + r.IntN(2); n > 0; n-- {
		switch r.IntN(13) {
		case 0:
			q = q.WithContext(cancelled)
		case 1:
			q = q.WithContext(overdue)
		case 2:
			q.Proto, q.ProtoMinor = "HTTP/1.0", 0
		case 3:
			q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
		case 4:
			q.TLS = &tls.ConnectionState{ServerName: "x"}
		case 5:
			q.Host = pick(r, []string{"", "localhost:8000", "[::1]", "*"})
		case 6:
			q.RequestURI = pick(r, []string{"", "/other", "*", "http://h/zzz", "/%2e"})
		case 7:
			q.ContentLength = int64(r.IntN(5)) - 1
			q.Body = io.NopCloser(strings.NewReader("body"))
		case 8:
			q.Close = true
			q.Form = url.Values{"_method": {"PUT"}, "a": {"1"}}
		case 9:
			h := pick(r, spices)
			q.Header.Set(h[0], h[1])
		case 10:
			q.URL.RawQuery, q.URL.Fragment = "a=/b&_method=PUT", "x"
		case 11:
			q.URL.Host, q.URL.Scheme, q.URL.ForceQuery = "example.net", "http", true
		case 12:
			for i := 0; i < len(q.URL.Path); i++ {
				q.URL.RawPath += fmt.Sprintf("%%%02x", q.URL.Path[i])
			}
		}
	}
	return q
}

var spices = [][2]string{{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"X-HTTP-Method-Override", "PUT"}, {"Accept-Encoding", "gzip"},
	{"Access-Control-Request-Method", "POST"}, {"Origin", "http://example.org"}, {"Range", "bytes=0-1"}, {"Expect", "100-continue"}, {"Cookie", "a=b"},
	{"Authorization", "Basic eDp5"}, {"Via", "1.1 x"}, {"Content-Type", "application/x-www-form-urlencoded"}, {"Max-Forwards", "0"}, {"X-Original-Url", "/zzz"}, {"Accept", "text/event-stream"}, {"User-Agent", ""}, {"X-Request-Id", "from-outside"}, {"X-Correlation-Id", "c"}}

var cancelled, overdue = func() (a, b context.Context) {
	a, cancel := context.WithCancel(context.Background())
	cancel()
	b, cancel = context.WithTimeout(context.Background(), -time.Second)
	cancel()
	return
}()

// rw is a minimal ResponseWriter that remembers what was done to it. The
// workload may hang its own data on it.
type rw struct {
	h      http.Header
	code   int
	body   []byte
	writes int
	hits   []int // ids of the handlers that ran, in order
	data   any
}

func newRW() *rw { return &rw{} }
func (w *rw) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *rw) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *rw) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.writes++
	w.body = append(w.body, b...)
	return len(b), nil
}

// ---- Handlers of every accepted form that call f.

type hC func(web.C, http.ResponseWriter, *http.Request)

type bothHandler struct{ f hC }

func (b *bothHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b.f(web.C{Env: map[interface{}]interface{}{"plain": true}}, w, r)
}
func (b *bothHandler) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { b.f(c, w, r) }

type plainHandler struct{ f hC }

func (b *plainHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) { b.f(web.C{}, w, r) }

type ctxHandler struct{ f hC }

func (b ctxHandler) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) { b.f(c, w, r) }

var handlerForms = []string{"func(w,r)", "func(c,w,r)", "http.HandlerFunc", "web.HandlerFunc", "http.Handler", "web.Handler", "both"}

// mkHandler returns a handler in the given form; ctx tells whether that form
// is given the context.
func mkHandler(form string, f hC) (h web.HandlerType, ctx bool) {
	switch form {
	case "func(w,r)":
		return func(w http.ResponseWriter, r *http.Request) { f(web.C{}, w, r) }, false
	case "func(c,w,r)":
		return func(c web.C, w http.ResponseWriter, r *http.Request) { f(c, w, r) }, true
	case "http.HandlerFunc":
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { f(web.C{}, w, r) }), false
	case "web.HandlerFunc":
		return web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { f(c, w, r) }), true
	case "http.Handler":
		return &plainHandler{f}, false
	case "web.Handler":
		return ctxHandler{f}, true
	case "both":
		return &bothHandler{f}, true
	}
	panic(form)
}

// sameValue tells whether two values passed as interface{} are the same: the
// same function, pointer or equal value.
func sameValue(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func:
		return reflect.ValueOf(&a).Elem().InterfaceData() == reflect.ValueOf(&b).Elem().InterfaceData()
	case reflect.Map:
		return va.Pointer() == vb.Pointer()
	case reflect.Struct:
		if va.NumField() == 1 && va.Field(0).Kind() == reflect.Func {
			return va.Field(0).Pointer() == vb.Field(0).Pointer()
		}
	}
	return va.Comparable() && vb.Comparable() && va.Interface() == vb.Interface()
}

func mapPtr(m any) uintptr { return reflect.ValueOf(m).Pointer() }

func fmtMap(m map[string]string) string {
	if m == nil {
		return "nil"
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteByte('{')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%q:%q", k, m[k])
	}
	return b.String() + "}"
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// overlay returns base with top's entries put over it.
func overlay(base, top map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range base {
		m[k] = v
	}
	for k, v := range top {
		m[k] = v
	}
	return m
}

func newURL(path string) *url.URL { return &url.URL{Path: path} }
