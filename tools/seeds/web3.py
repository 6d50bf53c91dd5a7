S = []
def b(id, prop, needs, breaks, edits, demo, **kw):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

H = '''
package main

import (
%s
	"net/http"
	"github.com/zenazn/goji/web"
)
'''
def imp0(*l): return imp(*l).replace('\t"net/http"\n', "")
def imp1(*l): return imp(*l).replace('\t"github.com/zenazn/goji/web"\n', "")
def imp(*l): return H % "\n".join('\t"%s"' % x for x in l)
MW = "github.com/zenazn/goji/web/middleware"
MU = "github.com/zenazn/goji/web/mutil"

TAG = '''
func tag(s string) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, s); h.ServeHTTP(w, r) })
	}
}
'''

b("r02-high-byte", "R02", "a path with a byte whose low seven bits are those of a slash",
  "the segment ends there",
  [("web/string_pattern.go", "path[m] == bc || path[m] == '/'", "path[m] == bc || path[m]&0x7f == '/'")], imp() + '''
func main() {
	m := web.New()
	m.Get("/:a/x", func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, c.URLParams["a"]) })
	for _, s := range []string{"a", "\\u00e9", "\\u00ef", "\\xaf"} {
		if got := ask(m, "GET", "/"+s+"/x"); got.Code != 200 || got.Body.String() != s {
			fail("%q: %d %q", s, got.Code, got.Body)
		}
	}
}
''')
b("r02-long-run", "R02", "a parameter of more than 255 bytes",
  "the route does not match",
  [("web/string_pattern.go", "		for ; m < len(path); m++ {\n", "		for ; m < len(path) && m < 256; m++ {\n")], imp() + '''
func main() {
	m := web.New()
	m.Get("/:a", func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, c.URLParams["a"]) })
	for n := 1; n < 3000; n += 97 {
		s := strings.Repeat("a", n)
		if got := ask(m, "GET", "/"+s); got.Code != 200 || got.Body.String() != s {
			fail("%d bytes: %d", n, got.Code)
		}
	}
}
''')
b("r01-many-states", "R01", "a table whose machine has more than 65536 states",
  "routes are not found",
  [("web/bytecode_compiler.go", "sub[j].i += int32(off + len(m))", "sub[j].i += int32(uint16(off + len(m)))")], imp() + '''
func main() {
	m := web.New()
	for i := 0; i < 3000; i++ {
		s := fmt.Sprint(i)
		m.Get("/"+strings.Repeat(s+"/", 14), func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, s) })
	}
	for i := 0; i < 3000; i += 7 {
		s := fmt.Sprint(i)
		if got := ask(m, "GET", "/"+strings.Repeat(s+"/", 14)); got.Body.String() != s {
			fail("route %d: %d", i, got.Code)
		}
	}
}
''')
b("r01-deep-tail", "R01", "routes that share a prefix of more than 255 bytes",
  "they are not found",
  [("web/bytecode_compiler.go", "smSetCursor, i: int32(dp)}", "smSetCursor, i: int32(uint8(dp))}")], imp() + '''
func main() {
	m := web.New()
	long := "/" + strings.Repeat("directory/", 30)
	for _, s := range []string{"a", "b", "bb", "abc"} {
		s := s
		m.Get(long+s, func(c web.C, w http.ResponseWriter, r *http.Request) { io.WriteString(w, s) })
	}
	for _, s := range []string{"a", "b", "bb", "abc"} {
		if got := ask(m, "GET", long+s); got.Body.String() != s {
			fail("route %s: %d", s, got.Code)
		}
	}
}
''')
b("b04-client-gone", "B04", "a panic while the request's context is done",
  "no 500 is sent",
  [("web/middleware/recoverer.go", "				http.Error(w, http.StatusText(500), 500)", '''				select {
				case <-r.Context().Done():
					// Nobody is waiting for an answer.
				default:
					http.Error(w, http.StatusText(500), 500)
				}''')], imp("context", MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.Recoverer)
	m.Get("/", func(w http.ResponseWriter, r *http.Request) { panic("x") })
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if i == 1 {
			cancel()
		}
		r, err := http.NewRequest("GET", "/", nil)
		must(err)
		w := httptest.NewRecorder()
		w.Code = 0
		m.ServeHTTP(w, r.WithContext(ctx))
		if w.Code != 500 {
			fail("status %d", w.Code)
		}
		cancel()
	}
}
''')
b("b02-preflight", "B02", "an OPTIONS request that is a CORS preflight",
  "it is answered 404",
  [("web/middleware/options.go", '''if r.Method == "OPTIONS" {''', '''if r.Method == "OPTIONS" && r.Header.Get("Access-Control-Request-Method") == "" {''')], imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.AutomaticOptions)
	m.Get("/", func(w http.ResponseWriter, r *http.Request) {})
	for _, h := range []string{"Origin", "Access-Control-Request-Method", "Accept"} {
		if got := ask(m, "OPTIONS", "/", h, "GET"); got.Code != 200 || got.Header().Get("Allow") == "" {
			fail("with %s: %d %v", h, got.Code, got.Header())
		}
	}
}
''')
b("b02-short-write", "B02", "a not-found handler that looks at what its writes return",
  "writes of the body that is dropped are reported as short",
  [("web/middleware/options.go", "		return len(buf), nil", "		return 0, nil")], imp(MW) + '''
func main() {
	m := web.New()
	m.Use(middleware.AutomaticOptions)
	m.Get("/", func(w http.ResponseWriter, r *http.Request) {})
	m.NotFound(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(404)
		if n, err := io.Copy(w, strings.NewReader("not found")); err != nil || n != 9 {
			fail("copying the body: %d %v", n, err)
		}
	})
	ask(m, "OPTIONS", "/")
}
''')
b("b06-unwrap-deep", "B06", "a proxy of a proxy",
  "Unwrap returns the innermost writer instead of the one that was proxied",
  [("web/mutil/writer_proxy_go1_8.go", '''	return b.ResponseWriter
}''', '''	if p, ok := b.ResponseWriter.(WriterProxy); ok {
		return p.Unwrap()
	}
	return b.ResponseWriter
}''')], imp0(MU) + '''
func main() {
	w := httptest.NewRecorder()
	a := mutil.WrapWriter(w)
	b := mutil.WrapWriter(a)
	if a.Unwrap() != http.ResponseWriter(w) || b.Unwrap() != http.ResponseWriter(a) {
		fail("Unwrap")
	}
}
''')

REG = '''
// try runs this program again with the given step and returns what it printed and whether it failed.
func try(step string) (string, bool) {
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_STEP="+step)
	b, err := c.CombinedOutput()
	return string(b), err != nil
}
'''
b("r08-similar-function", "R08", "a handler whose type is a named function type",
  "it is accepted when it is registered, and the process ends when it is first asked for",
  [("web/handler.go", '''	default:
		log.Fatalf(unknownHandler, h)
		panic(''', '''	default:
		if v := reflect.ValueOf(h); v.Kind() == reflect.Func && v.Type().NumIn() > 1 {
			// Looked at again when it is called.
			return handlerFuncWrap{func(c C, w http.ResponseWriter, r *http.Request) {
				switch f := v.Interface().(type) {
				case http.HandlerFunc:
					f(w, r)
				default:
					log.Fatalf(unknownHandler, h)
				}
			}}
		}
		log.Fatalf(unknownHandler, h)
		panic('''), ("web/handler.go", '	"net/http"\n', '	"net/http"\n	"reflect"\n')], imp("os/exec") + REG + '''
type named func(http.ResponseWriter, *http.Request)
func main() {
	if os.Getenv("DEMO_STEP") != "" {
		web.New().Get("/", named(http.NotFound))
		fmt.Println("CAME BACK")
		return
	}
	if out, failed := try("1"); !failed || strings.Contains(out, "CAME BACK") {
		fail("accepted: %s", out)
	}
}
''')
b("r08-nil-layer", "R08", "a nil given to Insert",
  "it is taken for the middleware last abandoned instead of being refused",
  [("web/middleware.go", '''	default:
		log.Fatalf(unknownMiddleware, fn)
	}
	m.stack = append(m.stack, ml)''', '''	default:
		if fn == nil && len(m.stack) < cap(m.stack) {
			// Abandoned layers come back.
			ml = m.stack[: len(m.stack)+1][len(m.stack)]
		}
		if ml.fn == nil {
			log.Fatalf(unknownMiddleware, fn)
		}
	}
	m.stack = append(m.stack, ml)'''), ("web/middleware.go", "	m.stack = m.stack[: len(m.stack)-1 : len(m.stack)]", "	m.stack = m.stack[: len(m.stack)-1]")],
  imp("os/exec") + REG + '''
func main() {
	if os.Getenv("DEMO_STEP") != "" {
		m := web.New()
		a := func(h http.Handler) http.Handler { return h }
		b := func(h http.Handler) http.Handler { return http.NotFoundHandler() }
		m.Use(a)
		m.Use(b)
		m.Abandon(b)
		m.Insert(nil, a)
		fmt.Println("CAME BACK")
		return
	}
	if out, failed := try("1"); !failed || strings.Contains(out, "CAME BACK") {
		fail("accepted: %s", out)
	}
}
''')
b("r08-both-forms", "R08", "a pattern that is a string with methods of its own",
  "it is interpreted by its text instead of by its methods",
  [("web/pattern.go", '''	switch v := raw.(type) {
	case Pattern:''', '''	if v := reflect.ValueOf(raw); v.Kind() == reflect.String {
		return parseStringPattern(v.String())
	}
	switch v := raw.(type) {
	case Pattern:'''), ("web/pattern.go", '	"regexp"\n', '	"reflect"\n	"regexp"\n')], imp() + '''
type host string

func (h host) Prefix() string { return "" }
func (h host) Match(r *http.Request, c *web.C) bool { return r.Host == string(h) }
func (h host) Run(*http.Request, *web.C) {}

func main() {
	m := web.New()
	m.Get(host("example.com"), func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "host") })
	if got := ask(m, "GET", "/x"); got.Code != 200 || got.Body.String() != "host" {
		fail("%d %q", got.Code, got.Body)
	}
}
''')
b("r08-reference-refused", "R08", "something unacceptable named as the layer to insert before",
  "the process ends instead of getting an error",
  [("web/middleware.go", '''	i := m.findLayer(before)
	if i < 0 {
		return fmt''', '''	switch before.(type) {
	case http.Handler, string:
		log.Fatalf(unknownMiddleware, before)
	}
	i := m.findLayer(before)
	if i < 0 {
		return fmt''')], imp("os/exec") + REG + '''
func main() {
	if os.Getenv("DEMO_STEP") != "" {
		if err := web.New().Insert(func(h http.Handler) http.Handler { return h }, http.NotFoundHandler()); err == nil {
			panic("no error")
		}
		return
	}
	if out, failed := try("1"); failed {
		fail("%s", out)
	}
}
''')
b("b05-bleeding-color", "B05", "a request without ID, a slow response, and a terminal as standard output",
  "the terminal keeps the color of the duration",
  [("web/middleware/terminal.go", '''	fmt.Fprintf(buf, s, args...)
	if isTTY {''', '''	fmt.Fprintf(buf, s, args...)
	if isTTY && (len(color) != len(nYellow) || color[3] != nYellow[3]) {''')], imp("bytes", "log", MW, "os/exec", "syscall", "unsafe") + '''
func main() {
	if os.Getenv("DEMO_STEP") != "" {
		var b bytes.Buffer
		log.SetOutput(&b)
		log.SetFlags(0)
		m := web.New()
		m.Use(middleware.Logger)
		m.Get("/", func(w http.ResponseWriter, r *http.Request) { time.Sleep(600 * time.Millisecond) })
		ask(m, "GET", "/")
		for _, l := range strings.Split(strings.TrimSpace(b.String()), "\\n") {
			i := strings.LastIndex(l, "\\x1b[")
			if i < 0 || !strings.HasPrefix(l[i:], "\\x1b[0m") && !strings.HasPrefix(l[i:], "\\x1b[m") {
				fail("%q", l)
			}
		}
		return
	}
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	var n uint32
	var zero int32
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n)))
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero)))
	s, err := os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_STEP=1")
	c.Stdout = s
	if err := c.Run(); err != nil {
		buf := make([]byte, 4096)
		k, _ := m.Read(buf)
		fail("%v %q", err, buf[:k])
	}
}
''')
