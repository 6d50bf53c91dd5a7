package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
	"github.com/zenazn/goji/web/mutil"
)

func init() {
	props["B06/main"] = prop{"random operation sequences on a proxied writer (all combinations of optional interfaces, byte limits, errors, silent short writes, invalid statuses, tees that come, go and fail, copies from sources of every kind) performed in lock step on the same writer without a proxy; after every operation what was sent, the reported status and count and the tee'd bytes are compared. And random responses through real HTTP/1.1 and HTTP/2 servers with and without the proxy. A sequence is trivial if it is empty.", runB06}
}

var errLimit = errors.New("limit reached")

// uw is an underlying writer that behaves like net/http's.
type uw struct {
	h       http.Header
	code    int
	sent    string
	infos   []string
	body    []byte
	limit   int // accepts this many bytes, then fails
	short   int // if > 0, silently accepts at most this many bytes per Write
	flushes int
	dups    int // final statuses after the first
	pushes  []string
	hijack  int
	raw     net.Conn
}

func (u *uw) Header() http.Header { return u.h }
func (u *uw) WriteHeader(c int) {
	if u.code != 0 {
		if c >= 200 {
			u.dups++
		}
		return
	}
	if c < 100 || c > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", c))
	}
	if c < 200 && c != 101 {
		u.infos = append(u.infos, fmt.Sprint(c, u.h))
		return
	}
	u.code, u.sent = c, fmt.Sprint(u.h)
}
func (u *uw) Write(b []byte) (int, error) {
	if u.code == 0 {
		u.WriteHeader(200)
	}
	if u.code == 204 || u.code == 304 || u.code == 101 {
		return 0, http.ErrBodyNotAllowed
	}
	n := len(b)
	if u.short > 0 && n > u.short {
		n = u.short
	}
	if n > u.limit {
		n = u.limit
		u.body = append(u.body, b[:n]...)
		u.limit = 0
		return n, errLimit
	}
	u.limit -= n
	u.body = append(u.body, b[:n]...)
	return n, nil
}

type uwF struct{ *uw }

func (u uwF) Flush() {
	if u.code == 0 {
		u.WriteHeader(200)
	}
	u.flushes++
}

type uwH struct{ *uw }

var errHijack = errors.New("hijack result")
var hijackRW = &bufio.ReadWriter{}

func (u uwH) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	u.hijack++
	return u.raw, hijackRW, errHijack
}

type uwR struct{ *uw }

// Like net/http's, it sends nothing if there is nothing to send.
func (u uwR) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{u.uw}, r) }

type uwP struct{ *uw }

func (u uwP) Push(target string, o *http.PushOptions) error {
	u.pushes = append(u.pushes, fmt.Sprint(target, o))
	return errPush
}

var errPush = errors.New("push result")

// assemble gives the writer a set of optional interfaces.
func assemble(u *uw, fl, hj, rf, pu bool) http.ResponseWriter {
	f, h, r, p := uwF{u}, uwH{u}, uwR{u}, uwP{u}
	type B = http.ResponseWriter
	switch {
	case fl && hj && rf && pu:
		return struct {
			B
			http.Flusher
			http.Hijacker
			io.ReaderFrom
			http.Pusher
		}{u, f, h, r, p}
	case fl && hj && rf:
		return struct {
			B
			http.Flusher
			http.Hijacker
			io.ReaderFrom
		}{u, f, h, r}
	case fl && hj && pu:
		return struct {
			B
			http.Flusher
			http.Hijacker
			http.Pusher
		}{u, f, h, p}
	case fl && rf && pu:
		return struct {
			B
			http.Flusher
			io.ReaderFrom
			http.Pusher
		}{u, f, r, p}
	case hj && rf && pu:
		return struct {
			B
			http.Hijacker
			io.ReaderFrom
			http.Pusher
		}{u, h, r, p}
	case fl && hj:
		return struct {
			B
			http.Flusher
			http.Hijacker
		}{u, f, h}
	case fl && rf:
		return struct {
			B
			http.Flusher
			io.ReaderFrom
		}{u, f, r}
	case fl && pu:
		return struct {
			B
			http.Flusher
			http.Pusher
		}{u, f, p}
	case hj && rf:
		return struct {
			B
			http.Hijacker
			io.ReaderFrom
		}{u, h, r}
	case hj && pu:
		return struct {
			B
			http.Hijacker
			http.Pusher
		}{u, h, p}
	case rf && pu:
		return struct {
			B
			io.ReaderFrom
			http.Pusher
		}{u, r, p}
	case fl:
		return struct {
			B
			http.Flusher
		}{u, f}
	case hj:
		return struct {
			B
			http.Hijacker
		}{u, h}
	case rf:
		return struct {
			B
			io.ReaderFrom
		}{u, r}
	case pu:
		return struct {
			B
			http.Pusher
		}{u, p}
	}
	return struct{ B }{u}
}

// teeW remembers what it was given, and may fail.
type teeW struct {
	got  []byte
	fail error
}

func (w *teeW) Write(b []byte) (int, error) {
	w.got = append(w.got, b...)
	if w.fail != nil {
		return len(b) / 2, w.fail
	}
	return len(b), nil
}

var errTee = errors.New("tee failed")
var errSrc = errors.New("source failed")

// source makes readers of several kinds over the same data.
func source(kind int, data string, r *rand.Rand) io.Reader {
	seed := r.Uint64()
	switch kind {
	case 0:
		return strings.NewReader(data)
	case 1:
		return bytes.NewBufferString(data)
	case 2:
		return readerOnly{strings.NewReader(data)}
	case 3:
		return &dribble{data, rand.New(rand.NewPCG(seed, 1)), nil, false}
	case 4:
		return &dribble{data, rand.New(rand.NewPCG(seed, 1)), errSrc, false}
	case 5:
		return &dribble{data, rand.New(rand.NewPCG(seed, 1)), errSrc, true}
	case 6:
		return io.LimitReader(strings.NewReader(data+"beyond"), int64(len(data)))
	case 7:
		return &dribble{data, rand.New(rand.NewPCG(seed, 1)), nil, true}
	case 8: // whoever goes on reading after the end gets more
		return &again{dribble{data, rand.New(rand.NewPCG(seed, 1)), errSrc, seed&1 != 0}, false}
	}
	return nil
}

// dribble returns its data in small pieces, and its error with or after the last.
type dribble struct {
	data string
	r    *rand.Rand
	err  error
	with bool
}

func (d *dribble) Read(b []byte) (int, error) {
	end := d.err
	if end == nil {
		end = io.EOF
	}
	if d.data == "" {
		return 0, end
	}
	if d.r.IntN(8) == 0 {
		return 0, nil
	}
	n := min(1+d.r.IntN(200), len(b), len(d.data))
	copy(b, d.data[:n])
	d.data = d.data[n:]
	if d.data == "" && d.with {
		return n, end
	}
	return n, nil
}

// again has more data after its end.
type again struct {
	dribble
	over bool
}

func (a *again) Read(b []byte) (int, error) {
	if a.over {
		a.dribble = dribble{"beyond the end", a.r, nil, true}
	}
	n, err := a.dribble.Read(b)
	a.over = err != nil
	return n, err
}

func guard(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			p = fmt.Sprint(x)
		}
	}()
	f()
	return
}

// A writer that only counts, and things to fill it from.
type sink struct {
	h http.Header
	n int64
}

func (s *sink) Header() http.Header         { return s.h }
func (s *sink) WriteHeader(int)             {}
func (s *sink) Write(b []byte) (int, error) { s.n += int64(len(b)); return len(b), nil }

type sinkR struct{ s *sink }

func (s sinkR) ReadFrom(r io.Reader) (int64, error) {
	return io.CopyBuffer(struct{ io.Writer }{s.s}, struct{ io.Reader }{r}, make([]byte, 1<<20))
}

type counter int64

func (c *counter) Write(b []byte) (int, error) { *c += counter(len(b)); return len(b), nil }

type endless struct{}

func (endless) Read(b []byte) (int, error) { return len(b), nil }

var zeros = make([]byte, 1<<26)

func runB06(m *M) {
	m.Run("model", m.N(120000, 3000000), func(t *T) {
		r := t.Rng
		fl, hj, rf, pu := chance(r, 0.7), chance(r, 0.7), chance(r, 0.7), chance(r, 0.4)
		mk := func() *uw { return &uw{h: http.Header{}, limit: 1 << 30} }
		ua, ub := mk(), mk()
		if chance(r, 0.3) {
			ua.limit = r.IntN(1500)
		}
		silent := chance(r, 0.15)
		if silent {
			ua.short = 1 + r.IntN(30)
		}
		ub.limit, ub.short = ua.limit, ua.short
		under, bare := assemble(ua, fl, hj, rf, pu), assemble(ub, fl, hj, rf, pu)
		var w mutil.WriterProxy = mutil.WrapWriter(under)
		var outer mutil.WriterProxy
		var ops []string
		t.Desc(func() string {
			return fmt.Sprintf("Flusher %v Hijacker %v ReaderFrom %v Pusher %v limit %d silent short writes %v: %s", fl, hj, rf, pu, ub.limit, silent, strings.Join(ops, " "))
		})
		if w.Unwrap() != under {
			t.Fail("Unwrap is not the original writer")
		}
		if chance(r, 0.1) {
			outer = w
			w = mutil.WrapWriter(w)
			if w.Unwrap() != http.ResponseWriter(outer) {
				t.Fail("Unwrap of a proxied proxy is not the proxy that was given")
			}
			ops = append(ops, "wrapped twice")
		}
		if w.Status() != 0 || w.BytesWritten() != 0 {
			t.Fail("a new proxy reports status %d and %d bytes", w.Status(), w.BytesWritten())
		}
		wf, isF := w.(http.Flusher)
		wh, isH := w.(http.Hijacker)
		wr, isR := w.(io.ReaderFrom)
		wp, isP := w.(http.Pusher)
		if fl && !isF || fl && hj && rf && (!isH || !isR) {
			t.Fail("the writer has Flusher %v Hijacker %v ReaderFrom %v, but the proxy has %v %v %v", fl, hj, rf, isF, isH, isR)
		}
		var tee *teeW
		var tees []*teeW
		var teeWant [][]byte
		check := func(op string, before int) {
			ops = append(ops, op)
			if ua.code != ub.code || ua.sent != ub.sent || fmt.Sprint(ua.infos) != fmt.Sprint(ub.infos) || string(ua.body) != string(ub.body) || ua.flushes != ub.flushes {
				t.Fail("with the proxy the client has received\n%d %s %v %q (%d flushes)\ninstead of\n%d %s %v %q (%d flushes)", ua.code, ua.sent, ua.infos, ua.body, ua.flushes, ub.code, ub.sent, ub.infos, ub.body, ub.flushes)
			}
			if ua.dups > 0 {
				t.Fail("the proxy passed on a second final status")
			}
			if w.Status() != ua.code {
				t.Fail("the proxy reports status %d, but %d was sent", w.Status(), ua.code)
			}
			if w.BytesWritten() != len(ua.body) {
				t.Fail("the proxy reports %d bytes, but %d were accepted", w.BytesWritten(), len(ua.body))
			}
			if outer != nil && (outer.Status() != ua.code || outer.BytesWritten() != len(ua.body)) {
				t.Fail("the inner proxy reports %d and %d bytes instead of %d and %d", outer.Status(), outer.BytesWritten(), ua.code, len(ua.body))
			}
			if tee != nil {
				i := len(tees) - 1
				teeWant[i] = append(teeWant[i], ua.body[before:]...)
			}
			for i, x := range tees {
				if string(x.got) != string(teeWant[i]) {
					t.Fail("tee %d received %d bytes %q, but %d bytes %q were written while it was set", i, len(x.got), x.got, len(teeWant[i]), teeWant[i])
				}
			}
		}
		for k := r.IntN(10); k >= 0 && t.nfail.Load() == 0; k-- {
			before := len(ua.body)
			switch x := r.IntN(20); x {
			case 0, 1:
				key, v := pick(r, []string{"X-A", "X-B", "Content-Type", "Content-Length"}), fmt.Sprint(r.IntN(5))
				w.Header().Set(key, v)
				bare.Header().Set(key, v)
				check(fmt.Sprintf("Header(%s=%s)", key, v), before)
			case 2, 3, 4:
				c := pick(r, []int{200, 200, 201, 204, 304, 404, 500, 100, 102, 103, 103, 199, 101, 999})
				if chance(r, 0.1) {
					c = pick(r, []int{0, 99, 1000, -5})
				}
				pa := guard(func() { w.WriteHeader(c) })
				pb := guard(func() { bare.WriteHeader(c) })
				if pa != pb {
					t.Fail("WriteHeader(%d) panicked with %q instead of %q", c, pa, pb)
				}
				ub.dups = 0
				check(fmt.Sprintf("WriteHeader(%d)", c), before)
			case 5, 6, 7, 8:
				b := bytes.Repeat([]byte{byte('a' + r.IntN(26))}, r.IntN(300))
				if chance(r, 0.1) {
					b = nil
				}
				n, err := w.Write(b)
				n2, err2 := bare.Write(b)
				if err2 == nil && tee != nil {
					err2 = tee.fail
				}
				if n != n2 || err != err2 {
					t.Fail("Write(%d) returned %d, %v instead of %d, %v", len(b), n, err, n2, err2)
				}
				check(fmt.Sprintf("Write(%d)", len(b)), before)
			case 9, 10, 11, 12:
				if silent {
					continue
				}
				kind := r.IntN(9)
				data := strings.Repeat(string(rune('A'+r.IntN(26))), pick(r, []int{0, 0, 1, 2, 511, 512, 513, 3000, 40000}))
				seed := r.Uint64()
				sa := source(kind, data, rand.New(rand.NewPCG(seed, 2)))
				sb := source(kind, data, rand.New(rand.NewPCG(seed, 2)))
				how := "Copy"
				var na, nb int64
				var ea, eb error
				if tee != nil && tee.fail != nil {
					continue
				}
				if isR && chance(r, 0.5) {
					how = "ReadFrom"
					na, ea = wr.ReadFrom(sa)
				} else {
					na, ea = io.Copy(w, sa)
				}
				nb, eb = io.Copy(bare, sb)
				if na != nb || ea != eb {
					t.Fail("%s returned %d, %v instead of %d, %v", how, na, ea, nb, eb)
				}
				check(fmt.Sprintf("%s(%d, kind %d)", how, len(data), kind), before)
			case 13, 14:
				if isF {
					if p := guard(wf.Flush); p != "" {
						t.Fail("Flush panicked: %s", p)
					}
					if fl {
						bare.(http.Flusher).Flush()
					}
					check("Flush", before)
				}
			case 15, 16, 17:
				switch r.IntN(4) {
				case 0:
					w.Tee(nil)
					tee = nil
					check("Tee(nil)", before)
				default:
					nt := &teeW{}
					if chance(r, 0.2) {
						nt.fail = errTee
					}
					w.Tee(nt)
					tee = nil
					check("Tee", before)
					tee = nt
					tees = append(tees, nt)
					teeWant = append(teeWant, nil)
				}
			case 18:
				if isH {
					var c net.Conn
					var b *bufio.ReadWriter
					var err error
					if p := guard(func() { c, b, err = wh.Hijack() }); p != "" {
						t.Fail("Hijack panicked: %s", p)
					}
					if hj && (err != errHijack || b != hijackRW || c != ua.raw || ua.hijack != 1) {
						t.Fail("Hijack returned %v, %v, %v after %d calls of the original", c, b, err, ua.hijack)
					}
					if !hj && err == nil {
						t.Fail("Hijack of a writer that cannot be hijacked returned no error")
					}
					ua.hijack = 0
					check("Hijack", before)
				}
			case 19:
				if isP {
					var err error
					o := &http.PushOptions{Method: "GET"}
					if p := guard(func() { err = wp.Push("/x", o) }); p != "" {
						t.Fail("Push panicked: %s", p)
					}
					if pu {
						if err != errPush || len(ua.pushes) != 1 || ua.pushes[0] != fmt.Sprint("/x", o) {
							t.Fail("Push returned %v, the original got %v", err, ua.pushes)
						}
					} else if err == nil {
						t.Fail("Push on a writer that cannot returned no error")
					}
					ua.pushes = nil
					check("Push", before)
				}
			}
		}
		key := ""
		if len(ops) > 0 {
			key = fmt.Sprint(fl, hj, rf, pu, ops)
		}
		t.Saw(key)
		t.Count("operations", int64(len(ops)))
		t.Sample(func() any {
			return fmt.Sprintf("Flusher %v Hijacker %v ReaderFrom %v Pusher %v: %v -> %d, %d bytes", fl, hj, rf, pu, ops, w.Status(), w.BytesWritten())
		})
	})

	srv := newCaseServer()
	h2 := newCaseServer()
	ts := httptest.NewUnstartedServer(h2)
	ts.EnableHTTP2 = true
	ts.StartTLS()
	h2.cl = ts.Client()
	h2.cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	h2.addr = ts.Listener.Addr().String()
	h2.scheme = "https"
	both := func(t *T, s *caseServer, proto string) {
		r := t.Rng
		l := randOps(r)
		method := pick(r, []string{"GET", "HEAD", "POST"})
		useTee := chance(r, 0.3)
		t.Desc(func() string { return fmt.Sprintf("%s %s %v tee %v", proto, method, l, useTee) })
		var status, n int
		var tee bytes.Buffer
		major := 0
		a := s.do(t, fmt.Sprint(t.Label, t.Index, "a"), http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			major = r.ProtoMajor
			p := mutil.WrapWriter(w)
			if useTee {
				p.Tee(&tee)
			}
			playOps(p, l)
			status, n = p.Status(), p.BytesWritten()
		}), method, "/", nil)
		b := s.do(t, fmt.Sprint(t.Label, t.Index, "b"), http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { playOps(w, l) }), method, "/", nil)
		for _, o := range l {
			if strings.HasPrefix(o.kind, "copy") {
				// How the body is framed may differ.
				a.h.Del("Content-Length")
				b.h.Del("Content-Length")
			}
		}
		if a.String() != b.String() || a.body != b.body {
			t.Fail("with the proxy the client receives\n%v\ninstead of\n%v", a, b)
		}
		if status == 0 {
			status = 200
		}
		if a.err == "" && a.code != status {
			t.Fail("the client receives %v, but the proxy reported %d", a, status)
		}
		if a.err == "" && method != "HEAD" && len(a.body) != n {
			t.Fail("the client receives %d bytes, but the proxy reported %d", len(a.body), n)
		}
		if useTee && a.err == "" && method != "HEAD" && tee.String() != a.body {
			t.Fail("the client receives %d bytes, the tee %d", len(a.body), tee.Len())
		}
		t.Saw(fmt.Sprint(major, method, l))
		t.Count(fmt.Sprint("requests over HTTP/", major), 1)
	}
	m.Run("HTTP/1.1", m.N(3000, 60000), func(t *T) { both(t, srv, "HTTP/1.1") })
	m.Run("HTTP/2", m.N(1500, 30000), func(t *T) { both(t, h2, "HTTP/2") })
	// Responses of several gigabytes, which cost little when nobody looks at the
	// bytes.
	m.Run("gigabytes", m.N(8, 40), func(t *T) {
		r := t.Rng
		u := &sink{h: http.Header{}}
		var under http.ResponseWriter = u
		rf := chance(r, 0.5)
		if rf {
			under = struct {
				*sink
				http.Flusher
				http.Hijacker
				io.ReaderFrom
			}{u, uwF{}, uwH{}, sinkR{u}}
		}
		w := mutil.WrapWriter(under)
		var tee counter
		teed := chance(r, 0.3)
		if teed {
			w.Tee(&tee)
		}
		var ops []string
		t.Desc(func() string { return fmt.Sprintf("ReaderFrom %v, tee %v: %s", rf, teed, strings.Join(ops, " ")) })
		for u.n < 5<<30 {
			if chance(r, 0.5) {
				b := zeros[:1<<26-r.IntN(1000)]
				for k := 0; k < 10; k++ {
					if n, err := w.Write(b); n != len(b) || err != nil {
						t.Fail("Write(%d) returned %d, %v", len(b), n, err)
					}
				}
				ops = append(ops, fmt.Sprintf("10*Write(%d)", len(b)))
			} else {
				size := r.Int64N(5 << 29)
				if n, err := io.Copy(w, io.LimitReader(endless{}, size)); n != size || err != nil {
					t.Fail("copying %d bytes returned %d, %v", size, n, err)
				}
				ops = append(ops, fmt.Sprintf("Copy(%d)", size))
			}
			if int64(w.BytesWritten()) != u.n || w.Status() != 200 {
				t.Fail("the proxy reports status %d and %d bytes, but %d bytes were accepted", w.Status(), w.BytesWritten(), u.n)
				return
			}
			if teed && int64(tee) != u.n {
				t.Fail("the tee received %d bytes, but %d were accepted", tee, u.n)
				return
			}
			t.Saw(fmt.Sprint(rf, teed, u.n))
		}
		t.Count("gigabytes", u.n>>30)
	})
	// Pushing on a real connection that cannot: the default stack's logger
	// proxies it.
	m.RunSerial("push on HTTP/1.1", 1, func(t *T) {
		mux := web.New()
		mux.Use(middleware.Logger)
		mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) {
			if p, ok := w.(http.Pusher); ok && p.Push("/x", nil) == nil {
				w.WriteHeader(500)
			}
			io.WriteString(w, "ok")
		})
		c := srv.do(t, "push", mux, "GET", "/", nil)
		if c.code != 200 || c.body != "ok" {
			t.Fail("the client receives %v", c)
		}
		t.Saw("push")
	})
	// Hijacking through the proxy on a real connection.
	m.Run("hijack", m.N(60, 500), func(t *T) {
		mux := web.New()
		mux.Use(middleware.Logger)
		mux.Handle("/*", func(w http.ResponseWriter, r *http.Request) {
			h, ok := w.(http.Hijacker)
			if !ok {
				t.Fail("the proxied writer of an HTTP/1.1 server cannot be hijacked")
				return
			}
			c, b, err := h.Hijack()
			if err != nil {
				t.Fail("Hijack: %v", err)
				return
			}
			go func() {
				defer c.Close()
				b.WriteString("HTTP/1.1 299 Mine\r\nContent-Length: 3\r\nConnection: close\r\n\r\nabc")
				b.Flush()
			}()
		})
		c := srv.do(t, fmt.Sprint("hijack", t.Index), mux, "GET", "/", nil)
		if c.code != 299 || c.body != "abc" {
			t.Fail("the client receives %v", c)
		}
		t.Saw("hijack")
	})
}
