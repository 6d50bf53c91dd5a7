package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
)

// Whoever waits for connections waits for as long as it takes. These trials hold
// one for long, while others run.

func init() {
	gtrials["G01/patience"] = g01Patience
	gtrials["G02/patience"] = g02Patience
	gtrials["L03/patience"] = l03Patience
}

func patience(quick time.Duration) time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 70 * time.Second
	}
	return quick
}

func g01Patience(g *gt) {
	r := g.r
	h := g.hold()
	d := patience(20 * time.Second)
	kind := []string{"call", "INT", "call after INT", "USR1 with a timeout"}[g.idx%4]
	g.desc("a request in progress for %v, shut down by %s", d, kind)
	switch kind {
	case "call":
		h.ws = append(h.ws, g.shutdownWaiter(false))
	case "USR1 with a timeout":
		graceful.Timeout(pick(r, []time.Duration{time.Hour, 1<<63 - 1}))
		graceful.AddSignal(syscall.SIGUSR1)
		g.kill(syscall.SIGUSR1)
	default:
		graceful.HandleSignals()
		g.kill(syscall.SIGINT)
	}
	g.begun(h)
	if kind == "call after INT" {
		h.ws = append(h.ws, g.shutdownWaiter(false))
	}
	if g.leftAlone(h, fmt.Sprintf("a request that takes %v", d), d) {
		g.graceful(h, kind)
	}
	g.count("seconds waited", int64(d/time.Second))
	g.res.Key = kind
	g.res.Obs = "answered"
}

func l03Patience(g *gt) {
	r := g.r
	mode, how := g.idx%3, r.IntN(3)
	f := newFL()
	l := wrapMode(f, mode)
	d := patience(10 * time.Second)
	var wcs []net.Conn
	var fcs []*fc
	for i := 0; i < 1+r.IntN(12); i++ {
		c := newFC(i, nil)
		f.ch <- c
		wc, err := l.Accept()
		if err != nil {
			g.fail("Accept: %v", err)
			return
		}
		if err := listener.MarkInUse(wc); err != nil {
			g.fail("MarkInUse: %v", err)
		}
		wcs, fcs = append(wcs, wc), append(fcs, c)
	}
	g.desc("mode %s, a drain that waits for %d connections for %v", modeNames[mode], len(wcs), d)
	var done atomic.Int32
	n := int32(1 + r.IntN(3))
	for i := int32(0); i < n; i++ {
		go func() { l.Drain(); done.Add(1) }()
	}
	time.Sleep(d)
	last := r.IntN(len(wcs))
	over := func(i int) {
		if fcs[i].closed() {
			g.fail("a connection in use was closed by a drain")
		}
		switch how {
		case 0:
			wcs[i].Close()
		case 1:
			listener.MarkIdle(wcs[i])
		default:
			listener.Disown(wcs[i])
		}
	}
	for i := range wcs {
		if i != last {
			over(i)
		}
	}
	time.Sleep(d / 10)
	if k := done.Load(); k != 0 {
		g.fail("%d of %d drains returned while a connection was in use", k, n)
	}
	over(last)
	g.until("drains do not return", func() bool { return done.Load() == n })
	g.count("seconds waited", int64(d/time.Second))
	g.res.Key = fmt.Sprint(mode, how, len(wcs), n)
	g.res.Obs = "ended"
}

// Hooks take as long as they take, too.
func g02Patience(g *gt) {
	d := patience(16 * time.Second)
	now, slow := g.idx%2 == 1, g.idx/2%2
	g.desc("hooks that take %v (slow: %d), immediate: %v", d, slow, now)
	var in [2]atomic.Bool
	var out [2]chan struct{}
	for i := range out {
		out[i] = make(chan struct{})
		if i != slow {
			close(out[i])
		}
	}
	hook := func(i int) { in[i].Store(true); <-out[i] }
	if g.r.IntN(2) == 0 {
		graceful.PreHook(func() { hook(0) })
		graceful.PostHook(func() { hook(1) })
	} else {
		graceful.PreHookWithSignal(func(os.Signal) { hook(0) })
		graceful.PostHookWithSignal(func(os.Signal) { hook(1) })
	}
	h := g.hold()
	h.ws = append(h.ws, g.shutdownWaiter(now))
	quiet := func(why string) {
		for _, w := range h.ws {
			if w.at.Load() != 0 {
				g.fail("%s: %s has returned", why, w.name)
			}
		}
	}
	if slow == 0 {
		g.until("a shutdown does not call its hooks", in[0].Load)
		time.Sleep(d)
		if h.s.l.closedAt.Load() != 0 || h.lc.closedAt.Load() != 0 || h.idle.Load() {
			g.fail("a listener or connection is closed before the first hook, which takes %v, has returned", d)
		}
		if in[1].Load() {
			g.fail("post-hooks run before the first hook, which takes %v, has returned", d)
		}
		quiet(fmt.Sprintf("a hook that takes %v has not returned", d))
		close(out[0])
	}
	g.until("a shutdown does not close the listener", func() bool { return h.s.l.closedAt.Load() != 0 })
	if now {
		g.until("an immediate shutdown does not close a connection", func() bool { return h.lc.closedAt.Load() != 0 })
	}
	close(h.q.gate)
	if slow == 1 {
		g.until("a shutdown does not call its hooks", in[1].Load)
		time.Sleep(d)
		quiet(fmt.Sprintf("a post-hook that takes %v has not returned", d))
		close(out[1])
	}
	for _, w := range h.ws {
		g.until(w.name+" does not return", func() bool { return w.at.Load() != 0 })
	}
	if !in[0].Load() || !in[1].Load() {
		g.fail("hooks have not run")
	}
	g.count("seconds waited", int64(d/time.Second))
	g.res.Key = fmt.Sprint(slow, now)
	g.res.Obs = "waited"
}

// g07Patience serves clients that take their time, and handlers that do.
func g07Patience(t *T) {
	r := t.Rng
	a, err := g07Listen(r)
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	d := patience(16 * time.Second)
	ways := []string{"Serve", "Server.Serve", "ListenAndServe", "Server.ListenAndServe"}
	way := ways[t.Index%len(ways)]
	t.Desc(func() string { return fmt.Sprintf("%s without time limits, %v between one step of a conversation and the next", way, d) })
	var cfg http.Server
	if chance(r, 0.5) {
		// Another limit, that has nothing to do with it.
		cfg.MaxHeaderBytes = 1 << 16
	}
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		if r.URL.Path == "/slow" {
			time.Sleep(d)
		}
		if r.URL.Path == "/stream" {
			io.WriteString(w, "first ")
			w.(http.Flusher).Flush()
			time.Sleep(d)
		}
		fmt.Fprintf(w, "%d %v %v", len(b), err, r.Context().Err())
	})
	ret := make(chan error, 1)
	var l net.Listener
	stop := func() { l.Close() }
	if strings.HasSuffix(way, "ListenAndServe") {
		// Nothing but a shutdown ends it, so it stays for as long as the monitor.
		stop = func() {}
	} else if l, err = net.Listen("tcp", a); err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	go func() {
		switch way {
		case "Serve":
			ret <- graceful.Serve(l, h)
		case "Server.Serve":
			ret <- (&graceful.Server{Handler: h, MaxHeaderBytes: cfg.MaxHeaderBytes}).Serve(l)
		case "ListenAndServe":
			ret <- graceful.ListenAndServe(a, h)
		default:
			ret <- (&graceful.Server{Addr: a, Handler: h, MaxHeaderBytes: cfg.MaxHeaderBytes}).ListenAndServe()
		}
	}()
	defer func() { stop() }()
	var wg sync.WaitGroup
	talk := func(name, want string, steps ...string) {
		defer wg.Done()
		var c net.Conn
		for i := 0; ; i++ {
			var err error
			if c, err = net.Dial("tcp", a); err == nil {
				break
			}
			select {
			case err := <-ret:
				t.m.Inconclusive("%s: %v", way, err)
				ret <- err
				return
			case <-time.After(10 * time.Millisecond):
			}
			if i > 2000 {
				t.m.Inconclusive("%s does not serve", way)
				return
			}
		}
		defer c.Close()
		for i, s := range steps {
			if i > 0 {
				time.Sleep(d)
			}
			if _, err := io.WriteString(c, s); err != nil {
				t.Fail("%s: writing after %v: %v", name, d*time.Duration(i), err)
				return
			}
		}
		c.SetReadDeadline(time.Now().Add(d + 60*time.Second))
		b, err := io.ReadAll(c)
		if n := strings.Count(string(b), want); n == 0 || err != nil {
			t.Fail("%s: the client receives %q, %v", name, clip(string(b), 300), err)
			return
		}
		t.Count("slow conversations: "+name, 1)
	}
	const hd = " HTTP/1.1\r\nHost: x\r\n"
	const end = "Connection: close\r\n"
	wg.Add(7)
	go talk("nothing at first", "0 <nil> <nil>", "", "GET /"+hd+end+"\r\n")
	go talk("half a request line", "0 <nil> <nil>", "GE", "T /"+hd+end+"\r\n")
	go talk("half a header", "0 <nil> <nil>", "GET /"+hd+"X-A: 1", "23\r\n"+end+"\r\n")
	go talk("half a body", "10 <nil> <nil>", "POST /"+hd+end+"Content-Length: 10\r\n\r\n01234", "56789")
	go talk("idle between requests", "0 <nil> <nil>HTTP/1.1 200 OK", "GET /"+hd+"\r\n", "GET /"+hd+end+"\r\n")
	go talk("a slow handler", "0 <nil> <nil>", "GET /slow"+hd+end+"\r\n")
	go talk("a slow response", "first ", "GET /stream"+hd+end+"\r\n")
	wg.Wait()
	t.Saw(way + fmt.Sprint(cfg.MaxHeaderBytes))
}
