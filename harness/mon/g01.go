package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/signal"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
)

func init() {
	g := func(ph string, l ...string) func(*M) {
		return func(m *M) {
			for _, s := range l {
				label, n := s, 0
				q, th := 0, 0
				fmt.Sscanf(s[strings.IndexByte(s, '=')+1:], "%d,%d", &q, &th)
				label = s[:strings.IndexByte(s, '=')]
				n = m.N(q, th)
				var env func(t *T) []string
				if label == "einhorn" {
					env = einhornEnv
				}
				if label == "patience" {
					var wg sync.WaitGroup
					wg.Add(1)
					go func() { defer wg.Done(); m.trials(label, n, env) }()
					defer wg.Wait()
					continue
				}
				m.trials(label, n, env)
			}
		}
	}
	rule1 := "servers with connections in every state (fresh, idle, in a handler, halfway through a header or body, unread response) shut down by call or signal, and clients hammering servers across the moment of shutdown, each trial in its own process; handlers that started are matched with what their clients received, closings and returns are ordered by one logical clock. Trials are distinguished by the mix of states and outcomes."
	props["G01/main"] = prop{rule1, g("main", "patience=4,16", "states=800,20000", "hammer=400,15000", "h2=150,4000")}
	props["G01/race"] = prop{rule1, g("race", "states=200,8000", "hammer=100,8000", "h2=40,2000")}
	props["G01/pert"] = prop{rule1, g("pert", "states=500,15000", "hammer=400,15000", "h2=60,3000")}
	rule2 := "random hooks, servers and shutdown requests (calls and signals, graceful and immediate, concurrent and repeated), each trial in its own process; one logical clock orders hooks, closings and returns."
	props["G02/main"] = prop{rule2, g("main", "patience=8,12", "hooks=800,20000")}
	props["G02/pert"] = prop{rule2, g("pert", "hooks=800,20000")}
	props["G02/race"] = prop{rule2, g("race", "hooks=300,10000")}
	rule3 := "scripted escalations (signals inside and outside the window, timeouts, calls, unregistered signals, disabled features) against a server with a request held in its handler; whether its connection is closed, and when, is compared with what was asked for. Trials are distinguished by script."
	props["G03/main"] = prop{rule3, g("main", "escalation=480,8000", "einhorn=60,600")}
	props["G03/pert"] = prop{rule3, g("pert", "escalation=300,6000")}
	rule4 := "handlers hijack connections before, during and after shutdowns of both kinds; the hijacked transports must stay open and usable until their owner closes them, and nothing may wait for them; connection state callbacks are compared with those of a plain http.Server. Trials are distinguished by the mix of outcomes."
	props["G04/main"] = prop{rule4, g("main", "hijack=800,20000", "states=200,5000")}
	props["G04/pert"] = prop{rule4, g("pert", "hijack=800,20000")}
	props["G04/race"] = prop{rule4, g("race", "hijack=300,10000")}
	gtrials["G01/states"] = g01States
	gtrials["G01/hammer"] = g01Hammer
	gtrials["G01/h2"] = g01H2
	gtrials["G02/hooks"] = g02Hooks
	gtrials["G03/escalation"] = g03
	gtrials["G03/einhorn"] = g03Einhorn
	gtrials["G04/hijack"] = g04Hijack
	gtrials["G04/states"] = g04States
}

// gsrv is a server run by package graceful.
type gsrv struct {
	l      *llis
	addr   string
	served atomic.Bool
	err    error
	how    int
}

// sameAddr is a listener that, like those in memory, does not say where it is.
type sameAddr struct{ net.Listener }

var pipeAddr = &net.UnixAddr{Name: "pipe", Net: "pipe"}

func (sameAddr) Addr() net.Addr { return pipeAddr }

func (g *gt) serve(h http.Handler, how int, tweak func(*graceful.Server)) *gsrv {
	s := &gsrv{l: newLlis(g), how: how}
	s.addr = s.l.Listener.Addr().String()
	srv := &graceful.Server{Handler: h}
	if tweak == nil && how == 1 && g.r.IntN(2) == 0 {
		// One Server may serve any number of listeners.
		if g.shared == nil {
			g.shared = srv
		}
		srv = g.shared
	}
	if how < 2 && g.r.IntN(3) == 0 {
		s.l.Listener = sameAddr{s.l.Listener}
	}
	if tweak != nil {
		tweak(srv)
		if how == 0 {
			how = 1
		}
	}
	switch how {
	case 0, 1, 2:
	case 3:
		s.l.Listener.Close()
		srv.Addr = s.addr
	}
	go func() {
		switch how {
		case 0:
			s.err = graceful.Serve(s.l, h)
		case 1:
			s.err = srv.Serve(s.l)
		case 2:
			// A real TCP listener, which package graceful treats specially.
			s.err = graceful.Serve(s.l.Listener.(*net.TCPListener), h)
		case 3:
			s.err = srv.ListenAndServe()
		}
		s.served.Store(true)
	}()
	// Serve registers the listener before it accepts, so once it has answered it
	// takes part in shutdowns.
	q := newGreq(fmt.Sprintf("up%p", s), 1, false)
	var c *gcl
	g.until("a server does not come up", func() bool {
		if s.served.Load() {
			if how == 3 && strings.Contains(fmt.Sprint(s.err), "in use") {
				g.incon("%v", s.err)
			}
			g.fail("Serve returns %v before any shutdown", s.err)
			g.finish()
		}
		var err error
		c, err = g.dial(s.addr)
		return err == nil
	})
	if _, err := c.get(q); err != nil {
		g.fail("a request to a running server fails: %v", err)
		g.finish()
	}
	c.c.Close()
	return s
}

// trigger requests a shutdown in one of several ways.
func (g *gt) trigger(kind string) {
	switch kind {
	case "call":
		graceful.Shutdown()
	case "now":
		graceful.ShutdownNow()
	case "INT":
		syscall.Kill(os.Getpid(), syscall.SIGINT)
	case "USR1":
		syscall.Kill(os.Getpid(), syscall.SIGUSR1)
	}
}

type waiter struct {
	name string
	at   atomic.Int64
}

func (g *gt) waiters(calls int) (l []*waiter) {
	for i := 0; i < calls; i++ {
		w := &waiter{name: "Wait"}
		l = append(l, w)
		go func() { graceful.Wait(); w.at.Store(g.tick()) }()
	}
	return
}

// someWaiters says how many callers of Wait there are: mostly few.
func someWaiters(r *rand.Rand) int {
	if chance(r, 0.08) {
		return r.IntN(150)
	}
	return r.IntN(3)
}

func (g *gt) shutdownWaiter(now bool) *waiter {
	w := &waiter{name: "Shutdown"}
	if now {
		w.name = "ShutdownNow"
	}
	go func() {
		if now {
			graceful.ShutdownNow()
		} else {
			graceful.Shutdown()
		}
		w.at.Store(g.tick())
	}()
	return w
}

// stripPrefix: connections of the harness itself that are done with.
func refused(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err == nil {
		c.Close()
		return false
	}
	return true
}

// checkEnd checks that Serve returned peacefully and that nobody was told the
// shutdown was over before every transport was closed.
func (g *gt) checkEnd(srvs []*gsrv, ws []*waiter, except map[*lconn]bool) {
	for _, w := range ws {
		g.until(w.name+" does not return although every connection is over", func() bool { return w.at.Load() != 0 })
	}
	for _, s := range srvs {
		g.until("Serve does not return after a shutdown", s.served.Load)
		if s.err != nil {
			g.fail("Serve returns an error after a graceful shutdown: %v", s.err)
		}
		if s.how >= 2 {
			continue
		}
		for _, c := range s.l.all() {
			if except[c] || s.l.late(c) {
				continue
			}
			for _, w := range ws {
				if at := c.closedAt.Load(); at == 0 || at > w.at.Load() {
					g.fail("%s returned at %d, but a connection was open until %d", w.name, w.at.Load(), at)
				}
			}
		}
		if la := s.l.closedAt.Load(); la == 0 {
			g.fail("the listener was not closed")
		}
	}
}

func g01States(g *gt) {
	r := g.r
	S := 1 + r.IntN(3)
	if r.IntN(40) == 0 {
		S = 10 + r.IntN(60)
	}
	var srvs []*gsrv
	for i := 0; i < S; i++ {
		srvs = append(srvs, g.serve(g.handler(), pick(r, []int{0, 0, 1, 1, 2, 3}), nil))
	}
	roles := []string{"fresh", "idle", "busy", "partial", "body", "unread", "flushed", "http10", "reused", "pipelined", "queued", "expect", "chunked", "half-closed"}
	type conn struct {
		role string
		s    *gsrv
		c    *gcl
		q    *greq
		rest string
		over *atomic.Bool
		want string
		done atomic.Bool
		err  error
		prev []*greq // answered before q
	}
	var conns []*conn
	var mix []string
	for i, n := 0, 2+r.IntN(7); i < n; i++ {
		x := &conn{role: pick(r, roles), s: pick(r, srvs)}
		x.c = g.mustDial(x.s.addr)
		n0 := x.s.l.n.Load()
		_ = n0
		tok := fmt.Sprintf("c%d", i)
		x.q = newGreq(tok, 1+r.IntN(300), true)
		x.want = x.q.want()
		switch x.role {
		case "fresh":
			if x.s.how < 2 {
				g.until("a connection is not accepted", func() bool { return x.s.l.conn(x.c.c) != nil })
			}
		case "idle", "reused":
			for k := 1 + r.IntN(3); k > 0; k-- {
				if _, err := x.c.get(newGreq(fmt.Sprintf("%s-%d", tok, k), 1+r.IntN(50), false)); err != nil {
					g.fail("a request before the shutdown fails: %v", err)
					g.finish()
				}
			}
			if x.role == "reused" {
				x.c.send(reqText("GET", tok))
			}
		case "busy":
			x.c.send(reqText("GET", tok))
		case "pipelined", "queued":
			// All requests are sent at once. Either the last one is in progress or the one
			// before it, so that the last is in the server's hands but has not started.
			s := ""
			for k := 1 + r.IntN(4); k > 0; k-- {
				p := newGreq(fmt.Sprintf("%s-%d", tok, k), 1+r.IntN(50), x.role == "queued" && k == 1)
				x.prev = append(x.prev, p)
				s += reqText("GET", p.token)
			}
			if x.role == "queued" {
				x.q.gate = nil
			}
			x.c.send(s + reqText("GET", tok))
		case "half-closed":
			x.c.send(reqText("GET", tok))
			x.c.c.(*net.TCPConn).CloseWrite()
		case "expect", "chunked":
			x.q.kind, x.q.gate = "body", nil
			x.want = strings.Repeat("b", 1+r.IntN(9000))
			head := "POST /" + tok + " HTTP/1.1\r\nHost: x\r\n"
			if x.role == "expect" {
				x.rest = x.want
				x.c.send(head + fmt.Sprintf("Content-Length: %d\r\nExpect: 100-continue\r\n\r\n", len(x.want)))
				break
			}
			s := ""
			for b := x.want; b != ""; {
				k := 1 + r.IntN(len(b))
				s += fmt.Sprintf("%x\r\n%s\r\n", k, b[:k])
				b = b[k:]
			}
			s += "0\r\n\r\n"
			k := r.IntN(len(s))
			x.rest = s[k:]
			x.c.send(head + "Transfer-Encoding: chunked\r\n\r\n" + s[:k])
		case "flushed":
			x.q.flush, x.q.chunks = true, 2+r.IntN(3)
			x.c.send(reqText("GET", tok))
		case "http10":
			x.c.send("GET /" + tok + " HTTP/1.0\r\nConnection: keep-alive\r\n\r\n")
		case "unread":
			// Too large for the transport's buffers.
			x.q.size = 2 << 20
			x.want = x.q.want()
			x.q.gate = nil
			x.c.send(reqText("GET", tok))
		case "partial":
			s := reqText("GET", tok)
			k := 5 + r.IntN(len(s)-6)
			x.rest = s[k:]
			x.c.send(s[:k])
			if x.s.how < 2 {
				g.until("the server does not read", func() bool {
					c := x.s.l.conn(x.c.c)
					return c != nil && c.nread.Load() >= int64(k)
				})
			}
			x.q.gate = nil
		case "body":
			x.q.kind = "body"
			b := strings.Repeat("b", 100+r.IntN(20000))
			x.want = b
			k := r.IntN(len(b))
			x.rest = b[k:]
			x.q.gate = nil
			x.c.send(fmt.Sprintf("POST /%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", tok, len(b), b[:k]))
		}
		switch x.role {
		case "fresh", "idle", "partial":
		case "queued":
			g.until("a request is not handled", func() bool { return x.prev[len(x.prev)-1].startAt.Load() != 0 })
		default:
			g.until("a request is not handled", func() bool { return x.q.startAt.Load() != 0 })
		}
		conns = append(conns, x)
		mix = append(mix, x.role)
	}
	sort.Strings(mix)
	kind := pick(r, []string{"call", "call", "INT", "USR1"})
	g.desc("servers %d, connections %v, shut down by %s", S, mix, kind)
	ws := g.waiters(someWaiters(r))
	graceful.HandleSignals()
	graceful.AddSignal(syscall.SIGUSR1)
	if r.IntN(2) == 0 {
		graceful.DoubleKickWindow(time.Hour)
		graceful.Timeout(time.Hour)
	}
	if kind == "call" {
		for k := 1 + r.IntN(3); k > 0; k-- {
			ws = append(ws, g.shutdownWaiter(false))
		}
	} else {
		if len(ws) == 0 {
			ws = g.waiters(1)
		}
		g.trigger(kind)
	}
	// Without anything that is in progress moving on: idle connections are closed, new ones refused.
	for _, s := range srvs {
		if s.how < 2 {
			// Without a new connection making the server notice it.
			g.until("a listener stays open after a shutdown", func() bool { return s.l.closedAt.Load() != 0 })
		}
		g.until("a listener stays open after a shutdown", func() bool { return refused(s.addr) })
	}
	busy := 0
	for _, x := range conns {
		switch x.role {
		case "fresh", "idle":
			x.over = x.c.watch()
			g.until("a connection that is "+x.role+" is not closed by a shutdown", x.over.Load)
		default:
			if x.role != "partial" {
				busy++
			}
		}
	}
	for _, x := range conns {
		// partial ones may have been closed if their first read was still on its way
		if x.role == "fresh" || x.role == "idle" || x.role == "partial" || x.s.how >= 2 {
			continue
		}
		c := x.s.l.conn(x.c.c)
		if at := c.closedAt.Load(); at != 0 && !x.q.finished() {
			g.fail("a connection whose request is in progress (%s) was closed by a graceful shutdown", x.role)
		}
	}
	if busy > 0 {
		for _, w := range ws {
			if w.at.Load() != 0 {
				g.fail("%s returned while %d requests are in progress", w.name, busy)
			}
		}
	}
	// Now let everything finish, in random order.
	r.Shuffle(len(conns), func(i, j int) { conns[i], conns[j] = conns[j], conns[i] })
	var started int64
	for i, x := range conns {
		if x.role == "fresh" || x.role == "idle" {
			continue
		}
		if i > 0 && r.IntN(3) == 0 {
			time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
		}
		go func() {
			defer x.done.Store(true)
			if x.q.gate != nil {
				close(x.q.gate)
			}
			for _, p := range x.prev {
				if p.gate != nil {
					close(p.gate)
				}
				if _, x.err = x.c.answer(p, p.want()); x.err != nil {
					x.err = fmt.Errorf("instead of the response before it, %w", x.err)
					return
				}
			}
			if x.role == "expect" {
				if code, _, _, err := x.c.recv(); err != nil || code != 100 {
					x.err = fmt.Errorf("instead of being asked to go on, %d %v", code, err)
					return
				}
			}
			if x.rest != "" {
				k := len(x.rest) / 2
				x.c.send(x.rest[:k])
				x.c.send(x.rest[k:])
			}
			_, x.err = x.c.answer(x.q, x.want)
		}()
	}
	for _, x := range conns {
		if x.role == "fresh" || x.role == "idle" {
			continue
		}
		g.until("a response does not arrive", x.done.Load)
		if x.q.startAt.Load() != 0 {
			started++
			if x.err != nil {
				g.fail("the handler of a request (%s) started, but its client got: %v", x.role, x.err)
			}
		} else if x.role == "queued" {
			if p := x.prev[len(x.prev)-1]; p.startAt.Load() == 0 || strings.Contains(fmt.Sprint(x.err), "before it") {
				g.fail("a request followed by others on its connection was lost: %v", x.err)
			}
		} else if x.role != "partial" {
			g.fail("a request (%s) in progress was lost: %v", x.role, x.err)
		}
	}
	for _, x := range conns {
		if x.over == nil {
			x.over = x.c.watch()
		}
		g.until("a connection ("+x.role+") is not closed after its last response", x.over.Load)
	}
	g.checkEnd(srvs, ws, nil)
	g.count("requests in progress during a shutdown that were answered", started)
	g.res.Key = fmt.Sprint(S, mix, kind)
	g.res.Obs = fmt.Sprintf("%d requests completed during the shutdown", started)
}

func (q *greq) finished() bool { return q.endAt.Load() != 0 }

func g01Hammer(g *gt) {
	r := g.r
	S := 1 + r.IntN(2)
	var srvs []*gsrv
	for i := 0; i < S; i++ {
		srvs = append(srvs, g.serve(g.handler(), pick(r, []int{0, 0, 0, 1, 2}), nil))
	}
	K := 2 + r.IntN(14)
	type out struct {
		q   *greq
		err error
	}
	outs := make([][]out, K)
	var wg sync.WaitGroup
	var fin atomic.Int64
	think := r.IntN(3)
	pipe := r.IntN(2) == 0
	for k := 0; k < K; k++ {
		rk := rng2(r)
		srv := pick(r, srvs)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer fin.Add(1)
			var c *gcl
			for i := 0; i < 4000; i++ {
				if c == nil {
					var err error
					if c, err = g.dial(srv.addr); err != nil {
						return
					}
				}
				// Sometimes the next requests do not wait for the response.
				n := 1
				if pipe && rk.IntN(3) == 0 {
					n = 2 + rk.IntN(5)
				}
				var qs []*greq
				text := ""
				for j := 0; j < n; j++ {
					q := newGreq(fmt.Sprintf("h%d-%d-%d", k, i, j), 1+rk.IntN(8), false)
					if rk.IntN(10) == 0 {
						q.size = 500 + rk.IntN(5000)
					}
					q.chunks = 1 + rk.IntN(2)
					qs = append(qs, q)
					text += reqText("GET", q.token)
				}
				err := c.send(text)
				closes := false
				for _, q := range qs {
					if err == nil {
						closes, err = c.answer(q, q.want())
					}
					outs[k] = append(outs[k], out{q, err})
				}
				if err != nil || closes || rk.IntN(25) == 0 {
					c.c.Close()
					c = nil
				}
				if think > 0 && rk.IntN(2) == 0 {
					time.Sleep(time.Duration(rk.IntN(think*300)) * time.Microsecond)
				}
			}
		}()
	}
	time.Sleep(time.Duration(500+r.IntN(6000)) * time.Microsecond)
	graceful.HandleSignals()
	kind := pick(r, []string{"call", "call", "INT"})
	ws := g.waiters(1)
	g.desc("%d servers, %d clients, shut down by %s", S, K, kind)
	if kind == "call" {
		ws = append(ws, g.shutdownWaiter(false))
	} else {
		g.trigger(kind)
	}
	g.until("clients do not come to an end after a shutdown", func() bool { return fin.Load() == int64(K) })
	g.checkEnd(srvs, ws, nil)
	var ok, lost, during int64
	cl := srvs[0].l.closedAt.Load()
	for _, l := range outs {
		for _, o := range l {
			st := o.q.startAt.Load()
			switch {
			case st != 0 && o.err != nil:
				g.fail("the handler of request %s started (at %d, shutdown closed the listener at %d), but its client got: %v", o.q.token, st, cl, o.err)
			case o.err != nil:
				lost++
			default:
				ok++
				if st > cl && cl != 0 {
					during++
				}
			}
		}
	}
	g.count("requests answered", ok)
	g.count("requests started after the shutdown had begun, and answered", during)
	g.count("requests that never reached a handler", lost)
	g.res.Key = fmt.Sprint(S, K, kind, ok, lost, during)
	g.res.Obs = fmt.Sprintf("%d answered, %d of them started after the listener was closed, %d never started", ok, during, lost)
}

// g01H2 shuts down servers with HTTP/2 clients, whose connections carry several
// requests at a time.
func g01H2(g *gt) {
	r := g.r
	var idleAt sync.Map // when each connection became idle last
	s := g.serve(g.handler(), 1, func(srv *graceful.Server) {
		srv.ConnState = func(c net.Conn, st http.ConnState) {
			if st == http.StateIdle {
				idleAt.Store(c.RemoteAddr().String(), g.tick())
			}
		}
		srv.Protocols = new(http.Protocols)
		srv.Protocols.SetHTTP1(true)
		srv.Protocols.SetUnencryptedHTTP2(true)
	})
	type result struct {
		err  error
		body string
		code int
	}
	type stream struct {
		q   *greq
		c   int
		res chan result
	}
	type h2conn struct {
		cl    *http.Client
		nc    net.Conn
		dials int
		open  int
		mu    sync.Mutex
	}
	ask := func(c *h2conn, q *greq) chan result {
		ch := make(chan result, 1)
		go func() {
			rsp, err := c.cl.Post("http://"+s.addr+"/"+q.token, "text/plain", strings.NewReader("b"))
			if err != nil {
				ch <- result{err: err}
				return
			}
			b, err := io.ReadAll(rsp.Body)
			rsp.Body.Close()
			if err == nil && rsp.ProtoMajor != 2 {
				err = fmt.Errorf("served as %s", rsp.Proto)
			}
			ch <- result{err, string(b), rsp.StatusCode}
		}()
		return ch
	}
	known := func(id, what string) {
		if g.res.Known == nil {
			g.res.Known = map[string]string{}
		}
		g.res.Known[id] = what
	}
	var conns []*h2conn
	var streams []*stream
	K := 1 + r.IntN(3)
	for k := 0; k < K; k++ {
		c := &h2conn{}
		tr := &http.Transport{Protocols: new(http.Protocols), DisableCompression: true}
		tr.Protocols.SetUnencryptedHTTP2(true)
		tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
			nc, err := net.Dial(network, addr)
			if err == nil {
				c.mu.Lock()
				if c.dials++; c.dials == 1 {
					c.nc = nc
				}
				c.mu.Unlock()
			}
			return nc, err
		}
		c.cl = &http.Client{Transport: tr}
		conns = append(conns, c)
		// The connection exists before several requests are made at once.
		q := newGreq(fmt.Sprintf("w%d", k), 1+r.IntN(300), false)
		if x := <-ask(c, q); x.err != nil || x.body != q.want() {
			g.incon("no HTTP/2 connection: %v", x.err)
			return
		}
		// The connection is idle for net/http as well, and not only when the
		// next request has been read already (see h2-last-response).
		g.until("net/http does not report an HTTP/2 connection idle", func() bool {
			at, _ := idleAt.LoadOrStore(c.nc.LocalAddr().String(), int64(0))
			return at.(int64) > q.startAt.Load()
		})
		n := r.IntN(5)
		for i := 0; i < n; i++ {
			q := newGreq(fmt.Sprintf("s%d-%d", k, i), 1+r.IntN(3000), true)
			q.chunks, q.flush = 1+r.IntN(4), chance(r, 0.5)
			st := &stream{q: q, c: k}
			st.res = ask(c, q)
			streams = append(streams, st)
			c.open++
		}
	}
	for _, st := range streams {
		<-st.q.started
	}
	for _, c := range conns {
		if c.dials != 1 {
			g.incon("%d connections instead of one", c.dials)
			return
		}
	}
	graceful.HandleSignals()
	kind := pick(r, []string{"call", "call", "INT"})
	g.desc("%d HTTP/2 connections with %d requests, shut down by %s", K, len(streams), kind)
	ws := g.waiters(1)
	if kind == "call" {
		ws = append(ws, g.shutdownWaiter(false))
	} else {
		g.trigger(kind)
	}
	g.until("the listener is not closed", func() bool { return s.l.closedAt.Load() != 0 })
	idle := func(c *h2conn) {
		lc := s.l.conn(c.nc)
		g.settle()
		if lc.closedAt.Load() == 0 {
			known("h2-idle-open", "an idle HTTP/2 connection is not closed by a graceful shutdown")
			c.nc.Close()
		}
		g.until("an HTTP/2 connection its client has closed is not closed", func() bool { return lc.closedAt.Load() != 0 })
		g.count("idle HTTP/2 connections over", 1)
	}
	for _, c := range conns {
		if c.open == 0 {
			idle(c)
		}
	}
	extra := 0
	var key []string
	for len(streams) > 0 {
		k := r.IntN(len(streams))
		st := streams[k]
		c := conns[st.c]
		if extra < 3 && chance(r, 0.2) {
			// One more on a connection in use. It need not be accepted any more.
			extra++
			q := newGreq(fmt.Sprintf("x%d", extra), 1+r.IntN(100), false)
			x := <-ask(c, q)
			c.mu.Lock()
			again := c.dials != 1
			c.mu.Unlock()
			if again {
				// The client made another connection just before the listener was
				// really closed, because the first is only good for what is in
				// progress on it. So this was the last request on a connection.
				if q.startAt.Load() != 0 && !q.finished() && x.err != nil {
					g.fail("a request on a new HTTP/2 connection was in its handler, but its client got %v", x.err)
				} else if q.finished() && x.err != nil {
					known("h2-last-response", "the response to the last request in progress on an HTTP/2 connection is cut off by a graceful shutdown")
				}
				extra = 3
			} else if q.startAt.Load() != 0 && (x.err != nil || x.body != q.want()) {
				g.fail("a request made on an HTTP/2 connection in use was handled, but its client got %d bytes, %v", len(x.body), x.err)
			}
		}
		streams = append(streams[:k:k], streams[k+1:]...)
		last := c.open == 1
		if at := s.l.conn(c.nc).closedAt.Load(); at != 0 {
			g.fail("an HTTP/2 connection was closed while %d requests on it were in their handlers", c.open)
		}
		for _, w := range ws {
			if w.at.Load() != 0 {
				g.fail("%s returned while %d requests were in their handlers", w.name, len(streams)+1)
			}
		}
		close(st.q.gate)
		x := <-st.res
		c.open--
		switch {
		case x.err == nil && x.body == st.q.want() && x.code == 200:
			g.count("HTTP/2 requests answered", 1)
			key = append(key, "ok")
		case last && st.q.finished():
			known("h2-last-response", "the response to the last request in progress on an HTTP/2 connection is cut off by a graceful shutdown")
			key = append(key, "cut")
			g.count("last HTTP/2 responses cut off", 1)
		default:
			g.fail("a request on an HTTP/2 connection was in its handler when a graceful shutdown began, but its client got %d of %d bytes, %v (%d others in progress on the connection)", len(x.body), len(st.q.want()), x.err, c.open)
		}
		if last {
			idle(c)
		}
	}
	g.checkEnd([]*gsrv{s}, ws, nil)
	g.res.Key = fmt.Sprint(K, kind, key, extra)
	g.res.Obs = fmt.Sprint(key)
}

// ---- G02

func g02Hooks(g *gt) {
	r := g.r
	type hk struct {
		post     bool
		idx      int
		from, to int64
		sig      os.Signal
		takes    bool
	}
	var mu sync.Mutex
	var ran []hk
	npre, npost := r.IntN(5), r.IntN(5)
	many := r.IntN(15) == 0
	if many {
		npre, npost = r.IntN(140), r.IntN(140)
	}
	window := pick(r, []time.Duration{0, time.Hour})
	reentrant := 0
	var add func(post bool, i int, r *rand.Rand)
	add = func(post bool, i int, r *rand.Rand) {
		takes, slow := r.IntN(2) == 0, r.IntN(4) == 0 && !many
		uses := r.IntN(12)
		r2 := rand.New(rand.NewPCG(r.Uint64(), 1))
		f := func(sig os.Signal) {
			from := g.tick()
			if slow {
				time.Sleep(2 * time.Millisecond)
			}
			// Hooks may use the package themselves.
			switch uses {
			case 0:
				graceful.DoubleKickWindow(window)
			case 1:
				graceful.Timeout(0)
			case 2:
				graceful.AddSignal(syscall.SIGUSR1)
			case 3:
				mu.Lock()
				reentrant++
				add(post, map[bool]int{false: npre, true: npost}[post], r2)
				if post {
					npost++
				} else {
					npre++
				}
				mu.Unlock()
			case 4:
				mu.Lock()
				reentrant++
				add(true, npost, r2)
				npost++
				mu.Unlock()
			}
			mu.Lock()
			ran = append(ran, hk{post, i, from, g.tick(), sig, takes})
			mu.Unlock()
		}
		switch {
		case takes && post:
			graceful.PostHookWithSignal(f)
		case takes:
			graceful.PreHookWithSignal(f)
		case post:
			graceful.PostHook(func() { f(nil) })
		default:
			graceful.PreHook(func() { f(nil) })
		}
	}
	for i, j := 0, 0; i < npre || j < npost; {
		if j >= npost || i < npre && r.IntN(2) == 0 {
			add(false, i, r)
			i++
		} else {
			add(true, j, r)
			j++
		}
	}
	S := r.IntN(3)
	var srvs []*gsrv
	for i := 0; i < S; i++ {
		srvs = append(srvs, g.serve(g.handler(), r.IntN(2), nil))
	}
	var cls []*gcl
	var qs []*greq
	gated := 0
	for i, n := 0, r.IntN(6); S > 0 && i < n; i++ {
		s := pick(r, srvs)
		c := g.mustDial(s.addr)
		cls = append(cls, c)
		switch r.IntN(3) {
		case 0:
			g.until("a connection is not accepted", func() bool { return s.l.conn(c.c) != nil })
		case 1:
			c.get(newGreq(fmt.Sprint("i", i), 3, false))
		case 2:
			q := newGreq(fmt.Sprint("b", i), 3, true)
			c.send(reqText("GET", q.token))
			g.until("a request is not handled", func() bool { return q.startAt.Load() != 0 })
			qs = append(qs, q)
			gated++
		}
	}
	g.until("the monitor's own connections end", func() bool { return true })
	// Connections that ended before the shutdown do not count.
	old := map[*lconn]bool{}
	for _, s := range srvs {
		for _, c := range s.l.all() {
			mine := false
			for _, cl := range cls {
				mine = mine || s.l.conn(cl.c) == c
			}
			old[c] = !mine
		}
	}
	graceful.HandleSignals()
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.DoubleKickWindow(window)
	usedTimeout := false
	if r.IntN(5) == 0 {
		graceful.Timeout(time.Duration(1+r.IntN(20)) * time.Millisecond)
		usedTimeout = true
	}
	kinds := []string{"call", "now", "INT", "USR1"}
	n := 1 + r.IntN(5)
	var trig []string
	for i := 0; i < n; i++ {
		trig = append(trig, pick(r, kinds))
	}
	if r.IntN(3) == 0 {
		for i := range trig {
			trig[i] = trig[0]
		}
	}
	g.desc("%d pre-hooks, %d post-hooks, %d servers, %d connections (%d busy), window %v, timeout %v, requested by %v", npre, npost, S, len(cls), gated, window, usedTimeout, trig)
	ws := g.waiters(1 + someWaiters(r))
	begin := g.tick()
	for _, k := range trig {
		switch k {
		case "call":
			ws = append(ws, g.shutdownWaiter(false))
		case "now":
			ws = append(ws, g.shutdownWaiter(true))
		default:
			g.trigger(k)
		}
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
		}
	}
	signals := true
	for _, k := range trig {
		signals = signals && k != "call" && k != "now"
	}
	if usedTimeout && signals && r.IntN(3) > 0 {
		// Let the timeout end it.
		for _, w := range ws {
			g.until(w.name+" does not return after the timeout", func() bool { return w.at.Load() != 0 })
		}
		g.count("shutdowns ended by the timeout", 1)
	}
	// While a request is in progress it is not too late for another post-hook.
	nsig, held := 0, !usedTimeout
	for _, k := range trig {
		if k == "now" {
			held = false
		} else if k != "call" {
			nsig++
		}
	}
	lateHooks := 0
	if held && (window == 0 || nsig < 2) && len(qs) > 0 && r.IntN(2) == 0 {
		for _, s := range srvs {
			g.until("a listener stays open after a shutdown", func() bool { return s.l.closedAt.Load() != 0 })
		}
		for k := 1 + r.IntN(2); k > 0; k-- {
			mu.Lock()
			add(true, npost, r)
			npost++
			mu.Unlock()
			lateHooks++
		}
		g.count("post-hooks registered during a shutdown", int64(lateHooks))
	}
	for _, q := range qs {
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(4000)) * time.Microsecond)
		}
		close(q.gate)
	}
	// A request whose response nobody reads is still done once it is written.
	for _, w := range ws {
		g.until(w.name+" does not return", func() bool { return w.at.Load() != 0 })
	}
	g.settle()
	// And once more, now that everything is over.
	again := []*waiter{g.shutdownWaiter(r.IntN(2) == 0), g.shutdownWaiter(false)}
	ws = append(ws, g.waiters(1)...)
	ws = append(ws, again...)
	if r.IntN(2) == 0 {
		g.trigger("INT")
	}
	for _, w := range ws {
		g.until(w.name+" does not return after the shutdown is over", func() bool { return w.at.Load() != 0 })
	}
	g.settle()
	mu.Lock()
	defer mu.Unlock()
	show := func() string {
		s := ""
		for _, h := range ran {
			k := "pre"
			if h.post {
				k = "post"
			}
			s += fmt.Sprintf("%s%d[%d-%d %v] ", k, h.idx, h.from, h.to, h.sig)
		}
		return s
	}
	sort.SliceStable(ran, func(i, j int) bool { return ran[i].from < ran[j].from })
	var lastTo int64
	i, j := 0, 0
	for _, h := range ran {
		if h.from < lastTo {
			g.fail("hooks overlap: %s", show())
		}
		lastTo = h.to
		if h.post {
			if h.idx != j {
				g.fail("post-hooks run out of order or repeatedly: %s", show())
			}
			j++
		} else {
			if h.idx != i {
				g.fail("pre-hooks run out of order or repeatedly: %s", show())
			}
			i++
			if j > 0 {
				g.fail("a pre-hook runs after a post-hook: %s", show())
			}
		}
	}
	if i != npre || j != npost {
		g.fail("%d of %d pre-hooks and %d of %d post-hooks ran: %s", i, npre, j, npost, show())
	}
	allowed := map[string]bool{}
	for _, k := range trig {
		switch k {
		case "call", "now":
			allowed["<nil>"] = true
		case "INT":
			allowed["interrupt"] = true
		case "USR1":
			allowed["user defined signal 1"] = true
		}
	}
	var preEnd, postStart int64 = 0, 1 << 60
	for _, h := range ran {
		if h.from < begin {
			g.fail("a hook runs before any shutdown is requested")
		}
		if h.takes && !allowed[fmt.Sprint(h.sig)] {
			g.fail("a hook gets signal %v, but the shutdown was requested by %v: %s", h.sig, trig, show())
		}
		if h.post {
			postStart = min(postStart, h.from)
		} else {
			preEnd = max(preEnd, h.to)
		}
	}
	var postEnd int64
	for _, h := range ran {
		postEnd = max(postEnd, h.to)
	}
	closings := 0
	for _, s := range srvs {
		if at := s.l.closedAt.Load(); at == 0 || at < preEnd {
			g.fail("a listener was closed at %d, pre-hooks ran until %d: %s", at, preEnd, show())
		}
		for _, c := range s.l.all() {
			if old[c] || s.l.late(c) {
				continue
			}
			closings++
			at := c.closedAt.Load()
			if at == 0 {
				g.fail("a connection is still open after the shutdown")
			} else if at < preEnd {
				// A gate may have been opened and the response written, but the
				// client keeps its side open, so only the server can have closed it.
				g.fail("a connection was closed at %d, pre-hooks ran until %d: %s", at, preEnd, show())
			} else if at > postStart {
				g.fail("a connection was closed at %d, post-hooks ran from %d: %s", at, postStart, show())
			}
		}
	}
	for _, w := range ws {
		if at := w.at.Load(); at < postEnd || at < preEnd {
			g.fail("%s returned at %d, hooks ran until %d: %s", w.name, at, postEnd, show())
		}
	}
	g.count("hooks registered by hooks", int64(reentrant))
	g.count("hooks run", int64(len(ran)))
	g.count("connections torn down", int64(closings))
	if len(ran) > 0 {
		g.res.Key = fmt.Sprint(npre, npost, S, len(cls), gated, window, trig)
	}
	g.res.Obs = show()
}

// ---- G03

func einhornEnv(t *T) []string {
	pid := os.Getpid()
	if t.Index%3 == 1 {
		pid++
	}
	l := []string{fmt.Sprint("EINHORN_MASTER_PID=", pid)}
	if t.Index%3 == 2 {
		l = append(l, "EINHORN_FD_COUNT=0")
	}
	return l
}

// held is a server with a request held in its handler and an idle connection.
type held struct {
	s    *gsrv
	q    *greq
	busy *gcl
	lc   *lconn
	idle *atomic.Bool
	ws   []*waiter
}

func (g *gt) hold() *held {
	h := &held{s: g.serve(g.handler(), g.r.IntN(2), nil)}
	h.q = newGreq("held", 5, true)
	h.busy = g.mustDial(h.s.addr)
	h.busy.send(reqText("GET", "held"))
	g.until("a request is not handled", func() bool { return h.q.startAt.Load() != 0 })
	h.lc = h.s.l.conn(h.busy.c)
	idle := g.mustDial(h.s.addr)
	idle.get(newGreq("idle", 1, false))
	h.idle = idle.watch()
	h.ws = g.waiters(1)
	return h
}

// begun waits until a graceful shutdown has taken effect.
func (g *gt) begun(h *held) {
	g.until("a shutdown does not close idle connections", h.idle.Load)
	g.until("a shutdown does not close the listener", func() bool { return h.s.l.closedAt.Load() != 0 })
}

// leftAlone checks that the busy connection is open, and stays so for a while.
func (g *gt) leftAlone(h *held, why string, d time.Duration) bool {
	time.Sleep(d)
	g.settle()
	if h.lc.closedAt.Load() != 0 {
		g.fail("%s: a busy connection was closed", why)
		return false
	}
	for _, w := range h.ws {
		if w.at.Load() != 0 {
			g.fail("%s: %s returned although a request is in progress", why, w.name)
			return false
		}
	}
	return true
}

func (g *gt) forced(h *held, why string) {
	g.until(why+": busy connections are not closed", func() bool { return h.lc.closedAt.Load() != 0 })
	for _, w := range h.ws {
		g.until(why+": "+w.name+" does not return", func() bool { return w.at.Load() != 0 })
	}
	close(h.q.gate)
}

func (g *gt) graceful(h *held, why string) {
	close(h.q.gate)
	if _, err := h.busy.answer(h.q, h.q.want()); err != nil {
		g.fail("%s: the request in progress got: %v", why, err)
	}
	for _, w := range h.ws {
		g.until(why+": "+w.name+" does not return", func() bool { return w.at.Load() != 0 })
	}
}

// untouched checks that no shutdown has begun.
func (g *gt) untouched(h *held, why string) {
	if h.idle.Load() || h.s.l.closedAt.Load() != 0 || h.s.served.Load() {
		g.fail("%s: a shutdown was triggered (idle connection closed %v, listener closed %v, Serve returned %v)", why, h.idle.Load(), h.s.l.closedAt.Load() != 0, h.s.served.Load())
		g.finish()
	}
}

// kill sends a signal and waits until it has been delivered to this process.
func (g *gt) kill(sig syscall.Signal) {
	ch := make(chan os.Signal, 8)
	signal.Notify(ch, sig)
	syscall.Kill(os.Getpid(), sig)
	<-ch
	signal.Stop(ch)
}

var g03Scripts = []string{
	"single", "single-window", "single-max", "double", "double-max", "double-mixed", "double-off", "double-late", "double-tiny", "triple", "reset-window", "negative-window",
	"timeout", "timeout-off", "timeout-long", "timeout-negative", "timeout-manual", "now", "call-now", "signal-now", "unregistered", "reset", "reset-readd", "handle", "call-twice", "call-signal", "timeout-double", "now-signal", "force-waiters", "timeout-two",
	"window-slides", "window-slides", "timeout-kicked", "timeout-later", "timeout-shrunk", "call-timeout", "call-double", "readd-double",
	"double-slow-hook", "late-slow-hook", "third-slow-hook", "window-set", "window-cleared",
}

func g03(g *gt) {
	r := g.r
	script := g03Scripts[g.idx%len(g03Scripts)]
	keep := make(chan os.Signal, 64)
	signal.Notify(keep, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGHUP, syscall.SIGINT) // so that nothing kills the process
	h := g.hold()
	S := pick(r, []syscall.Signal{syscall.SIGINT, syscall.SIGUSR1})
	more := r.IntN(4)
	reg := func() {
		if more == 1 {
			graceful.AddSignal(syscall.SIGUSR2)
		}
		if S == syscall.SIGINT && r.IntN(2) == 0 {
			graceful.HandleSignals()
		} else {
			graceful.AddSignal(S)
		}
		if more >= 2 { // this adds to the set
			graceful.AddSignal(syscall.SIGHUP)
		}
		if more == 3 {
			graceful.AddSignal(S, syscall.SIGHUP)
		}
	}
	kill := func() { g.kill(S) }
	g.desc("%s, signal %v", script, S)
	why := script
	alone := func(ms int) bool { return g.leftAlone(h, why, time.Duration(ms)*time.Millisecond) }
	switch script {
	case "single", "single-window", "single-max":
		if script == "single-window" {
			graceful.DoubleKickWindow(time.Hour)
		} else if script == "single-max" {
			graceful.DoubleKickWindow(1<<63 - 1)
		}
		reg()
		kill()
		g.begun(h)
		if alone(20) {
			g.graceful(h, why)
		}
	case "double", "double-max", "double-mixed", "timeout-double", "force-waiters":
		graceful.DoubleKickWindow(pick(r, []time.Duration{time.Hour, time.Minute, 1<<63 - 1}))
		if script == "timeout-double" {
			graceful.Timeout(time.Hour)
		}
		if script == "force-waiters" {
			h.ws = append(h.ws, g.waiters(3)...)
		}
		reg()
		var hooked atomic.Bool
		slow := time.Duration(r.IntN(3)*10) * time.Millisecond
		graceful.PreHook(func() { hooked.Store(true); time.Sleep(slow) })
		kill()
		// If not even a hook has run, the signal may not have been received yet,
		// and another one would be the same.
		g.until("a signal does not cause a shutdown", hooked.Load)
		if r.IntN(2) == 0 || script == "force-waiters" {
			g.begun(h)
			if script == "force-waiters" {
				h.ws = append(h.ws, g.shutdownWaiter(false))
			}
			if !alone(r.IntN(30)) {
				return
			}
		}
		if script == "double-mixed" {
			graceful.AddSignal(syscall.SIGHUP)
			g.kill(syscall.SIGHUP)
		} else {
			kill()
		}
		g.forced(h, why)
	case "double-slow-hook", "late-slow-hook", "third-slow-hook":
		// What counts is when the signals arrive, not when the hooks are done.
		W := 2 * time.Second
		if script == "late-slow-hook" {
			W = time.Second
		}
		graceful.DoubleKickWindow(W)
		reg()
		var hooked atomic.Bool
		release := make(chan bool)
		graceful.PreHook(func() { hooked.Store(true); <-release })
		t0 := time.Now()
		kill()
		g.until("a signal does not cause a shutdown", hooked.Load)
		if script == "double-slow-hook" {
			kill()
			if el := time.Since(t0); el > W/4 {
				g.incon("the second signal was sent only after %v", el)
			}
			time.Sleep(W + W/8)
			close(release)
			g.forced(h, why)
			break
		}
		time.Sleep(W + W/2)
		t0 = time.Now()
		kill()
		if script == "third-slow-hook" {
			time.Sleep(W / 4)
			kill()
			if el := time.Since(t0); el > W/2 {
				g.incon("the third signal was sent only %v after the second", el)
			}
			time.Sleep(W + W/8)
			close(release)
			g.forced(h, why)
			break
		}
		time.Sleep(W)
		close(release)
		time.Sleep(W - W/5)
		kill()
		if alone(20) {
			g.begun(h)
			g.graceful(h, why)
		}
	case "double-off", "double-late", "double-tiny", "negative-window":
		d := 0
		switch script {
		case "double-off":
			if r.IntN(2) == 0 {
				graceful.DoubleKickWindow(time.Hour)
				graceful.DoubleKickWindow(0)
			}
		case "double-late":
			graceful.DoubleKickWindow(50 * time.Millisecond)
			d = 300
		case "double-tiny":
			graceful.DoubleKickWindow(1)
			d = 1
		case "negative-window":
			graceful.DoubleKickWindow(-1 * time.Second)
		}
		reg()
		kill()
		g.begun(h)
		if alone(d) {
			kill()
			if alone(30) {
				if script == "double-off" {
					kill()
					if !alone(20) {
						return
					}
				}
				g.graceful(h, why)
			}
		}
	case "triple":
		// Outside the window first, then inside it.
		graceful.DoubleKickWindow(50 * time.Millisecond)
		reg()
		kill()
		g.begun(h)
		if !alone(300) {
			return
		}
		kill()
		if !alone(20) {
			return
		}
		graceful.DoubleKickWindow(time.Hour)
		kill()
		g.forced(h, why)
	case "window-set", "window-cleared":
		// What counts is the window at the time of the second signal.
		a, b := time.Duration(r.IntN(2)), pick(r, []time.Duration{time.Hour, time.Minute, 1<<63 - 1})
		if script == "window-cleared" {
			a, b = b, a
		}
		graceful.DoubleKickWindow(a)
		reg()
		for k := r.IntN(2); k >= 0; k-- {
			kill()
			g.begun(h)
			if !alone(20) {
				return
			}
			if script == "window-cleared" {
				break
			}
		}
		graceful.DoubleKickWindow(b)
		kill()
		if script == "window-set" {
			g.forced(h, why)
		} else if alone(30) {
			g.graceful(h, why)
		}
	case "window-slides":
		// The window starts anew with each signal.
		W := time.Duration(200+r.IntN(200)) * time.Millisecond
		graceful.DoubleKickWindow(W)
		reg()
		for k := r.IntN(2); k >= 0; k-- {
			kill()
			g.begun(h)
			if !alone(20) {
				return
			}
			// The signal has been received by now.
			if !alone(int(W/time.Millisecond) + 20) {
				return
			}
		}
		for k := 0; k < 200 && h.lc.closedAt.Load() == 0; k++ {
			kill()
			time.Sleep(10 * time.Millisecond)
		}
		g.forced(h, why)
	case "timeout-kicked":
		// Further signals do not put it off.
		d := time.Duration(60+r.IntN(100)) * time.Millisecond
		graceful.Timeout(d)
		reg()
		t0 := time.Now()
		kill()
		g.begun(h)
		for h.lc.closedAt.Load() == 0 {
			if el := time.Since(t0); el > 12*time.Second {
				g.fail("%s: a busy connection is still open %v after the first signal, the timeout is %v", why, el, d)
				break
			}
			time.Sleep(d / 8)
			kill()
		}
		g.forced(h, why)
	case "reset-window":
		graceful.DoubleKickWindow(time.Hour)
		graceful.DoubleKickWindow(-5)
		reg()
		kill()
		g.begun(h)
		kill()
		g.forced(h, why)
	case "timeout", "timeout-negative", "timeout-two", "timeout-later", "timeout-shrunk", "call-timeout":
		d := time.Duration(40+r.IntN(200)) * time.Millisecond
		switch script {
		case "timeout", "timeout-negative":
			graceful.DoubleKickWindow(pick(r, []time.Duration{0, 1, d / 2, d, time.Hour}))
		case "timeout-later", "timeout-shrunk":
			// What counts is the timeout at the time of the signal.
			if script == "timeout-shrunk" {
				graceful.Timeout(time.Hour)
			}
			reg()
			kill()
			g.begun(h)
			if !alone(20) {
				return
			}
		case "call-timeout":
			h.ws = append(h.ws, g.shutdownWaiter(false))
			g.begun(h)
		}
		graceful.Timeout(d)
		if script == "timeout-negative" {
			graceful.Timeout(-time.Second)
		}
		reg()
		var closedAt atomic.Int64
		go func() {
			for h.lc.closedAt.Load() == 0 {
				time.Sleep(100 * time.Microsecond)
			}
			closedAt.Store(time.Now().UnixNano())
		}()
		t0 := time.Now()
		kill()
		g.begun(h)
		if script == "timeout-two" {
			kill()
		}
		g.until(why+": busy connections are not closed", func() bool { return closedAt.Load() != 0 })
		if el := closedAt.Load() - t0.UnixNano(); el < int64(d) {
			g.fail("%s: a busy connection was closed %v after the signal, the timeout is %v", why, time.Duration(el), d)
		}
		g.forced(h, why)
	case "timeout-off", "timeout-long":
		if script == "timeout-long" {
			graceful.Timeout(pick(r, []time.Duration{time.Hour, 1<<63 - 1}))
		} else if r.IntN(2) == 0 {
			graceful.Timeout(time.Millisecond)
			graceful.Timeout(0)
		}
		reg()
		kill()
		g.begun(h)
		if alone(100) {
			g.graceful(h, why)
		}
	case "timeout-manual":
		graceful.Timeout(30 * time.Millisecond)
		h.ws = append(h.ws, g.shutdownWaiter(false))
		g.begun(h)
		if alone(300) {
			g.graceful(h, why)
		}
	case "now":
		h.ws = append(h.ws, g.shutdownWaiter(true))
		g.forced(h, why)
	case "call-now":
		h.ws = append(h.ws, g.shutdownWaiter(false))
		g.begun(h)
		if !alone(20) {
			return
		}
		h.ws = append(h.ws, g.shutdownWaiter(true))
		g.forced(h, why)
	case "signal-now":
		reg()
		kill()
		g.begun(h)
		if !alone(20) {
			return
		}
		h.ws = append(h.ws, g.shutdownWaiter(true))
		g.forced(h, why)
	case "now-signal":
		h.ws = append(h.ws, g.shutdownWaiter(true))
		reg()
		kill()
		g.forced(h, why)
	case "unregistered":
		switch r.IntN(3) {
		case 0:
			// Nothing registered, not even by this:
			graceful.AddSignal([]os.Signal{}...)
		case 1:
			graceful.HandleSignals()
			S = syscall.SIGUSR1
		case 2:
			graceful.AddSignal(syscall.SIGUSR1)
			S = syscall.SIGINT
		}
		graceful.DoubleKickWindow(time.Hour)
		graceful.Timeout(time.Millisecond)
		for k := 0; k < 3; k++ {
			g.kill(pick(r, []syscall.Signal{S, syscall.SIGUSR2, syscall.SIGHUP}))
		}
		if alone(30) {
			g.untouched(h, why)
			h.ws = append(h.ws, g.shutdownWaiter(false))
			g.begun(h)
			g.graceful(h, why)
		}
	case "reset", "reset-readd":
		graceful.HandleSignals()
		graceful.AddSignal(syscall.SIGUSR1, syscall.SIGHUP)
		graceful.ResetSignals()
		sent := []syscall.Signal{syscall.SIGINT, syscall.SIGUSR1, syscall.SIGHUP}
		r.Shuffle(3, func(i, j int) { sent[i], sent[j] = sent[j], sent[i] })
		for _, s := range sent {
			g.kill(s)
			g.until(fmt.Sprintf("the program's own signal.Notify does not get %v after ResetSignals", s), func() bool {
				select {
				case x := <-keep:
					return x == s
				default:
					return false
				}
			})
		}
		if !alone(30) {
			return
		}
		g.untouched(h, why)
		if script == "reset-readd" {
			graceful.AddSignal(S)
			kill()
		} else {
			h.ws = append(h.ws, g.shutdownWaiter(false))
		}
		g.begun(h)
		g.graceful(h, why)
	case "handle":
		graceful.HandleSignals()
		g.kill(syscall.SIGINT)
		g.begun(h)
		if alone(10) {
			g.graceful(h, why)
		}
	case "call-twice":
		graceful.DoubleKickWindow(time.Hour)
		h.ws = append(h.ws, g.shutdownWaiter(false))
		g.begun(h)
		h.ws = append(h.ws, g.shutdownWaiter(false))
		if alone(30) {
			g.graceful(h, why)
		}
	case "call-double", "readd-double":
		graceful.DoubleKickWindow(time.Hour)
		if script == "call-double" {
			h.ws = append(h.ws, g.shutdownWaiter(false))
			g.begun(h)
			reg()
		} else {
			graceful.HandleSignals()
			graceful.ResetSignals()
			reg()
		}
		kill()
		g.begun(h)
		if !alone(20 + r.IntN(20)) {
			return
		}
		kill()
		g.forced(h, why)
	case "call-signal":
		// One call and one signal are not two signals.
		graceful.DoubleKickWindow(time.Hour)
		reg()
		h.ws = append(h.ws, g.shutdownWaiter(false))
		g.begun(h)
		kill()
		if alone(30) {
			g.graceful(h, why)
		}
	}
	g.until("Serve does not return", h.s.served.Load)
	g.res.Key = script + S.String() + fmt.Sprint(h.s.how)
	g.res.Obs = fmt.Sprintf("listener closed at %d, busy connection at %d, waiter back at %d", h.s.l.closedAt.Load(), h.lc.closedAt.Load(), h.ws[0].at.Load())
}

func g03Einhorn(g *gt) {
	under := os.Getenv("EINHORN_MASTER_PID") == fmt.Sprint(os.Getppid())
	keep := make(chan os.Signal, 64)
	signal.Notify(keep, syscall.SIGUSR2, syscall.SIGINT)
	h := g.hold()
	graceful.HandleSignals()
	g.desc("under Einhorn: %v", under)
	g.kill(syscall.SIGUSR2)
	if under {
		g.begun(h)
		if g.leftAlone(h, "SIGUSR2 under Einhorn", 10*time.Millisecond) {
			g.graceful(h, "SIGUSR2 under Einhorn")
		}
	} else {
		if g.leftAlone(h, "SIGUSR2 without Einhorn", 30*time.Millisecond) {
			g.untouched(h, "SIGUSR2 without Einhorn")
			g.kill(syscall.SIGINT)
			g.begun(h)
			g.graceful(h, "SIGINT")
		}
	}
	g.res.Key = fmt.Sprint("einhorn ", under, g.idx%3)
}

// ---- G04

func g04Hijack(g *gt) {
	r := g.r
	type hj struct {
		q      *greq
		c      *gcl
		conn   net.Conn
		at     atomic.Int64
		failed atomic.Bool
		ownAt  atomic.Int64
		when   int
		done   atomic.Bool
	}
	var hjs []*hj
	callback := r.IntN(2) == 0
	var hijackedStates atomic.Int64
	s := g.serve(g.handler(), 1, func(x *graceful.Server) {
		if callback {
			x.ConnState = func(c net.Conn, st http.ConnState) {
				if st == http.StateHijacked {
					hijackedStates.Add(1)
				}
			}
		}
	})
	N := 1 + r.IntN(5)
	force := r.IntN(2) == 0
	mix := ""
	for i := 0; i < N; i++ {
		h := &hj{when: r.IntN(4)} // 0, 1 before; 2 racing; 3 after
		h.q = newGreq(fmt.Sprint("j", i), 1, h.when >= 2)
		if r.IntN(3) == 0 {
			h.c = g.mustDial(s.addr)
			h.c.get(newGreq(fmt.Sprint("w", i), 1, false)) // not its first request
		} else {
			h.c = g.mustDial(s.addr)
		}
		h.q.do = func(q *greq, w http.ResponseWriter, r *http.Request) {
			if q.gate != nil {
				<-q.gate
			}
			c, buf, err := w.(http.Hijacker).Hijack()
			if err != nil {
				h.failed.Store(true)
				return
			}
			h.at.Store(g.tick())
			h.conn = c
			go func() {
				// Its new owner echoes lines.
				for {
					ln, err := buf.ReadString('\n')
					if err != nil {
						break
					}
					if ln == "end\n" {
						break
					}
					io.WriteString(c, ln)
				}
				h.ownAt.Store(g.tick())
				c.Close()
			}()
		}
		h.c.send("GET /" + h.q.token + " HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: echo\r\n\r\n")
		g.until("a request is not handled", func() bool { return h.q.startAt.Load() != 0 })
		if h.when < 2 {
			g.until("a handler cannot hijack", func() bool { return h.at.Load() != 0 || h.failed.Load() })
			if h.failed.Load() {
				g.fail("Hijack fails on a running server")
				g.finish()
			}
		}
		hjs = append(hjs, h)
		mix += fmt.Sprint(h.when)
	}
	// Another request keeps a graceful shutdown going for a while.
	var extra *gcl
	var eq *greq
	if r.IntN(2) == 0 {
		eq = newGreq("extra", 2, true)
		extra = g.mustDial(s.addr)
		extra.send(reqText("GET", "extra"))
		g.until("a request is not handled", func() bool { return eq.startAt.Load() != 0 })
	}
	g.desc("hijacks %s (0, 1 before, 2 during, 3 after), forced %v, other request %v, callback %v", mix, force, extra != nil, callback)
	ws := g.waiters(1)
	for _, h := range hjs {
		if h.when == 2 {
			hr := rng2(r)
			go func() { jitter(hr); close(h.q.gate) }()
		}
	}
	shutAt := g.tick()
	rs := rng2(r)
	jitter(rs)
	ws = append(ws, g.shutdownWaiter(force))
	if !force && r.IntN(3) == 0 {
		ws = append(ws, g.shutdownWaiter(true))
		force = true
	}
	g.until("a shutdown does not close the listener", func() bool { return s.l.closedAt.Load() != 0 })
	if r.IntN(2) == 0 {
		time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
	}
	for _, h := range hjs {
		if h.when == 3 {
			close(h.q.gate)
		}
	}
	if extra != nil {
		close(eq.gate)
		if _, err := extra.answer(eq, eq.want()); err != nil && !force {
			g.fail("a request in progress got: %v", err)
		}
	}
	// Hijacked connections, though open, hold nobody up.
	except := map[*lconn]bool{}
	for _, h := range hjs {
		g.until("a handler does not come back from Hijack", func() bool { return h.at.Load() != 0 || h.failed.Load() })
	}
	for _, w := range ws {
		g.until(w.name+" does not return although only hijacked connections are left", func() bool { return w.at.Load() != 0 })
	}
	alive, dead := 0, 0
	for i, h := range hjs {
		lc := s.l.conn(h.c.c)
		if h.at.Load() == 0 {
			dead++
			continue
		}
		cl := lc.closedAt.Load()
		if cl != 0 && cl < h.at.Load() {
			// An immediate shutdown was faster.
			if !force || h.when < 2 {
				g.fail("connection %d was closed at %d, before its handler hijacked it at %d, by a graceful shutdown", i, cl, h.at.Load())
			}
			dead++
			continue
		}
		except[lc] = true
		if cl != 0 {
			g.fail("connection %d was hijacked at %d and closed at %d (shutdown requested at %d, forced %v) although its owner keeps it", i, h.at.Load(), cl, shutAt, force)
			continue
		}
		for k := 0; k < 2; k++ {
			h.c.send(fmt.Sprintf("hello %d\n", k))
			h.c.c.SetReadDeadline(time.Now().Add(30 * time.Second))
			if ln, err := h.c.br.ReadString('\n'); err != nil || ln != fmt.Sprintf("hello %d\n", k) {
				g.fail("hijacked connection %d (at %d; shutdown at %d) does not work: %q, %v", i, h.at.Load(), shutAt, ln, err)
				break
			}
		}
		h.c.send("end\n")
		over := h.c.watch()
		g.until("closing a hijacked connection has no effect", over.Load)
		if n := lc.ncl.Load(); n != 1 || lc.closedAt.Load() < h.ownAt.Load() {
			g.fail("hijacked connection %d was closed %d times, at %d; its owner closed it at %d", i, n, lc.closedAt.Load(), h.ownAt.Load())
		}
		alive++
	}
	if callback && int(hijackedStates.Load()) < alive {
		g.fail("the application's callback saw %d hijacked connections of %d", hijackedStates.Load(), alive)
	}
	g.checkEnd([]*gsrv{s}, ws, except)
	g.count("hijacked connections that outlived the shutdown", int64(alive))
	g.count("hijacks that lost to an immediate shutdown", int64(dead))
	g.res.Key = fmt.Sprint(mix, force, extra != nil, alive, dead)
	g.res.Obs = fmt.Sprintf("%d survived, %d were closed first", alive, dead)
}

// g04States runs one script against a plain http.Server and against package
// graceful, and compares the states the application's callback sees.
func g04States(g *gt) {
	r := g.r
	type step struct {
		kind  string
		token string
	}
	nconn := 1 + r.IntN(4)
	scripts := make([][]string, nconn)
	for i := range scripts {
		for k := r.IntN(4); k > 0; k-- {
			scripts[i] = append(scripts[i], pick(r, []string{"get", "get", "close-get", "post"}))
		}
		scripts[i] = append(scripts[i], pick(r, []string{"hangup", "hijack", "garbage", "leave", "leave"}))
	}
	g.desc("scripts %v", scripts)
	run := func(mine bool) (seqs []string, after func()) {
		var mu sync.Mutex
		states := map[string][]string{}
		cb := func(c net.Conn, st http.ConnState) {
			mu.Lock()
			defer mu.Unlock()
			k := c.RemoteAddr().String()
			if st == http.StateNew {
				states[k] = nil // a port used once more
			}
			states[k] = append(states[k], st.String())
		}
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.Header.Get("Upgrade") != "" {
				c, _, err := w.(http.Hijacker).Hijack()
				if err == nil {
					io.WriteString(c, "hi\n")
					go func() { time.Sleep(time.Millisecond); c.Close() }()
				}
				return
			}
			io.Copy(io.Discard, r.Body)
			io.WriteString(w, "ok")
		})
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			g.incon("%v", err)
		}
		if mine {
			go (&graceful.Server{Handler: h, ConnState: cb}).Serve(l)
		} else {
			go (&http.Server{Handler: h, ConnState: cb}).Serve(l)
		}
		var left []*gcl
		for _, sc := range scripts {
			c := g.mustDial(l.Addr().String())
			key := c.c.LocalAddr().String()
			get := func(n int) func() bool {
				return func() bool { mu.Lock(); defer mu.Unlock(); return len(states[key]) >= n }
			}
			has := func(st string) func() bool {
				return func() bool {
					mu.Lock()
					defer mu.Unlock()
					l := states[key]
					return len(l) > 0 && l[len(l)-1] == st
				}
			}
			g.until("the callback does not see a new connection", get(1))
			ended := false
			for _, st := range sc {
				if ended {
					break
				}
				switch st {
				case "get":
					c.send(reqText("GET", "x"))
					c.recv()
					g.until("the callback does not see the connection become idle", has("idle"))
				case "post":
					c.send("POST /x HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc")
					c.recv()
					g.until("the callback does not see the connection become idle", has("idle"))
				case "close-get":
					c.send("GET /x HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
					c.recv()
					g.until("the callback does not see the connection close", has("closed"))
					ended = true
				case "hangup":
					c.c.Close()
					g.until("the callback does not see the connection close", has("closed"))
				case "hijack":
					c.send("GET /x HTTP/1.1\r\nHost: x\r\nUpgrade: y\r\nConnection: upgrade\r\n\r\n")
					c.br.ReadString('\n')
					g.until("the callback does not see the connection being hijacked", has("hijacked"))
				case "garbage":
					c.send("\x00\x01 nonsense\r\n\r\n")
					c.recv()
					c.c.Close()
					g.until("the callback does not see the connection close", has("closed"))
				case "leave":
					left = append(left, c)
				}
			}
			mu.Lock()
			seqs = append(seqs, strings.Join(states[key], ","))
			mu.Unlock()
		}
		return seqs, func() {
			for _, c := range left {
				key := c.c.LocalAddr().String()
				g.until("the callback does not see a connection closed by a shutdown", func() bool {
					mu.Lock()
					defer mu.Unlock()
					l := states[key]
					return l[len(l)-1] == "closed"
				})
			}
		}
	}
	want, _ := run(false)
	got, after := run(true)
	for i := range want {
		if got[i] != want[i] {
			g.fail("for a connection used %v the callback sees %s; with a plain http.Server %s", scripts[i], got[i], want[i])
		}
	}
	w := g.shutdownWaiter(r.IntN(3) == 0)
	g.until("Shutdown does not return", func() bool { return w.at.Load() != 0 })
	after()
	g.count("connections whose state sequence was compared", int64(len(want)))
	g.res.Key = fmt.Sprint(scripts)
	g.res.Obs = fmt.Sprint(got)
}

var _ = errors.New
