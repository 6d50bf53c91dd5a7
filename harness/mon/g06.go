package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/graceful/listener"
)

func init() {
	rule := "listeners wrapped for graceful shutdown (some managed before, in any mode) whose connections are brought into random states by reads, marks, deadlines, closes and disowns; shut down by call or signal; the set of closed transports and what waits is compared with a model after every step. And Serve on listeners that fail in several ways, before and during shutdowns. Trials are distinguished by states and ways of shutting down."
	for ph, n := range map[string][4]int{"main": {800, 20000, 300, 3000}, "pert": {300, 10000, 60, 2000}, "race": {200, 8000, 60, 2000}} {
		n, late := n, [2]int{n[2], 4 * n[3]}
		props["G06/"+ph] = prop{rule, func(m *M) {
			m.trials("wrapped", m.N(n[0], n[1]), nil)
			m.trials("errors", m.N(n[2], n[3]), nil)
			m.trials("late", m.N(late[0], late[1]), nil)
		}}
	}
	gtrials["G06/wrapped"] = g06Wrapped
	gtrials["G06/errors"] = g06Errors
	gtrials["G06/late"] = g06Late
}

func g06Wrapped(g *gt) {
	r := g.r
	type lis struct {
		l    *llis
		addr string
		wl   net.Listener
		mode string
		ch   chan net.Conn
		over atomic.Bool
	}
	type cn struct {
		l     *lis
		cl    net.Conn
		c     net.Conn
		lc    *lconn
		state string // idle, busy, disowned, closed
		ops   string
	}
	keep := make(chan os.Signal, 64)
	signal.Notify(keep, syscall.SIGUSR1, syscall.SIGINT)
	var ls []*lis
	alike := r.IntN(3) == 0
	nl := 1 + r.IntN(3)
	if r.IntN(25) == 0 {
		nl = 10 + r.IntN(120)
	}
	for i := nl; i > 0; i-- {
		x := &lis{l: newLlis(g), ch: make(chan net.Conn, 64)}
		x.addr = x.l.Addr().String()
		if alike {
			x.l.Listener = sameAddr{x.l.Listener}
		}
		switch r.IntN(5) {
		case 0, 1:
			x.mode, x.wl = "deadline", graceful.WrapListener(x.l)
		default:
			t := listener.Wrap(x.l, listener.Deadline)
			x.mode = pick(r, []string{"manual", "automatic", "deadline"})
			switch x.mode {
			case "manual":
				t = listener.Wrap(x.l, listener.Manual)
			case "automatic":
				t = listener.Wrap(x.l, listener.Automatic)
			}
			x.wl = graceful.WrapListener(t)
			if x.wl != net.Listener(t) {
				g.fail("WrapListener wraps a listener that is managed already once more: %T", x.wl)
				g.finish()
			}
		}
		if r.IntN(5) == 0 {
			again := graceful.WrapListener(x.wl)
			if again != x.wl {
				g.fail("WrapListener wraps a listener that is managed already once more: %T", again)
				g.finish()
			}
		}
		if a := x.wl.Addr(); a != x.l.Addr() {
			g.fail("a wrapped listener says its address is %v instead of %v", a, x.l.Addr())
		}
		go func() {
			for {
				c, err := x.wl.Accept()
				if err != nil {
					x.over.Store(true)
					return
				}
				x.ch <- c
			}
		}()
		ls = append(ls, x)
	}
	var cs []*cn
	// wait for a step that must not hang
	step := func(what string, f func() error) error {
		var done atomic.Bool
		var err error
		go func() { err = f(); done.Store(true) }()
		g.until(what+" does not return", done.Load)
		return err
	}
	idle := func(x *cn, byDeadline bool) {
		if byDeadline {
			x.ops += "D"
			step("SetReadDeadline", func() error {
				return x.c.SetReadDeadline([]time.Time{{}, time.Now().Add(time.Hour)}[r.IntN(2)])
			})
			return
		}
		x.ops += "i"
		if err := step("MarkIdle", func() error { return listener.MarkIdle(x.c) }); err != nil {
			g.fail("MarkIdle fails: %v", err)
		}
	}
	read := func(x *cn) {
		x.ops += "r"
		io.WriteString(x.cl, "data")
		var b [4]byte
		err := step("Read", func() error {
			_, err := io.ReadFull(x.c, b[:])
			return err
		})
		if err != nil || string(b[:]) != "data" {
			g.fail("a wrapped connection (%s) reads %q, %v", x.ops, b[:], err)
		}
	}
	ncs := 1 + r.IntN(10)
	if nl > 3 {
		ncs = nl + nl/2
	}
	for i := 0; i < ncs; i++ {
		x := &cn{l: pick(r, ls), state: "idle"}
		if nl > 3 && i < nl {
			x.l = ls[nl-1-i]
		}
		var err error
		if x.cl, err = net.Dial("tcp", x.l.addr); err != nil {
			g.incon("dial: %v", err)
		}
		select {
		case x.c = <-x.l.ch:
		case <-time.After(40 * time.Second):
			g.incon("no connection")
		}
		x.lc = x.l.l.conn(x.cl)
		for k := r.IntN(5); k > 0; k-- {
			switch r.IntN(11) {
			case 10:
				x.ops += "w"
				x.c.SetWriteDeadline([]time.Time{{}, time.Now().Add(time.Hour)}[r.IntN(2)])
			case 0, 1, 2:
				read(x)
				if x.state == "idle" && x.l.mode != "manual" {
					x.state = "busy"
				}
			case 3, 4:
				x.ops += "u"
				listener.MarkInUse(x.c)
				if x.state == "idle" {
					x.state = "busy"
				}
			case 5:
				idle(x, false)
				if x.state == "busy" {
					x.state = "idle"
				}
			case 6, 7:
				idle(x, true)
				if x.state == "busy" && x.l.mode == "deadline" {
					x.state = "idle"
				}
			case 8:
				if r.IntN(2) == 0 && x.state != "disowned" {
					x.ops += "o"
					if err := listener.Disown(x.c); err != nil {
						g.fail("Disown fails: %v", err)
					}
					x.state = "disowned"
				}
			case 9:
				if r.IntN(2) == 0 && k == 1 {
					x.ops += "c"
					x.c.Close()
					x.state = "closed"
				}
			}
		}
		cs = append(cs, x)
	}
	for _, x := range cs {
		if closed := x.lc.closedAt.Load() != 0; closed != (x.state == "closed") {
			g.fail("before any shutdown, a connection is %s (%s), closed: %v", x.state, x.ops, closed)
		}
	}
	var mix []string
	for _, x := range cs {
		mix = append(mix, x.l.mode+":"+x.ops)
	}
	sort.Strings(mix)
	kind := pick(r, []string{"call", "call", "INT", "USR1", "now", "twice"})
	g.desc("%d listeners, connections %v, shut down by %s", len(ls), mix, kind)
	graceful.HandleSignals()
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.DoubleKickWindow(time.Hour)
	ws := g.waiters(1 + r.IntN(2))
	force := false
	switch kind {
	case "call":
		ws = append(ws, g.shutdownWaiter(false))
	case "now":
		ws = append(ws, g.shutdownWaiter(true))
		force = true
	case "twice":
		ws = append(ws, g.shutdownWaiter(false))
		g.until("a listener stays open after a shutdown", func() bool { return ls[0].l.closedAt.Load() != 0 })
		ws = append(ws, g.shutdownWaiter(true))
		force = true
	default:
		g.trigger(kind)
	}
	for _, x := range ls {
		g.until("a wrapped listener stays open after a shutdown", func() bool { return x.l.closedAt.Load() != 0 })
		g.until("accepting does not fail after a shutdown", x.over.Load)
	}
	busy := 0
	for _, x := range cs {
		switch {
		case x.state == "idle", x.state == "busy" && force:
			g.until(fmt.Sprintf("a connection that is %s (%s, %s) is not closed by a shutdown (%s)", x.state, x.l.mode, x.ops, kind), func() bool { return x.lc.closedAt.Load() != 0 })
			x.state = "closed"
		case x.state == "busy":
			busy++
		}
	}
	g.settle()
	look := func() {
		for _, x := range cs {
			if at := x.lc.closedAt.Load(); at != 0 && (x.state == "busy" || x.state == "disowned") {
				g.fail("a connection that is %s (%s, %s) was closed by a shutdown (%s)", x.state, x.l.mode, x.ops, kind)
				g.finish()
			}
		}
		for _, w := range ws {
			if w.at.Load() != 0 && busy > 0 {
				g.fail("%s returned while %d connections are in use", w.name, busy)
				g.finish()
			}
		}
	}
	look()
	drained := busy
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	for _, x := range cs {
		if x.state != "busy" {
			continue
		}
		if r.IntN(3) == 0 {
			read(x) // and goes on
			look()
		}
		ways := []string{"idle", "close", "disown"}
		if x.l.mode == "deadline" {
			ways = append(ways, "deadline", "deadline", "deadline")
		}
		way := pick(r, ways)
		lastState := "closed"
		switch way {
		case "idle", "deadline":
			idle(x, way == "deadline")
		case "close":
			step("Close", x.c.Close)
		case "disown":
			if err := step("Disown", func() error { return listener.Disown(x.c) }); err != nil {
				g.fail("Disown fails during a shutdown: %v", err)
			}
			lastState = "disowned"
		}
		if lastState == "closed" && x.lc.closedAt.Load() == 0 {
			g.fail("a connection that becomes idle (%s) during a shutdown is not closed (%s, %s)", way, x.l.mode, x.ops)
			g.finish()
		}
		x.state = lastState
		busy--
		if busy > 0 && r.IntN(2) == 0 {
			g.settle()
		}
		look()
	}
	for _, w := range ws {
		g.until(w.name+" does not return although no connection is left", func() bool { return w.at.Load() != 0 })
	}
	for _, x := range cs {
		at := x.lc.closedAt.Load()
		if n := x.lc.ncl.Load(); x.state == "closed" && n != 1 {
			g.fail("a connection's transport (%s, %s) was closed %d times", x.l.mode, x.ops, n)
		}
		if x.state == "closed" {
			for _, w := range ws {
				if at > w.at.Load() {
					g.fail("%s returned at %d, a connection was closed at %d", w.name, w.at.Load(), at)
				}
			}
		}
		if x.state == "disowned" {
			if at != 0 {
				g.fail("a disowned connection (%s, %s) was closed by a shutdown (%s)", x.l.mode, x.ops, kind)
			} else if x.c.Close(); x.lc.closedAt.Load() == 0 {
				g.fail("a disowned connection cannot be closed")
			}
		}
	}
	for _, x := range ls {
		// Of two calls to Close, the second need not wait for the first.
		g.until("connections are accepted after a shutdown", func() bool { return refused(x.addr) })
	}
	g.count("connections in use during a graceful shutdown", int64(drained))
	g.count("connections", int64(len(cs)))
	g.res.Key = fmt.Sprint(mix, kind)
	g.res.Obs = fmt.Sprintf("%d of %d connections were in use and ended one by one", drained, len(cs))
}

// failing is a listener whose Accept fails when told to.
type failing struct {
	net.Listener
	ch     chan error
	onStop error
	closed atomic.Bool

	accepting atomic.Bool
}

func (f *failing) Accept() (net.Conn, error) {
	f.accepting.Store(true)
	return nil, <-f.ch
}
func (f *failing) Close() error {
	if f.closed.CompareAndSwap(false, true) && f.onStop != nil {
		f.ch <- f.onStop
	}
	return nil
}

func g06Errors(g *gt) {
	r := g.r
	closing := func() error {
		l, err := net.Listen("tcp", ownIP()+":0")
		if err != nil {
			g.incon("%v", err)
		}
		l.Close()
		_, err = l.Accept()
		return err
	}
	other := []error{
		errors.New("out of order"), io.EOF, syscall.EINVAL,
		&net.OpError{Op: "accept", Net: "tcp", Err: syscall.EBADF},
		&net.OpError{Op: "accept", Net: "tcp", Err: errors.New("out of order")},
	}
	real, err := net.Listen("tcp", ownIP()+":0")
	if err != nil {
		g.incon("%v", err)
	}
	var down *waiter
	f := &failing{Listener: real, ch: make(chan error, 1)}
	h := http.NotFoundHandler()
	var served atomic.Bool
	var got error
	fn := r.IntN(2) == 0
	go func() {
		if fn {
			got = graceful.Serve(f, h)
		} else {
			got = (&graceful.Server{Handler: h}).Serve(f)
		}
		served.Store(true)
	}()
	g.until("Serve does not accept", f.accepting.Load)
	var e error
	what := pick(r, []string{"before", "before", "during", "peaceful"})
	switch what {
	case "before":
		e = pick(r, append(other, closing(), error(net.ErrClosed)))
		f.ch <- e
	case "during":
		e = pick(r, other)
		f.onStop = e
		down = g.shutdownWaiter(r.IntN(2) == 0)
	case "peaceful":
		f.onStop = closing()
		down = g.shutdownWaiter(r.IntN(2) == 0)
	}
	g.desc("%s: %v", what, e)
	g.until("Serve does not return", served.Load)
	if got != e {
		g.fail("%s: Serve returns %v when its listener fails with %v", what, got, e)
	}
	if down == nil {
		down = g.shutdownWaiter(false)
	}
	g.until("Shutdown does not return", func() bool { return down.at.Load() != 0 })
	g.res.Key = fmt.Sprintf("%s %T %v", what, e, e)
	g.res.Obs = fmt.Sprint("Serve returned ", got)
}

// g06Late registers listeners before, during and after a shutdown: none of them
// may be left serving.
func g06Late(g *gt) {
	r := g.r
	type lis struct {
		l     *llis
		addr  string
		how   string
		after bool // registered once the shutdown has returned
		done  atomic.Bool
		err   error
	}
	kind := pick(r, []string{"call", "call", "now", "INT", "twice"})
	keep := make(chan os.Signal, 64)
	signal.Notify(keep, syscall.SIGINT)
	graceful.HandleSignals()
	graceful.DoubleKickWindow(time.Hour)
	h := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { io.WriteString(w, "ok") })
	var ls []*lis
	for i := 1 + r.IntN(4); i > 0; i-- {
		x := &lis{l: newLlis(g), how: pick(r, []string{"Serve", "Serve", "Server.Serve", "wrap", "managed"}), after: r.IntN(3) == 0}
		x.addr = x.l.Addr().String()
		ls = append(ls, x)
	}
	start := func(x *lis) {
		switch x.how {
		case "Serve":
			x.err = graceful.Serve(x.l, h)
		case "Server.Serve":
			x.err = (&graceful.Server{Handler: h}).Serve(x.l)
		default:
			var wl net.Listener = x.l
			if x.how == "managed" {
				wl = listener.Wrap(wl, listener.Automatic)
			}
			wl = graceful.WrapListener(wl)
			for {
				c, err := wl.Accept()
				if err != nil {
					break
				}
				c.Close()
			}
		}
		x.done.Store(true)
	}
	ws := g.waiters(1)
	var hows []string
	n := 0
	for _, x := range ls {
		x, d := x, r.IntN(6)
		hows = append(hows, fmt.Sprint(x.how, x.after))
		if x.after {
			n++
			continue
		}
		go func() {
			spin(d)
			start(x)
		}()
	}
	spin(r.IntN(6))
	switch kind {
	case "call", "now":
		ws = append(ws, g.shutdownWaiter(kind == "now"))
	case "twice":
		ws = append(ws, g.shutdownWaiter(false), g.shutdownWaiter(true))
	default:
		g.trigger(kind)
	}
	g.desc("listeners %v, shut down by %s", hows, kind)
	for _, w := range ws {
		g.until(w.name+" does not return although no connection is left", func() bool { return w.at.Load() != 0 })
	}
	for _, x := range ls {
		if x := x; x.after {
			go start(x)
		}
	}
	for _, x := range ls {
		when := "around"
		if x.after {
			when = "after"
		}
		g.until(fmt.Sprintf("a listener registered (%s) %s a shutdown is not closed", x.how, when), func() bool { return x.l.closedAt.Load() != 0 })
		g.until(fmt.Sprintf("a listener registered (%s) %s a shutdown goes on accepting", x.how, when), x.done.Load)
		if x.err != nil {
			g.fail("Serve of a listener registered %s a shutdown returns %v", when, x.err)
		}
		g.until("connections are accepted after a shutdown", func() bool { return refused(x.addr) })
	}
	g.count("listeners registered around a shutdown", int64(len(ls)-n))
	g.count("listeners registered after a shutdown", int64(n))
	g.res.Key = fmt.Sprint(hows, kind)
	g.res.Obs = fmt.Sprintf("%v, %s: all closed", hows, kind)
}

// spin lasts for about a few microseconds, or for as long as it takes others to run.
func spin(n int) {
	switch {
	case n < 3:
		for i := 0; i < n*20; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(n*n*n) * time.Microsecond)
	}
}
