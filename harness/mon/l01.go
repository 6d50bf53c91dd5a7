package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zenazn/goji/graceful/listener"
)

func init() {
	props["L01/main"] = prop{"random sequences of accepting, marking, reading, setting deadlines, closing, disowning, shedding and draining on listeners of all three modes over fake transports; after every step the set of closed transports and the results are compared with a sequential model. A sequence is trivial if no connection was ever shed or spared.", runL01}
	for _, ph := range []string{"main", "race", "pert"} {
		race, pert := ph == "race", ph != "main"
		if ph != "main" {
			props["L01/"+ph] = prop{"connections accepted, or marked idle, while drains run and then left alone: the drains must close each of them and return. Histories are distinguished by the order of events.", func(m *M) { idleRace(m, race, pert) }}
		}
		props["L02/"+ph] = prop{"connections served concurrently with shedding and draining: at every moment between a successful read and the mark that ends the request the transport must be open, no read may deliver data once it is closed, and connections idle for a whole shedding call must be closed when it returns. Each request served while shedding ran counts once per distinct shape.", func(m *M) { runL02(m, race, pert) }}
		props["L03/"+ph] = prop{"drains racing with accepts, closes, disowns, marks and each other; every connection ever handed out must be over before any drain returns, drains must return, and afterwards nothing is handed out. Histories are distinguished by their order of events.", func(m *M) { runL03(m, race, pert) }}
		props["L04/"+ph] = prop{"disowning racing with shedding, draining, forced draining and closing; transports of successfully disowned connections must stay untouched, all others be closed. Histories are distinguished by their outcomes.", func(m *M) { runL04(m, race, pert) }}
		props["L05/"+ph] = prop{"chaotic concurrent use of listeners and connections: transports closed exactly once, nothing retained (weak pointers), no panic, deadlock or race, data and errors passed through. Histories are distinguished by their outcomes.", func(m *M) { runL05(m, race, pert) }}
	}
}

// fl is a fake listener.
type fl struct {
	ch     chan any // net.Conn or error
	closed chan struct{}
	once   sync.Once
	ncl    atomic.Int32
	err    error
}

var errFL = errors.New("fake listener closed")

func newFL() *fl { return &fl{ch: make(chan any, 1024), closed: make(chan struct{})} }
func (l *fl) Accept() (net.Conn, error) {
	select {
	case x := <-l.ch:
		if e, ok := x.(error); ok {
			return nil, e
		}
		return x.(net.Conn), nil
	case <-l.closed:
		return nil, errFL
	}
}
func (l *fl) Close() error {
	l.ncl.Add(1)
	l.once.Do(func() { close(l.closed) })
	return l.err
}

type fakeAddr string

func (a fakeAddr) Network() string { return "fake" }
func (a fakeAddr) String() string  { return string(a) }
func (l *fl) Addr() net.Addr       { return fakeAddr("listener") }

// chunk is what one read of a fake transport yields.
type chunk struct {
	b   string
	err error
}

// fc is a fake transport that records what is done to it.
type fc struct {
	id        int
	data      chan chunk
	cl        chan struct{}
	once      sync.Once
	nclose    atomic.Int32
	clock     *atomic.Int64
	closedAt  atomic.Int64 // when Close was first entered
	closeErr  error
	onClose   func(*fc) // called on entering Close
	onRead    func(*fc) // called with data in hand, before Read returns
	mu        sync.Mutex
	wrote     bytes.Buffer
	deadlines []string
	devErr    error
	inRead    atomic.Int32
	regID     int
}

var errFC = errors.New("fake transport closed")

func newFC(id int, clock *atomic.Int64) *fc {
	return &fc{id: id, data: make(chan chunk, 16), cl: make(chan struct{}), clock: clock}
}

func (c *fc) closed() bool { return c.nclose.Load() != 0 }

func (c *fc) Read(b []byte) (int, error) {
	select {
	case <-c.cl:
		return 0, errFC
	default:
	}
	c.inRead.Add(1)
	defer c.inRead.Add(-1)
	select {
	case x := <-c.data:
		if c.onRead != nil {
			c.onRead(c)
		}
		return copy(b, x.b), x.err
	case <-c.cl:
		return 0, errFC
	}
}
func (c *fc) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.devErr != nil {
		return len(b) / 2, c.devErr
	}
	c.wrote.Write(b)
	return len(b), nil
}
func (c *fc) Close() error {
	if c.nclose.Add(1) == 1 && c.clock != nil {
		c.closedAt.Store(c.clock.Add(1))
	}
	if c.onClose != nil {
		c.onClose(c)
	}
	c.once.Do(func() { close(c.cl) })
	return c.closeErr
}
func (c *fc) LocalAddr() net.Addr {
	if c.regID != 0 {
		return fakeAddr(fmt.Sprint("local", c.regID))
	}
	return fakeAddr(fmt.Sprint("local", c.id))
}
func (c *fc) RemoteAddr() net.Addr { return fakeAddr(fmt.Sprint("remote", c.id)) }
func (c *fc) dl(k string, t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadlines = append(c.deadlines, k+t.String())
	return c.devErr
}
func (c *fc) SetDeadline(t time.Time) error      { return c.dl("both", t) }
func (c *fc) SetReadDeadline(t time.Time) error  { return c.dl("read", t) }
func (c *fc) SetWriteDeadline(t time.Time) error { return c.dl("write", t) }

var modeNames = []string{"manual", "automatic", "deadline"}

func wrapMode(l net.Listener, mode int) *listener.T {
	switch mode {
	case 0:
		return listener.Wrap(l, listener.Manual)
	case 1:
		return listener.Wrap(l, listener.Automatic)
	}
	return listener.Wrap(l, listener.Deadline)
}

// ---- L01

type l01conn struct {
	f     *fc
	wc    net.Conn
	state string // idle, busy, closed, disowned
	over  int32  // closes expected of a closed or disowned transport
	rd    chan string
}

func runL01(m *M) {
	idleRace(m, false, false)
	foreign := newFC(-1, nil)
	m.Run("sequence", m.N(24000, 1000000), func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		var conns []*l01conn
		var log []string
		say := func(format string, a ...any) { log = append(log, fmt.Sprintf(format, a...)) }
		t.Desc(func() string { return "mode " + modeNames[mode] + ": " + strings.Join(log, "; ") })
		draining, forced := false, false
		bad := chance(r, 0.2) // some transports fail to close properly
		var drains []*atomic.Bool
		spared, shed := 0, 0
		// An idle connection closed, or one that became idle while draining.
		settle := func(all bool) {
			for _, c := range conns {
				switch {
				case c.state == "idle", all && c.state == "busy":
					c.state, c.over = "closed", 1
					shed++
				case c.state == "busy":
					spared++
				}
			}
		}
		check := func() bool {
			for _, c := range conns {
				want := c.over
				if got := c.f.nclose.Load(); got != want {
					t.Fail("after %q connection %d (%s) has been closed %d times, not %d", log[len(log)-1], c.f.id, c.state, got, want)
					return false
				}
			}
			left := 0
			for _, c := range conns {
				if c.state != "closed" && c.state != "disowned" {
					left++
				}
			}
			if left > 0 {
				for i, d := range drains {
					if d.Load() {
						t.Fail("after %q drain %d has returned although %d connections are left", log[len(log)-1], i, left)
						return false
					}
				}
			} else {
				for i, d := range drains {
					if !d.Load() && !cr.Until(fmt.Sprintf("drain %d does not return although no connection is left", i), d.Load) {
						return false
					}
				}
			}
			return true
		}
		steps := 3 + r.IntN(25)
		for s := 0; s < steps; s++ {
			op := r.IntN(20)
			if len(conns) == 0 {
				op = 0
			}
			var c *l01conn
			if len(conns) > 0 {
				c = conns[r.IntN(len(conns))]
			}
			alive := c != nil && c.state != "closed" && c.state != "disowned"
			// becomeIdle is what a mark does.
			becomeIdle := func() {
				if alive && c.state != "idle" {
					c.state = "idle"
					if draining {
						c.state, c.over = "closed", 1
						shed++
					}
				}
			}
			switch op {
			case 0, 1, 2:
				if !draining && chance(r, 0.04) {
					// A crowd, some of it in use.
					k := 10 + r.IntN(70)
					say("accept %d more", k)
					n := 0
					for ; k > 0; k-- {
						fcn := newFC(len(conns), nil)
						if bad && chance(r, 0.5) {
							fcn.closeErr = errFC
						}
						f.ch <- fcn
						wc, err := l.Accept()
						if err != nil {
							t.Fail("Accept: %v", err)
							return
						}
						c := &l01conn{f: fcn, wc: wc, state: "idle"}
						conns = append(conns, c)
						if chance(r, 0.5) {
							listener.MarkInUse(wc)
							c.state = "busy"
							n++
						}
					}
					log[len(log)-1] += fmt.Sprintf(", %d of them in use", n)
					break
				}
				fcn := newFC(len(conns)+100*r.IntN(2), nil)
				say("accept %d", len(conns))
				fcn.id = len(conns)
				if bad && chance(r, 0.5) {
					fcn.closeErr = errFC
				}
				f.ch <- fcn
				wc, err := l.Accept()
				if draining {
					if err == nil {
						t.Fail("a draining listener hands out a connection")
						return
					}
					if fcn.nclose.Load() != 1 {
						t.Fail("a connection refused while draining was closed %d times", fcn.nclose.Load())
						return
					}
					break
				}
				if err != nil {
					t.Fail("Accept: %v", err)
					return
				}
				conns = append(conns, &l01conn{f: fcn, wc: wc, state: "idle"})
			case 3, 4, 5:
				say("in use %d", c.f.id)
				if err := listener.MarkInUse(c.wc); err != nil && alive {
					t.Fail("MarkInUse: %v", err)
				} else if err == nil && c.state != "disowned" && !alive {
					t.Fail("MarkInUse on a closed connection reports success")
				}
				if alive {
					c.state = "busy"
				}
			case 6, 7:
				say("idle %d", c.f.id)
				if err := listener.MarkIdle(c.wc); err != nil && alive {
					t.Fail("MarkIdle: %v", err)
				}
				becomeIdle()
			case 8, 9, 10:
				x := chunk{b: pick(r, []string{"data", "data", "d", "datadata"})}
				if chance(r, 0.2) {
					x = pick(r, []chunk{{"", io.EOF}, {"x", io.EOF}, {"", os.ErrDeadlineExceeded}, {"xy", errFC}})
				}
				say("read %d -> %q %v", c.f.id, x.b, x.err)
				if c.f.closed() {
					if n, err := c.wc.Read(make([]byte, 8)); n != 0 || err == nil {
						t.Fail("reading from a closed connection gives %d bytes and %v", n, err)
					}
					break
				}
				c.f.data <- x
				b := make([]byte, 8)
				n, err := c.wc.Read(b)
				if string(b[:n]) != x.b || err != x.err {
					t.Fail("the transport's read gave %q, %v, but the connection's %q, %v", x.b, x.err, b[:n], err)
					return
				}
				if alive && mode != 0 {
					c.state = "busy" // whatever came of it
				}
			case 11:
				say("read deadline %d", c.f.id)
				tm := time.Unix(int64(s), 0)
				err := c.wc.SetReadDeadline(tm)
				if k := len(c.f.deadlines); err != nil || k == 0 || c.f.deadlines[k-1] != "read"+tm.String() {
					t.Fail("SetReadDeadline: %v, transport saw %v", err, c.f.deadlines)
				}
				if mode == 2 {
					becomeIdle()
				}
			case 12:
				// Writing, and limiting how long writes may take, says nothing about
				// being idle or in use.
				say("write deadline and write %d", c.f.id)
				k0 := len(c.f.deadlines)
				c.wc.SetWriteDeadline(time.Unix(1, 0))
				c.wc.Write([]byte("w"))
				if k := c.f.deadlines; len(k) != k0+1 || k[k0] != "write"+time.Unix(1, 0).String() {
					t.Fail("the transport saw deadlines %v", k)
				}
				if chance(r, 0.5) {
					break
				}
				log[len(log)-1] += " and both deadlines"
				c.wc.SetDeadline(time.Unix(2, 0))
				if k := c.f.deadlines; len(k) != k0+2 || k[k0+1] != "both"+time.Unix(2, 0).String() {
					t.Fail("the transport saw deadlines %v", k)
				}
				if mode == 2 && alive && c.state == "busy" {
					// SetDeadline sets the read deadline as well; whether that
					// counts is not documented.
					listener.MarkInUse(c.wc)
					if draining && c.f.closed() {
						c.state, c.over = "closed", 1
					}
				}
			case 13:
				say("close %d", c.f.id)
				c.f.closeErr = errFC
				err := c.wc.Close()
				if alive {
					c.state, c.over = "closed", 1
				} else if c.state == "disowned" {
					c.over++
				}
				if alive && err != errFC {
					t.Fail("Close returns %v instead of the transport's error", err)
				}
			case 14:
				say("disown %d", c.f.id)
				err := listener.Disown(c.wc)
				if (err == nil) != alive {
					t.Fail("Disown of a connection that is %s: %v", c.state, err)
					return
				}
				if alive {
					c.state = "disowned"
				}
			case 15, 16, 17:
				say("shed")
				if err := l.CloseIdle(); err != nil {
					t.Fail("CloseIdle: %v", err)
				}
				settle(false)
			case 18:
				if chance(r, 0.5) {
					// A read blocked with nothing to read leaves the connection idle.
					if alive && c.state == "idle" && !draining {
						say("shed while reading %d", c.f.id)
						var rn int
						var rerr error
						var rd atomic.Bool
						cr.Go("reader", func() { rn, rerr = c.wc.Read(make([]byte, 4)); rd.Store(true) })
						if !cr.Until("Read does not reach the transport", func() bool { return c.f.inRead.Load() == 1 }) {
							return
						}
						l.CloseIdle()
						settle(false)
						if !check() || !cr.Until("Read does not return from a closed connection", rd.Load) {
							return
						}
						if rn != 0 || rerr == nil {
							t.Fail("reading from a shed connection gives %d, %v", rn, rerr)
						}
					}
					break
				}
				for i, fn := range []func(net.Conn) error{listener.MarkIdle, listener.MarkInUse, listener.Disown} {
					x := net.Conn(foreign)
					if chance(r, 0.5) && c != nil {
						x = wrapped{c.wc}
					}
					if fn(x) == nil {
						t.Fail("operation %d on a connection that is not managed reports no error", i)
					}
				}
				say("foreign")
				if foreign.closed() {
					t.Fail("a foreign connection was closed")
				}
			case 19:
				if s*2 < steps && chance(r, 0.6) {
					continue
				}
				all := chance(r, 0.3)
				say("drain all=%v", all)
				d := new(atomic.Bool)
				cr.Go("drain", func() {
					if all {
						l.DrainAll()
					} else {
						l.Drain()
					}
					d.Store(true)
				})
				// Its first part is over once everything it must close is closed,
				// and it refuses connections.
				var must []*l01conn
				for _, c := range conns {
					if c.state == "idle" || all && c.state != "closed" && c.state != "disowned" {
						must = append(must, c)
					}
				}
				if !cr.Until("draining does not close what it should", func() bool {
					for _, c := range must {
						if !c.f.closed() {
							return false
						}
					}
					return true
				}) {
					return
				}
				draining = true
				forced = forced || all
				// Wait until it refuses connections in whatever internal order it works.
				if !cr.Until("a draining listener keeps handing out connections", func() bool {
					if d.Load() {
						return true
					}
					quiet, _, _ := cr.picture()
					return quiet
				}) {
					return
				}
				settle(all)
				drains = append(drains, d)
			}
			if t.nfail.Load() > 0 || len(log) > 0 && !check() {
				return
			}
		}
		// Whatever is left, closing it ends everything.
		say("end")
		for _, c := range conns {
			if c.state == "idle" || c.state == "busy" {
				c.wc.Close()
				c.state, c.over = "closed", 1
			}
		}
		if !check() {
			return
		}
		cr.Join("drains do not return")
		if shed+spared > 0 {
			t.Saw(modeNames[mode] + strings.Join(log, ";"))
		} else {
			t.Saw("")
		}
		t.Count("connections shed", int64(shed))
		t.Count("connections spared", int64(spared))
		t.Sample(func() any { return modeNames[mode] + ": " + strings.Join(log, "; ") })
	})
}

type wrapped struct{ net.Conn }
