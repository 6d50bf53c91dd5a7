package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"weak"

	"github.com/zenazn/goji/graceful/listener"
	"vh/vfsched"
)

// jitter passes a little time.
func jitter(r *rand.Rand) {
	switch r.IntN(8) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Duration(r.IntN(60)) * time.Microsecond)
	}
}

func sub(t *T) *rand.Rand { return rand.New(rand.NewPCG(t.Rng.Uint64(), t.Rng.Uint64())) }

// lrun runs the cases of a listener workload, perturbed if the build allows it.
func (m *M) lrun(label string, n int, pert bool, f func(t *T)) {
	if !pert {
		m.Run(label, n, f)
		return
	}
	sites := envInt("VH_SITES")
	m.RunSerial(label, n, func(t *T) {
		perturb(t.Rng, sites)
		f(t)
		vfsched.Off()
	})
}

func size(m *M, race, pert bool, plain, perturbed, raced, th int) int {
	switch {
	case race:
		return m.N(raced, th)
	case pert:
		return m.N(perturbed, th)
	}
	return m.N(plain, 4*th)
}

// ---- L02

type l02conn struct {
	f  *fc
	wc net.Conn
	// phase is odd from before data is sent until the connection has been marked
	// idle again, and only ever grows.
	phase atomic.Int64
	over  atomic.Bool
}

func runL02(m *M, race, pert bool) {
	m.lrun("serve", size(m, race, pert, 3000, 500, 250, 40000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		N := 1 + r.IntN(6)
		if chance(r, 0.1) {
			N = 40
		}
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		conns := make([]*l02conn, N)
		for i := range conns {
			c := &l02conn{f: newFC(i, nil)}
			f.ch <- c.f
			var err error
			if c.wc, err = l.Accept(); err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			conns[i] = c
		}
		var served, shed, under atomic.Int64
		var shedding, calls atomic.Int32
		t.Desc(func() string {
			return fmt.Sprintf("mode %s, %d connections, %d requests served", modeNames[mode], N, served.Load())
		})
		fail := sync.Once{}
		for i, c := range conns {
			ro, rc := sub(t), sub(t)
			cr.Go(fmt.Sprint("owner", i), func() {
				defer c.over.Store(true)
				mem := make([]byte, 4096)
				for {
					buf := mem[:pick(ro, []int{1, 1, 2, 3, 16, 4096})]
					n, err := c.wc.Read(buf)
					if n == 0 {
						if err == nil {
							continue
						}
						shed.Add(1)
						return
					}
					what := "delivered data from"
					if mode == 0 {
						if c.f.closed() {
							return
						}
						if err := listener.MarkInUse(c.wc); err != nil {
							// Idle until the mark, so shedding it was right.
							cr.Until("a connection that cannot be marked in use is not closed", c.f.closed)
							shed.Add(1)
							return
						}
						if c.f.closed() {
							fail.Do(func() { t.Fail("marking a connection in use succeeds although it has been shed") })
							return
						}
						what = "marked in use"
					}
					s0 := shedding.Load()
					if c.f.closed() {
						fail.Do(func() { t.Fail("Read delivers %q, %v from a connection that has been shed", buf[:n], err) })
						return
					}
					for k := ro.IntN(4); k > 0; k-- {
						jitter(ro)
						if ro.IntN(10) == 0 {
							c.wc.Write([]byte("x"))
						}
					}
					if s0 > 0 || shedding.Load() > 0 {
						under.Add(1)
					}
					if c.f.closed() {
						fail.Do(func() { t.Fail("a connection that has %s (and was not marked idle since) was shed", what) })
						return
					}
					served.Add(1)
					if ro.IntN(40) == 0 {
						c.wc.Close()
						return
					}
					if mode == 2 && ro.IntN(2) == 0 {
						c.wc.SetReadDeadline(time.Unix(1, 0))
					} else {
						listener.MarkIdle(c.wc)
					}
					c.phase.Add(1)
				}
			})
			cr.Go(fmt.Sprint("client", i), func() {
				for k := 0; k < 25 && !c.over.Load(); k++ {
					for c.phase.Load()&1 == 1 && !c.over.Load() {
						runtime.Gosched()
						if rc.IntN(20) == 0 {
							time.Sleep(10 * time.Microsecond)
						}
					}
					jitter(rc)
					c.phase.Add(1)
					x := chunk{b: "req"}
					if rc.IntN(12) == 0 {
						x.err = io.EOF
					}
					c.f.data <- x
				}
			})
		}
		for s := 1 + r.IntN(2); s > 0; s-- {
			rs := sub(t)
			cr.Go(fmt.Sprint("shedder", s), func() {
				ph := make([]int64, N)
				for k := 0; k < 6; k++ {
					for j := rs.IntN(12); j > 0; j-- {
						jitter(rs)
					}
					for i, c := range conns {
						ph[i] = c.phase.Load()
					}
					// Another such call may have begun to close a connection
					// that this one then leaves to it.
					c0 := calls.Add(1)
					alone := shedding.Add(1) == 1
					l.CloseIdle()
					alone = calls.Load() == c0 && alone
					shedding.Add(-1)
					for i, c := range conns {
						if alone && ph[i]&1 == 0 && c.phase.Load() == ph[i] && !c.f.closed() {
							fail.Do(func() { t.Fail("a connection that was idle all along survives shedding") })
						}
					}
				}
			})
		}
		for d := 1 + r.IntN(2); d > 0; d-- {
			rd := sub(t)
			cr.Go("drainer", func() {
				for j := rd.IntN(4) * 20; j > 0; j-- {
					jitter(rd)
				}
				calls.Add(1)
				shedding.Add(1)
				l.Drain()
				shedding.Add(-1)
			})
		}
		// Clients stop at some point; busy connections do not exist then, so
		// draining closes everything.
		if !cr.Join("serving and draining do not come to an end") {
			return
		}
		for _, c := range conns {
			if n := c.f.nclose.Load(); n != 1 {
				t.Fail("after everything a transport has been closed %d times", n)
			}
		}
		t.Count("requests served", served.Load())
		t.Count("requests in progress while shedding or draining", under.Load())
		t.Count("connections shed", shed.Load())
		if under.Load() > 0 {
			t.Saw(fmt.Sprint("serve ", mode, N, served.Load(), shed.Load(), under.Load()))
		} else {
			t.Saw("")
		}
	})
	// Shedding is held up while it closes one connection; meanwhile others come into use.
	m.lrun("held-up", size(m, race, pert, 3000, 400, 150, 40000), pert, func(t *T) {
		r := t.Rng
		mode := 1 + r.IntN(2)
		N := 2 + r.IntN(40)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		entered, release := make(chan int, 64), make(chan struct{})
		var first atomic.Int32
		conns := make([]*l02conn, N)
		for i := range conns {
			c := &l02conn{f: newFC(i, nil)}
			c.f.onClose = func(x *fc) {
				if first.Add(1) == 1 {
					entered <- x.id
					<-release
				}
			}
			f.ch <- c.f
			var err error
			if c.wc, err = l.Accept(); err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			conns[i] = c
		}
		how := r.IntN(3)
		t.Desc(func() string {
			return fmt.Sprintf("mode %s, %d connections, how %d", modeNames[mode], N, how)
		})
		cr.Go("shedder", func() {
			switch how {
			case 0:
				l.CloseIdle()
			case 1:
				l.Drain()
			case 2:
				l.CloseIdle()
				l.Drain()
			}
		})
		var held int
		select {
		case held = <-entered:
		case <-time.After(30 * time.Second):
			if !cr.Until("shedding closes nothing", func() bool { return len(entered) > 0 }) {
				return
			}
			held = <-entered
		}
		busy := map[int]bool{}
		var mu sync.Mutex
		for i, c := range conns {
			if i == held || chance(r, 0.4) {
				continue
			}
			c.f.data <- chunk{b: "r"}
			cr.Go(fmt.Sprint("owner", i), func() {
				n, _ := c.wc.Read(make([]byte, 1+i%4))
				if n > 0 {
					if c.f.closed() {
						t.Fail("Read delivers data from a connection that has been shed")
					}
					mu.Lock()
					busy[i] = true
					mu.Unlock()
				}
			})
		}
		// A read of the connection that is being closed must not deliver either.
		conns[held].f.data <- chunk{b: "r"}
		cr.Go("held", func() {
			if n, _ := conns[held].wc.Read(make([]byte, 4)); n > 0 {
				t.Fail("Read delivers data from a connection that is being shed")
			}
		})
		for k := r.IntN(50); k > 0; k-- {
			jitter(r)
		}
		close(release)
		if !cr.Until("readers do not come back", func() bool { return cr.running() <= 1 }) {
			return
		}
		for k := r.IntN(50); k > 0; k-- {
			jitter(r)
		}
		mu.Lock()
		n := len(busy)
		for i := range busy {
			if conns[i].f.closed() {
				t.Fail("connection %d delivered data and was shed afterwards", i)
			}
		}
		mu.Unlock()
		for _, c := range conns {
			listener.MarkIdle(c.wc)
		}
		l.CloseIdle()
		// The first call may still be closing some of them.
		cr.Join("draining does not end")
		for i, c := range conns {
			if !c.f.closed() {
				t.Fail("connection %d is idle and survives shedding", i)
			}
		}
		t.Count("connections that came into use while shedding was held up", int64(n))
		if n > 0 {
			t.Saw(fmt.Sprint("held-up ", mode, N, how, held, n))
		} else {
			t.Saw("")
		}
	})
	// A read has taken data from the transport but has not returned yet.
	m.lrun("read-in-flight", size(m, race, pert, 3000, 400, 150, 40000), pert, func(t *T) {
		r := t.Rng
		mode := 1 + r.IntN(2)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		fcn := newFC(0, nil)
		inHand, release := make(chan struct{}), make(chan struct{})
		var once sync.Once
		fcn.onRead = func(*fc) { once.Do(func() { close(inHand); <-release }) }
		f.ch <- fcn
		wc, err := l.Accept()
		if err != nil {
			t.Fail("Accept: %v", err)
			return
		}
		x := chunk{"req", pick(r, []error{nil, nil, io.EOF, errors.New("late")})}
		how, before := r.IntN(3), chance(r, 0.4)
		size, used := pick(r, []int{1, 2, 8, 8, 4096}), r.IntN(3)
		t.Desc(func() string {
			return fmt.Sprintf("mode %s, chunk %v, read of %d, how %d, before %v, in use at first %v", modeNames[mode], x, size, how, before, []string{"no", "yes", "all along"}[used])
		})
		fcn.data <- x
		// It may also be in use when the read begins, and become idle meanwhile.
		if used > 0 {
			listener.MarkInUse(wc)
		}
		var got atomic.Int64
		cr.Go("reader", func() {
			n, _ := wc.Read(make([]byte, size))
			got.Store(int64(n))
			if n > 0 && fcn.closed() {
				t.Fail("Read delivers %d bytes from a connection that has been shed", n)
			}
		})
		<-inHand
		if used == 1 {
			if mode == 2 && chance(r, 0.5) {
				wc.SetReadDeadline(time.Unix(1, 0))
			} else {
				listener.MarkIdle(wc)
			}
		}
		shed := func() {
			switch how {
			case 0:
				l.CloseIdle()
			case 1:
				l.Drain()
			case 2:
				l.CloseIdle()
				l.CloseIdle()
			}
		}
		if before && how != 1 {
			shed()
			close(release)
		} else {
			cr.Go("shedder", shed)
			for k := r.IntN(10); k > 0; k-- {
				jitter(r)
			}
			close(release)
		}
		if !cr.Until("reader and shedder do not come back", func() bool { return cr.running() == 0 || how == 1 && got.Load() > 0 && cr.running() == 1 }) {
			return
		}
		n := got.Load()
		if cr.running() == 0 && n > 0 && fcn.closed() {
			t.Fail("the connection delivered data and was shed afterwards")
		}
		if used == 2 && fcn.closed() {
			t.Fail("a connection in use was shed while it was read from")
		}
		if n > 0 && !fcn.closed() {
			if l.CloseIdle(); fcn.closed() {
				t.Fail("the connection delivered data and was shed afterwards")
			}
		}
		wc.Close()
		cr.Join("draining does not end")
		t.Saw(fmt.Sprint("in flight ", mode, x, how, before, used, n))
		if n == 0 {
			t.Count("reads that lost to shedding", 1)
		} else {
			t.Count("reads that won over shedding", 1)
		}
	})
	if race {
		quietTrials(m)
	}
}

// idleRace: connections become idle while drains run, and nobody touches them
// afterwards. A drain that overlooks one never returns.
func idleRace(m *M, race, pert bool) {
	m.lrun("idle-race", size(m, race, pert, 6000, 1500, 600, 60000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		var clock atomic.Int64
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		total := 1 + r.IntN(8)
		pre := r.IntN(total + 1)
		slow := chance(r, 0.5)
		var transports []*fc
		var handed, refused, closedByOwner atomic.Int64
		own := func(x *fc, wc net.Conn, ro *rand.Rand, use bool) {
			handed.Add(1)
			if use || ro.IntN(2) == 0 {
				for k := 1 + ro.IntN(2); k > 0; k-- {
					if mode != 0 && ro.IntN(2) == 0 {
						x.data <- chunk{b: "x"}
						wc.Read(make([]byte, 2))
					} else {
						listener.MarkInUse(wc)
					}
					for k := ro.IntN(4); k > 0; k-- {
						jitter(ro)
					}
					if mode == 2 && ro.IntN(2) == 0 {
						wc.SetReadDeadline(time.Time{})
					} else {
						listener.MarkIdle(wc)
					}
				}
			}
			if ro.IntN(6) == 0 {
				closedByOwner.Add(1)
				wc.Close()
			}
		}
		for i := 0; i < total; i++ {
			x := newFC(i, &clock)
			if slow {
				x.onClose = func(*fc) { time.Sleep(100 * time.Microsecond) }
			}
			register(x)
			transports = append(transports, x)
		}
		defer func() {
			for _, x := range transports {
				unregister(x)
			}
		}()
		t.Desc(func() string {
			return fmt.Sprintf("mode %s, %d connections, %d accepted before, %d handed out, %d closed by their owners", modeNames[mode], total, pre, handed.Load(), closedByOwner.Load())
		})
		for i := 0; i < pre; i++ {
			f.ch <- transports[i]
			wc, err := l.Accept()
			if err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			ro, use := sub(t), chance(r, 0.6)
			if use {
				listener.MarkInUse(wc)
			}
			x := transports[i]
			cr.Go(fmt.Sprint("owner", i), func() { own(x, wc, ro, use) })
		}
		for _, x := range transports[pre:] {
			f.ch <- x
			ra := sub(t)
			cr.Go("acceptor", func() {
				for k := ra.IntN(3); k > 0; k-- {
					jitter(ra)
				}
				wc, err := l.Accept()
				if err != nil {
					refused.Add(1)
					return
				}
				own(transportOf(wc), wc, ra, false)
			})
		}
		nd := 1 + r.IntN(2)
		for d := 0; d < nd; d++ {
			rr := sub(t)
			cr.Go("drain", func() {
				for k := rr.IntN(4); k > 0; k-- {
					jitter(rr)
				}
				l.Drain()
			})
		}
		if !cr.Join("a drain does not return although every connection is idle or closed") {
			return
		}
		var order []int64
		for _, x := range transports {
			if n := x.nclose.Load(); n != 1 {
				t.Fail("after a drain an idle connection has been closed %d times", n)
			}
			order = append(order, x.closedAt.Load())
		}
		t.Count("connections that became idle around a drain", handed.Load())
		t.Count("connections refused", refused.Load())
		t.Saw(fmt.Sprint("idle race ", mode, pre, nd, order, refused.Load()))
		t.Sample(func() any {
			return fmt.Sprintf("mode %s: %d of %d handed out, %d refused, closed in order %v", modeNames[mode], handed.Load(), total, refused.Load(), order)
		})
	})
}

// ---- L03

type lev struct {
	f        *fc
	wc       net.Conn
	disownAt atomic.Int64
	closeAt  atomic.Int64
}

func runL03(m *M, race, pert bool) {
	m.lrun("drain", size(m, race, pert, 8000, 1000, 400, 80000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		var clock atomic.Int64
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		var mu sync.Mutex
		var all []*lev
		handle := func(wc net.Conn, ro *rand.Rand) {
			mu.Lock()
			v := &lev{wc: wc}
			all = append(all, v)
			mu.Unlock()
			// Find its transport through the address.
			v.f = transportOf(wc)
			for k := ro.IntN(4); k > 0; k-- {
				switch ro.IntN(5) {
				case 0:
					listener.MarkInUse(wc)
				case 1:
					listener.MarkIdle(wc)
				case 2:
					v.f.data <- chunk{b: "x"}
					wc.Read(make([]byte, 2))
				default:
					jitter(ro)
				}
			}
			if ro.IntN(4) == 0 {
				v.disownAt.Store(clock.Add(1))
				if listener.Disown(wc) != nil {
					v.disownAt.Store(0)
				}
				return
			}
			wc.Close()
			if ro.IntN(5) == 0 {
				wc.Close()
			}
			if ro.IntN(8) == 0 {
				listener.MarkIdle(wc)
			}
		}
		defer forget(&all, &mu)
		total := r.IntN(16)
		pre := 0
		if total > 0 {
			pre = r.IntN(total + 1)
		}
		var transports []*fc
		for i := 0; i < total; i++ {
			x := newFC(i, &clock)
			register(x)
			transports = append(transports, x)
		}
		defer func() {
			for _, x := range transports {
				unregister(x)
			}
		}()
		for i := 0; i < pre; i++ {
			f.ch <- transports[i]
			wc, err := l.Accept()
			if err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			ro := sub(t)
			// Part of the owner's work happens before the drains start.
			if chance(r, 0.5) {
				listener.MarkInUse(wc)
			}
			cr.Go(fmt.Sprint("owner", i), func() { handle(wc, ro) })
		}
		var refused atomic.Int64
		acceptors := 1 + r.IntN(2)
		for a := 0; a < acceptors; a++ {
			ra := sub(t)
			cr.Go(fmt.Sprint("acceptor", a), func() {
				for {
					wc, err := l.Accept()
					if err != nil {
						if err == errFL {
							return
						}
						refused.Add(1)
						continue
					}
					ro := rand.New(rand.NewPCG(ra.Uint64(), 1))
					cr.Go("owner", func() { handle(wc, ro) })
				}
			})
		}
		rd, dial := sub(t), transports[pre:]
		cr.Go("dialer", func() {
			for _, x := range dial {
				for k := rd.IntN(3); k > 0; k-- {
					jitter(rd)
				}
				f.ch <- x
			}
		})
		type ret struct {
			at  int64
			all bool
		}
		var rets []ret
		nd := 1 + r.IntN(3)
		closeFirst := chance(r, 0.3)
		var drained atomic.Int32
		kinds := ""
		for d := 0; d < nd; d++ {
			rr := sub(t)
			force := chance(r, 0.2)
			kinds += fmt.Sprint(force)
			cr.Go(fmt.Sprint("drain", d), func() {
				for k := rr.IntN(5); k > 0; k-- {
					jitter(rr)
				}
				if closeFirst {
					l.Close()
				}
				if force {
					l.DrainAll()
				} else {
					l.Drain()
				}
				at := clock.Add(1)
				mu.Lock()
				rets = append(rets, ret{at, force})
				mu.Unlock()
				drained.Add(1)
			})
		}
		t.Desc(func() string {
			return fmt.Sprintf("mode %s, %d connections (%d before), drains (forced?) %s, closed first %v, %d acceptors", modeNames[mode], total, pre, kinds, closeFirst, acceptors)
		})
		if !cr.Until("drains do not return although every connection is closed or disowned", func() bool { return int(drained.Load()) == nd }) {
			return
		}
		// Connections that arrive from now on are refused.
		late := 0
		if !closeFirst {
			for i := 0; i < 3; i++ {
				x := newFC(1000+i, &clock)
				transports = append(transports, x)
				register(x)
				f.ch <- x
				late++
				if !cr.Until("a connection arriving after a drain is neither refused nor closed", x.closed) {
					return
				}
			}
		}
		f.Close()
		if !cr.Join("owners and acceptors do not end") {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		var order []int64
		for _, v := range all {
			end := v.f.closedAt.Load()
			if d := v.disownAt.Load(); d != 0 {
				end = d
			}
			order = append(order, end)
			for _, d := range rets {
				if end == 0 || end > d.at {
					t.Fail("a drain (forced %v) returned at %d, but connection %d was handed out and is open until %d", d.all, d.at, v.f.id, end)
				}
			}
			if v.f.id >= 1000 {
				t.Fail("a connection that arrived after a drain had returned was handed out")
			}
			if n := v.f.nclose.Load(); v.disownAt.Load() == 0 && n != 1 || v.disownAt.Load() != 0 && n != 0 {
				t.Fail("transport %d was closed %d times (disowned at %d)", v.f.id, n, v.disownAt.Load())
			}
		}
		got := map[*fc]bool{}
		for _, v := range all {
			got[v.f] = true
		}
		for _, x := range transports {
			left := false
			select {
			case <-x.cl:
			default:
				left = true
			}
			if n := x.nclose.Load(); !got[x] && n > 1 {
				t.Fail("transport %d was refused and closed %d times", x.id, n)
			} else if !got[x] && left && x.id >= 1000 {
				t.Fail("transport %d was neither handed out nor closed", x.id)
			}
		}
		t.Count("connections handed out", int64(len(all)))
		t.Count("connections refused", refused.Load())
		t.Count("drains", int64(len(rets)))
		if len(all) > 0 {
			sort.Slice(rets, func(i, j int) bool { return rets[i].at < rets[j].at })
			t.Saw(fmt.Sprint("drain ", mode, pre, order, rets))
		} else {
			t.Saw("")
		}
		t.Sample(func() any {
			return fmt.Sprintf("mode %s: connections ended at %v, drains returned at %v, %d refused", modeNames[mode], order, rets, refused.Load())
		})
	})
	// A drain must wait for a transport whose Close is still in progress, whoever closes it.
	m.lrun("slow-close", size(m, race, pert, 1500, 300, 100, 20000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		entered, release := make(chan struct{}), make(chan struct{})
		fcn := newFC(0, nil)
		var once sync.Once
		fcn.onClose = func(*fc) { once.Do(func() { close(entered) }); <-release }
		f.ch <- fcn
		wc, err := l.Accept()
		if err != nil {
			t.Fail("Accept: %v", err)
			return
		}
		how, force := r.IntN(4), chance(r, 0.4)
		var drained, second atomic.Bool
		t.Desc(func() string { return fmt.Sprintf("mode %s, closed by %d, forced %v", modeNames[mode], how, force) })
		drain := func() {
			if force {
				l.DrainAll()
			} else {
				l.Drain()
			}
			drained.Store(true)
		}
		switch how {
		case 0:
			cr.Go("closer", func() { wc.Close() })
			<-entered
			cr.Go("drain", drain)
		case 1:
			cr.Go("shedder", func() { l.CloseIdle() })
			<-entered
			cr.Go("drain", drain)
		case 2:
			cr.Go("drain", drain)
			<-entered
		case 3:
			listener.MarkInUse(wc)
			cr.Go("first", func() { l.Drain(); second.Store(true) })
			if !cr.Until("drain", func() bool { q, _, _ := cr.picture(); return q }) {
				return
			}
			cr.Go("marker", func() { listener.MarkIdle(wc) })
			<-entered
			cr.Go("drain", drain)
		}
		for k := 20; k > 0; k-- {
			runtime.Gosched()
		}
		time.Sleep(time.Duration(r.IntN(3)) * 200 * time.Microsecond)
		if drained.Load() || second.Load() {
			t.Fail("a drain returns while the last connection's Close is still in progress")
		}
		close(release)
		if !cr.Join("drain does not return although the connection is closed") {
			return
		}
		if n := fcn.nclose.Load(); n != 1 {
			t.Fail("the transport was closed %d times", n)
		}
		t.Saw(fmt.Sprint("slow close ", mode, how, force))
	})
	// Many rounds of accept racing with drain on an otherwise empty listener.
	m.lrun("accept-drain", size(m, race, pert, 20000, 3000, 1500, 200000), pert, func(t *T) {
		r := t.Rng
		var clock atomic.Int64
		f := newFL()
		l := wrapMode(f, r.IntN(3))
		cr := newCrew(t)
		n := 1 + r.IntN(3)
		var xs []*fc
		for i := 0; i < n; i++ {
			x := newFC(i, &clock)
			xs = append(xs, x)
			f.ch <- x
		}
		busy := chance(r, 0.5)
		out := make([]int64, n) // 0 refused, else when it was over
		for i := 0; i < n; i++ {
			ra := sub(t)
			cr.Go(fmt.Sprint("acceptor", i), func() {
				wc, err := l.Accept()
				if err != nil {
					return
				}
				x := wc.LocalAddr().String()
				if busy {
					listener.MarkInUse(wc)
					jitter(ra)
				}
				wc.Close()
				for j := range xs {
					if x == fmt.Sprint("local", j) {
						out[j] = xs[j].closedAt.Load()
					}
				}
			})
		}
		var at int64
		rr := sub(t)
		cr.Go("drain", func() {
			jitter(rr)
			l.Drain()
			at = clock.Add(1)
		})
		if !cr.Join("accepting and draining do not end") {
			return
		}
		for i, x := range xs {
			if out[i] != 0 && out[i] > at {
				t.Fail("a drain returned at %d, but a connection was handed out and open until %d", at, out[i])
			}
			if k := x.nclose.Load(); k != 1 {
				t.Fail("a transport was closed %d times", k)
			}
		}
		t.Saw(fmt.Sprint("accept-drain ", busy, out, at))
	})
	if race {
		quietTrials(m)
	}
	if !race && !pert {
		m.trials("patience", m.N(6, 60), nil)
	}
}

// Transports are found by their address, which passes through the wrapper.
var registry sync.Map
var regN atomic.Int64

func register(x *fc) {
	x.id += int(regN.Add(1)) << 12
	registry.Store(fmt.Sprint("local", x.id), x)
	x.regID, x.id = x.id, x.id&(1<<12-1)
}
func unregister(x *fc) { registry.Delete(fmt.Sprint("local", x.regID)) }
func transportOf(c net.Conn) *fc {
	v, _ := registry.Load(c.LocalAddr().String())
	return v.(*fc)
}

func forget(all *[]*lev, mu *sync.Mutex) { mu.Lock(); *all = nil; mu.Unlock() }

// ---- L04

func runL04(m *M, race, pert bool) {
	m.lrun("disown", size(m, race, pert, 12000, 1500, 500, 120000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		N := 1 + r.IntN(8)
		if chance(r, 0.1) {
			N = 36
		}
		type dc struct {
			f                    *fc
			wc                   net.Conn
			ok, bad, ownerCloses int32
			inUse, closes        bool
			disownAt, openAt     atomic.Int64 // successful Disown begun, found open after a forced drain
		}
		var clock atomic.Int64
		conns := make([]*dc, N)
		gate := make(chan struct{})
		var gated atomic.Int32
		useGate := chance(r, 0.4)
		for i := range conns {
			c := &dc{f: newFC(i, nil)}
			if useGate {
				c.f.onClose = func(*fc) {
					if gated.Add(1) == 1 {
						<-gate
					}
				}
			}
			f.ch <- c.f
			wc, err := l.Accept()
			if err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			c.wc, c.inUse, c.closes = wc, chance(r, 0.6), chance(r, 0.2)
			if c.inUse {
				listener.MarkInUse(wc)
			}
			conns[i] = c
		}
		var started, finished atomic.Int32
		kinds := ""
		// forced drains that have returned must find nothing left open
		for k := 1 + r.IntN(3); k > 0; k-- {
			rr := sub(t)
			kind := pick(r, []int{0, 1, 2, 2, 2})
			kinds += fmt.Sprint(kind)
			started.Add(1)
			cr.Go("drain", func() {
				defer finished.Add(1)
				jitter(rr)
				switch kind {
				case 0:
					l.CloseIdle()
				case 1:
					l.Drain()
				case 2:
					l.DrainAll()
					at := clock.Add(1)
					for _, c := range conns {
						if !c.f.closed() {
							c.openAt.CompareAndSwap(0, at)
						}
					}
				}
			})
		}
		forced := strings.Contains(kinds, "2")
		for i, c := range conns {
			nd := 1 + r.IntN(2)
			if chance(r, 0.3) {
				nd = 0
			}
			if nd == 0 && !forced {
				c.closes = true
			}
			for j := 0; j < nd; j++ {
				ro := sub(t)
				cr.Go(fmt.Sprint("disowner", i, j), func() {
					jitter(ro)
					if ro.IntN(4) == 0 {
						listener.MarkIdle(c.wc)
					}
					at := clock.Add(1)
					if err := listener.Disown(c.wc); err == nil {
						c.disownAt.Store(at)
						atomic.AddInt32(&c.ok, 1)
					} else {
						atomic.AddInt32(&c.bad, 1)
					}
					// Late marks must not bring it back.
					switch ro.IntN(4) {
					case 0:
						listener.MarkIdle(c.wc)
					case 1:
						listener.MarkInUse(c.wc)
						listener.MarkIdle(c.wc)
					case 2:
						c.wc.SetReadDeadline(time.Unix(5, 0))
					}
				})
			}
			if c.closes {
				ro := sub(t)
				cr.Go(fmt.Sprint("closer", i), func() {
					for k := 0; k < 3; k++ {
						jitter(ro)
					}
					c.wc.Close()
					atomic.AddInt32(&c.ownerCloses, 1)
				})
			}
		}
		t.Desc(func() string {
			return fmt.Sprintf("mode %s, %d connections, drains %s, gate %v", modeNames[mode], N, kinds, useGate)
		})
		if useGate {
			for k := r.IntN(30); k > 0; k-- {
				jitter(r)
			}
		}
		close(gate)
		if !cr.Join("disowning and draining do not end") {
			return
		}
		out := ""
		for i, c := range conns {
			n := c.f.nclose.Load()
			out += fmt.Sprint(n, c.ok, c.bad, " ")
			if c.ok > 1 {
				t.Fail("connection %d was disowned %d times", i, c.ok)
			}
			if at := c.openAt.Load(); at != 0 && (c.ok == 0 || c.disownAt.Load() > at) {
				t.Fail("a forced drain returned at %d and left connection %d open, which was not disowned by then (disowned %d times, at %d)", at, i, c.ok, c.disownAt.Load())
			}
			switch {
			case c.ok == 1 && !c.closes && n != 0:
				t.Fail("connection %d was disowned, but its transport has been closed", i)
			case c.ok == 1 && c.closes && n > 1:
				t.Fail("connection %d was disowned and closed once by its owner, but its transport was closed %d times", i, n)
			case c.ok == 0 && c.bad > 0 && n == 0:
				t.Fail("Disown of connection %d failed although it was neither closed nor disowned", i)
			case c.ok == 0 && n != 1 && (forced || c.closes):
				t.Fail("connection %d was not disowned, and its transport was closed %d times", i, n)
			}
			if c.ok == 1 && !c.closes {
				// It still works, and nothing touches it now.
				l.CloseIdle()
				c.f.data <- chunk{b: "hi"}
				b := make([]byte, 4)
				if k, err := c.wc.Read(b); k != 2 || err != nil || c.f.closed() {
					t.Fail("reading from disowned connection %d gives %d, %v (closed %v)", i, k, err, c.f.closed())
				}
				listener.MarkIdle(c.wc)
				l.CloseIdle()
				if listener.Disown(c.wc) == nil {
					t.Fail("connection %d can be disowned twice", i)
				}
				if c.f.closed() {
					t.Fail("disowned connection %d was closed by the listener", i)
				}
				c.wc.Close()
				if c.f.nclose.Load() != 1 {
					t.Fail("Close of disowned connection %d does not reach the transport", i)
				}
			} else if n > 0 && c.ok == 0 && listener.Disown(c.wc) == nil {
				t.Fail("closed connection %d can be disowned", i)
			}
		}
		t.Saw(fmt.Sprint("disown ", mode, kinds, out))
		t.Count("connections", int64(N))
		t.Sample(func() any {
			return fmt.Sprintf("mode %s, drains %s: closes, successful and failed disowns: %s", modeNames[mode], kinds, out)
		})
	})
	// Forced draining is held up in the middle while other connections are disowned.
	m.lrun("held-up", size(m, race, pert, 3000, 400, 150, 30000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		N := 2 + r.IntN(40)
		entered, release := make(chan *fc, 1), make(chan struct{})
		var n atomic.Int32
		var fs []*fc
		var wcs []net.Conn
		for i := 0; i < N; i++ {
			x := newFC(i, nil)
			x.onClose = func(x *fc) {
				if n.Add(1) == 1 {
					entered <- x
					<-release
				}
			}
			f.ch <- x
			wc, err := l.Accept()
			if err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			if chance(r, 0.7) {
				listener.MarkInUse(wc)
			}
			fs, wcs = append(fs, x), append(wcs, wc)
		}
		how := r.IntN(3)
		if how == 2 {
			listener.MarkIdle(wcs[0])
		}
		t.Desc(func() string { return fmt.Sprintf("mode %s, %d connections, how %d", modeNames[mode], N, how) })
		cr.Go("drain", func() {
			if how == 2 {
				l.CloseIdle()
			}
			l.DrainAll()
		})
		held := <-entered
		ok := map[int]bool{}
		for i := range wcs {
			if fs[i] == held || chance(r, 0.3) {
				continue
			}
			was := fs[i].closed()
			if err := listener.Disown(wcs[i]); err == nil {
				if was {
					t.Fail("closed connection %d can be disowned", i)
				}
				ok[i] = true
			}
		}
		dis := make(chan error, 1)
		cr.Go("late", func() { dis <- listener.Disown(wcs[held.id]) })
		for k := r.IntN(20); k > 0; k-- {
			jitter(r)
		}
		close(release)
		if !cr.Join("a forced drain does not return") {
			return
		}
		if err := <-dis; err == nil {
			t.Fail("a connection that was being closed can be disowned")
		}
		for i, x := range fs {
			if want := !ok[i]; x.closed() != want {
				t.Fail("after a forced drain connection %d is closed %v (disowned %v)", i, x.closed(), ok[i])
			}
		}
		t.Count("connections disowned in the middle of a forced drain", int64(len(ok)))
		if len(ok) > 0 {
			t.Saw(fmt.Sprint("held-up ", mode, N, how, held.id, len(ok)))
		} else {
			t.Saw("")
		}
	})
	if race {
		quietTrials(m)
	}
}

// ---- L05

func runL05(m *M, race, pert bool) {
	m.lrun("chaos", size(m, race, pert, 6000, 800, 400, 80000), pert, func(t *T) {
		r := t.Rng
		mode := r.IntN(3)
		f := newFL()
		l := wrapMode(f, mode)
		cr := newCrew(t)
		N := 1 + r.IntN(6)
		G := 2 + r.IntN(4)
		fcs := make([]*fc, N)
		wcs := make([]net.Conn, N)
		disowned := make([]atomic.Int32, N)
		ownCloses := make([]atomic.Int32, N) // Close calls that may have reached the transport because it was disowned
		for i := range fcs {
			fcs[i] = newFC(i, nil)
			f.ch <- fcs[i]
			var err error
			if wcs[i], err = l.Accept(); err != nil {
				t.Fail("Accept: %v", err)
				return
			}
		}
		noDisown := chance(r, 0.5)
		var ops atomic.Int64
		for g := 0; g < G; g++ {
			rg := sub(t)
			cr.Go(fmt.Sprint("worker", g), func() {
				for k := 0; k < 30; k++ {
					ops.Add(1)
					i := rg.IntN(N)
					switch rg.IntN(12) {
					case 0, 1:
						listener.MarkIdle(wcs[i])
					case 2, 3:
						listener.MarkInUse(wcs[i])
					case 4, 5:
						select {
						case fcs[i].data <- chunk{b: "x"}:
						default:
						}
						// There may be more readers than data, so leave it to a
						// helper; closing the transport ends it.
						cr.Go("reader", func() { wcs[i].Read(make([]byte, 4)) })
					case 6:
						wcs[i].SetReadDeadline(time.Unix(9, 0))
					case 7:
						wcs[i].Write([]byte("y"))
					case 8:
						if k > 10 {
							ownCloses[i].Add(1)
							wcs[i].Close()
						}
					case 9:
						if !noDisown && k > 5 {
							if listener.Disown(wcs[i]) == nil {
								disowned[i].Add(1)
							}
						}
					case 10:
						if rg.IntN(3) == 0 {
							l.CloseIdle()
						}
					case 11:
						if k > 20 && rg.IntN(4) == 0 {
							cr.Go("drain", func() {
								if rg2 := k & 1; rg2 == 0 {
									l.Drain()
								} else {
									l.DrainAll()
								}
							})
						}
					}
				}
			})
		}
		t.Desc(func() string { return fmt.Sprintf("mode %s, %d connections, %d workers", modeNames[mode], N, G) })
		end := func() bool {
			for i, wc := range wcs {
				ownCloses[i].Add(1)
				wc.Close()
			}
			return true
		}
		// Workers first, then everything is closed, which ends readers and drains.
		if !cr.Until("workers do not end", func() bool {
			cr.mu.Lock()
			defer cr.mu.Unlock()
			for _, n := range cr.live {
				if strings.HasPrefix(n, "worker") {
					return false
				}
			}
			return true
		}) {
			return
		}
		end()
		if !cr.Join("readers and drains do not end although everything is closed") {
			return
		}
		if cr2 := newCrew(t); true {
			cr2.Go("drain", func() { l.Drain() })
			if !cr2.Join("a drain with no connections left does not return") {
				return
			}
		}
		for i, x := range fcs {
			n := x.nclose.Load()
			if disowned[i].Load() > 1 {
				t.Fail("connection %d was disowned twice", i)
			} else if disowned[i].Load() == 0 && n != 1 {
				t.Fail("the transport of connection %d was closed %d times", i, n)
			} else if disowned[i].Load() == 1 && n > ownCloses[i].Load() {
				t.Fail("the transport of disowned connection %d was closed %d times although its owner closed it %d times", i, n, ownCloses[i].Load())
			}
		}
		t.Count("operations", ops.Load())
		t.Saw(fmt.Sprint("chaos ", mode, N, G, t.Index))
	})
	m.RunSerial("retention", m.N(60, 2000), func(t *T) { retention(t) })
	if !race && !pert {
		m.RunSerial("many", m.N(2, 12), func(t *T) { manyConns(t, false) })
		m.RunSerial("crowd", m.N(4, 30), func(t *T) { manyConns(t, true) })
		m.RunSerial("volume", m.N(12, 200), volume)
	}
	m.lrun("pass-through", size(m, race, pert, 4000, 100, 50, 10000), false, passThrough)
	if race {
		quietTrials(m)
	}
}

// manyConns hands out far more connections in the life of one listener than any
// counter of two bytes can tell apart; in a crowd, nearly all of them are open at
// the same time.
func manyConns(t *T, crowd bool) {
	r := t.Rng
	mode := r.IntN(3)
	f := newFL()
	l := wrapMode(f, mode)
	N := 66000 + r.IntN(8000)
	keep := 1. / 500
	if crowd {
		keep = 0.95
		if t.Index%4 > 1 {
			N = 1 + r.IntN(20000)
		}
	}
	drain := crowd && t.Index%2 == 0
	type pair struct {
		f    *fc
		wc   net.Conn
		idle bool
	}
	var kept []pair
	handed := 0
	t.Desc(func() string { return fmt.Sprintf("mode %s, %d connections, %d accepted", modeNames[mode], N, handed) })
	for i := 0; i < N; i++ {
		x := newFC(i, nil)
		f.ch <- x
		wc, err := l.Accept()
		handed++
		if err != nil {
			t.Fail("Accept: %v", err)
			return
		}
		if chance(r, keep) {
			idle := r.IntN(3) == 0
			if crowd {
				idle = !idle
			}
			if idle {
				listener.MarkIdle(wc)
			} else {
				listener.MarkInUse(wc)
			}
			kept = append(kept, pair{x, wc, idle})
			continue
		}
		if err := wc.Close(); err != nil || x.nclose.Load() != 1 {
			t.Fail("Close of connection %d returns %v, its transport was closed %d times", i, err, x.nclose.Load())
			return
		}
	}
	if !drain {
		l.CloseIdle()
	}
	for _, k := range kept {
		want := int32(0)
		if k.idle {
			want = 1
		}
		if drain {
			break
		}
		if n := k.f.nclose.Load(); n != want {
			t.Fail("after CloseIdle the transport of connection %d (idle: %v) was closed %d times", k.f.id, k.idle, n)
			return
		}
	}
	cr := newCrew(t)
	if drain {
		var over atomic.Bool
		cr.Go("drain", func() { l.Drain(); over.Store(true) })
		if !cr.Until("a drain does not close the idle connections", func() bool {
			for _, k := range kept {
				if k.idle && k.f.nclose.Load() == 0 {
					return false
				}
			}
			return true
		}) {
			return
		}
		for _, k := range kept {
			if !k.idle {
				if n := k.f.nclose.Load(); n != 0 || over.Load() {
					t.Fail("with connections in use, the drain has returned: %v, and the transport of connection %d was closed %d times", over.Load(), k.f.id, n)
					return
				}
				k.wc.Close()
			}
		}
	} else {
		cr.Go("drain", func() { l.DrainAll() })
	}
	if !cr.Join("a drain does not return") {
		return
	}
	for _, k := range kept {
		if n := k.f.nclose.Load(); n != 1 {
			t.Fail("after the drain the transport of connection %d (idle: %v) was closed %d times", k.f.id, k.idle, n)
			return
		}
	}
	t.Count("connections", int64(handed))
	t.Saw(fmt.Sprint("many ", mode, N, len(kept), drain))
}

// volume moves more bytes over one connection than any counter of four bytes
// can tell apart.
func volume(t *T) {
	r := t.Rng
	x := &countConn{}
	f := newFL()
	l := wrapMode(f, r.IntN(3))
	f.ch <- x
	wc, err := l.Accept()
	if err != nil {
		t.Fail("Accept: %v", err)
		return
	}
	var in, out int64
	for k := 0; k < 4; k++ {
		size := int64(1) << (10 + r.IntN(24))
		size += r.Int64N(size)
		switch r.IntN(3) {
		case 0:
			n, err := io.Copy(wc, &zeroSrc{left: size})
			if out += size; n != size || err != nil || x.out != out {
				t.Fail("copying %d bytes to the connection gives %d, %v; its transport received %d instead of %d bytes", size, n, err, x.out, out)
			}
		case 1:
			size &= 1<<28 - 1
			n, err := wc.Write(zeroes[:size])
			if out += size; int64(n) != size || err != nil || x.out != out {
				t.Fail("writing %d bytes gives %d, %v; the transport received %d instead of %d bytes", size, n, err, x.out, out)
			}
		case 2:
			x.left = size
			n, err := io.Copy(nowhere{}, wc)
			if in += size; n != size || err != nil || x.left != 0 {
				t.Fail("copying %d bytes from the connection gives %d, %v, and %d remain", size, n, err, x.left)
			}
		}
	}
	wc.Close()
	t.Count("bytes", in+out)
	t.Saw(fmt.Sprint("volume ", in, out))
}

var zeroes = make([]byte, 1<<28)

// zeroSrc is a source of that many bytes.
type zeroSrc struct{ left int64 }

func (z *zeroSrc) Read(b []byte) (int, error) {
	if z.left == 0 {
		return 0, io.EOF
	}
	n := int(min(int64(len(b)), z.left))
	z.left -= int64(n)
	return n, nil
}

type nowhere struct{}

func (nowhere) Write(b []byte) (int, error) { return len(b), nil }

// countConn is a transport that counts.
type countConn struct {
	qc
	zeroSrc
	out int64
}

func (c *countConn) Read(b []byte) (int, error) { return c.zeroSrc.Read(b) }
func (c *countConn) Write(b []byte) (int, error) {
	c.out += int64(len(b))
	return len(b), nil
}

// retention checks that a listener does not keep connections that are over.
func retention(t *T) {
	r := t.Rng
	mode := r.IntN(3)
	f := newFL()
	l := wrapMode(f, mode)
	var weaks []weak.Pointer[fc]
	var hist []string
	cr := newCrew(t)
	t.Desc(func() string { return modeNames[mode] + " " + strings.Join(hist, "; ") })
	var kept []net.Conn
	draining := chance(r, 0.4)
	N := 2 + r.IntN(12)
	func() {
		var wcs []net.Conn
		for i := 0; i < N; i++ {
			x := newFC(i, nil)
			f.ch <- x
			wc, err := l.Accept()
			if err != nil {
				t.Fail("Accept: %v", err)
				return
			}
			wcs = append(wcs, wc)
			weaks = append(weaks, weak.Make(x))
		}
		if draining {
			for _, wc := range wcs {
				listener.MarkInUse(wc)
			}
			cr.Go("drain", func() { l.Drain() })
			if !cr.Until("drain", func() bool { q, _, _ := cr.picture(); return q }) {
				return
			}
			// One that is refused must not be kept either.
			x := newFC(N, nil)
			f.ch <- x
			if _, err := l.Accept(); err == nil {
				t.Fail("a draining listener hands out a connection")
			}
			weaks = append(weaks, weak.Make(x))
		}
		for i, wc := range wcs {
			h := ""
			for k := r.IntN(4); k > 0; k-- {
				switch r.IntN(3) {
				case 0:
					listener.MarkInUse(wc)
					h += "u"
				case 1:
					if !draining {
						listener.MarkIdle(wc)
						h += "i"
					}
				case 2:
					if x := weaks[i].Value(); !x.closed() {
						x.data <- chunk{b: "x"}
						wc.Read(make([]byte, 2))
						h += "r"
					}
				}
			}
			switch k := r.IntN(6); {
			case k < 2:
				wc.Close()
				h += "C"
			case k < 4:
				listener.Disown(wc)
				h += "D"
			case k == 4:
				listener.MarkIdle(wc)
				l.CloseIdle()
				h += "S"
			default:
				weaks[i].Value().Close() // the transport breaks
				wc.Read(make([]byte, 2))
				wc.Close()
				h += "B"
			}
			for k := r.IntN(4); k > 0; k-- {
				switch r.IntN(5) {
				case 0:
					listener.MarkInUse(wc)
					h += "u"
				case 1:
					listener.MarkIdle(wc)
					h += "i"
				case 2:
					wc.SetReadDeadline(time.Unix(1, 0))
					h += "d"
				case 3:
					wc.Close()
					h += "c"
				case 4:
					listener.Disown(wc)
					h += "o"
				}
			}
			hist = append(hist, h)
		}
		if !draining && chance(r, 0.5) {
			// Some of them stay alive; that must not keep the others.
			x := newFC(N+1, nil)
			f.ch <- x
			if wc, err := l.Accept(); err == nil {
				kept = append(kept, wc)
			}
		}
		clear(wcs)
	}()
	if t.nfail.Load() > 0 || draining && !cr.Join("a drain does not return although every connection is over") {
		return
	}
	for try := 0; ; try++ {
		runtime.GC()
		left := 0
		for i := range weaks {
			if weaks[i].Value() != nil {
				left++
			}
		}
		if left == 0 {
			break
		}
		if try == 12 {
			t.Fail("the listener still refers to %d of %d connections that are closed or disowned", left, len(weaks))
			break
		}
		time.Sleep(time.Duration(try) * time.Millisecond)
	}
	runtime.KeepAlive(l)
	runtime.KeepAlive(kept)
	t.Count("connections checked for retention", int64(len(weaks)))
	t.Saw("retention " + modeNames[mode] + strings.Join(hist, ","))
	t.Sample(func() any {
		return fmt.Sprintf("mode %s, draining %v, histories %v: none retained", modeNames[mode], draining, hist)
	})
}

func passThrough(t *T) {
	r := t.Rng
	mode := r.IntN(3)
	f := newFL()
	l := wrapMode(f, mode)
	if l.Addr() != f.Addr() {
		t.Fail("Addr is %v", l.Addr())
	}
	for k := r.IntN(3); k > 0; k-- {
		e1 := pick(r, []error{
			fmt.Errorf("accept error %d", r.IntN(1000)), io.EOF, net.ErrClosed, os.ErrDeadlineExceeded, context.Canceled,
			&net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.EMFILE)}, // temporary
			&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}, &net.DNSError{IsTimeout: true, IsTemporary: true}, syscall.EINTR,
		})
		f.ch <- e1
		if c, err := l.Accept(); c != nil || err != e1 {
			t.Fail("Accept gives %v, %v instead of the listener's error", c, err)
		}
	}
	x := newFC(7, nil)
	f.ch <- x
	wc, err := l.Accept()
	if err != nil {
		t.Fail("Accept: %v", err)
		return
	}
	if wc.LocalAddr() != x.LocalAddr() || wc.RemoteAddr() != x.RemoteAddr() {
		t.Fail("addresses %v, %v", wc.LocalAddr(), wc.RemoteAddr())
	}
	listener.MarkInUse(wc)
	dis := chance(r, 0.3)
	if dis {
		listener.Disown(wc)
	}
	var sent, key strings.Builder
	for k := 2 + r.IntN(8); k > 0; k-- {
		switch r.IntN(6) {
		case 0, 1:
			c := chunk{strings.Repeat("z", r.IntN(6)), pick(r, []error{nil, nil, io.EOF, errors.New("weird")})}
			x.data <- c
			b := make([]byte, 8)
			n, err := wc.Read(b)
			if string(b[:n]) != c.b || err != c.err {
				t.Fail("Read gives %q, %v instead of %q, %v", b[:n], err, c.b, c.err)
			}
			fmt.Fprint(&key, "r", c)
		case 2, 3:
			s := strings.Repeat("w", 1+r.IntN(9))
			x.devErr = pick(r, []error{nil, nil, errors.New("broken")})
			n, err := wc.Write([]byte(s))
			if x.devErr == nil {
				sent.WriteString(s)
				if n != len(s) || err != nil {
					t.Fail("Write of %d bytes gives %d, %v", len(s), n, err)
				}
			} else if n != len(s)/2 || err != x.devErr {
				t.Fail("Write gives %d, %v instead of the transport's %d, %v", n, err, len(s)/2, x.devErr)
			}
			fmt.Fprint(&key, "w", len(s), x.devErr)
			x.devErr = nil
		case 4:
			// From a source that delivers bit by bit and may fail halfway.
			s := strings.Repeat("c", r.IntN(50000))
			src := &bitSource{s: s, step: 1 + r.IntN(20000), err: pick(r, []error{nil, nil, errors.New("source breaks")})}
			n, err := io.Copy(wc, src)
			sent.WriteString(s)
			if n != int64(len(s)) || err != src.err {
				t.Fail("copying %d bytes (then: %v) to the connection gives %d, %v", len(s), src.err, n, err)
			}
			fmt.Fprint(&key, "c", len(s))
		case 5:
			tm := time.Unix(int64(r.IntN(1000)), 0)
			x.devErr = pick(r, []error{nil, errors.New("no deadlines")})
			w := r.IntN(3)
			got := []func(time.Time) error{wc.SetDeadline, wc.SetReadDeadline, wc.SetWriteDeadline}[w](tm)
			if got != x.devErr || x.deadlines[len(x.deadlines)-1] != []string{"both", "read", "write"}[w]+tm.String() {
				t.Fail("setting deadline %d gives %v instead of %v, transport saw %v", w, got, x.devErr, x.deadlines)
			}
			x.devErr = nil
			fmt.Fprint(&key, "d", w, got)
		}
	}
	if x.wrote.String() != sent.String() {
		t.Fail("the transport received other bytes than were written")
	}
	x.closeErr = pick(r, []error{nil, errors.New("close error")})
	if err := wc.Close(); err != x.closeErr {
		t.Fail("Close gives %v instead of the transport's %v", err, x.closeErr)
	}
	if dis {
		// Its owner may do what it likes; all of it reaches the transport.
		for k := r.IntN(3); k > 0; k-- {
			n0 := x.nclose.Load()
			x.closeErr = pick(r, []error{nil, errors.New("already closed")})
			if err := wc.Close(); err != x.closeErr || x.nclose.Load() != n0+1 {
				t.Fail("closing a disowned connection again gives %v instead of the transport's %v", err, x.closeErr)
			}
			if n, err := wc.Read(make([]byte, 3)); n != 0 || err != errFC {
				t.Fail("reading from a disowned and closed connection gives %d, %v instead of the transport's %v", n, err, errFC)
			}
		}
	}
	f.err = pick(r, []error{nil, errors.New("listener close error")})
	if err := l.Close(); err != f.err || f.ncl.Load() != 1 {
		t.Fail("Close of the listener gives %v instead of %v (closed %d times)", err, f.err, f.ncl.Load())
	}
	if _, err := l.Accept(); err != errFL {
		t.Fail("Accept on a closed listener gives %v instead of the listener's own error", err)
	}
	t.Saw("pass " + modeNames[mode] + key.String())
}

type bitSource struct {
	s    string
	step int
	err  error
}

func (b *bitSource) Read(p []byte) (int, error) {
	if b.s == "" {
		if b.err == nil {
			return 0, io.EOF
		}
		return 0, b.err
	}
	n := copy(p, b.s[:min(b.step, len(b.s))])
	b.s = b.s[n:]
	return n, nil
}

// ---- quiet trials: the fakes neither synchronise nor record, so that nothing
// hides data races inside the package from the race detector.

type qc struct{}

//go:norace
func (qc) Read(b []byte) (int, error)         { return len(b), nil }
func (qc) Write(b []byte) (int, error)        { return len(b), nil }
func (qc) Close() error                       { return nil }
func (qc) LocalAddr() net.Addr                { return nil }
func (qc) RemoteAddr() net.Addr               { return nil }
func (qc) SetDeadline(t time.Time) error      { return nil }
func (qc) SetReadDeadline(t time.Time) error  { return nil }
func (qc) SetWriteDeadline(t time.Time) error { return nil }

type ql struct{ qc }

func (ql) Accept() (net.Conn, error) { return &qc{}, nil }
func (ql) Addr() net.Addr            { return nil }

func quietTrials(m *M) {
	sites := envInt("VH_SITES")
	m.RunSerial("quiet", m.N(250, 40000), func(t *T) {
		r := t.Rng
		perturb(r, sites)
		mode := r.IntN(3)
		l := wrapMode(ql{}, mode)
		cr := newCrew(t)
		N := 1 + r.IntN(4)
		wcs := make([]net.Conn, N)
		for i := range wcs {
			wcs[i], _ = l.Accept()
		}
		G := 3 + r.IntN(3)
		total := 0
		for g := 0; g < G; g++ {
			rg := sub(t)
			acceptor := g == 0
			total += 25
			cr.Go(fmt.Sprint("w", g), func() {
				b := make([]byte, 2)
				for k := 0; k < 25; k++ {
					c := wcs[rg.IntN(N)]
					if acceptor && rg.IntN(3) == 0 {
						if x, err := l.Accept(); err == nil {
							if rg.IntN(2) == 0 {
								x.Close()
							}
							c = x
						}
					}
					switch rg.IntN(12) {
					case 0, 1:
						listener.MarkIdle(c)
					case 2, 3:
						listener.MarkInUse(c)
					case 4, 5:
						c.Read(b)
					case 6:
						c.SetReadDeadline(time.Time{})
					case 7:
						if k > 5 {
							c.Close()
						}
					case 8:
						if k > 5 && rg.IntN(2) == 0 {
							listener.Disown(c)
						}
					case 9, 10:
						l.CloseIdle()
					case 11:
						if k > 15 {
							l.DrainAll()
						}
					}
				}
			})
		}
		if !cr.Join("workers do not end") {
			return
		}
		vfsched.Off()
		t.Count("unobserved operations under the race detector", int64(total))
		t.Saw(fmt.Sprint("quiet ", t.Index))
	})
}

func rng2(r *rand.Rand) *rand.Rand { return rand.New(rand.NewPCG(r.Uint64(), r.Uint64())) }
