package main

import (
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// crew is the set of goroutines of one case. Nothing else knows the objects they
// work on, so if all of them are blocked and stay so, they are stuck for ever.
type crew struct {
	t    *T
	mu   sync.Mutex
	live map[string]string // goroutine id -> name
	n    atomic.Int64
	done chan struct{}
}

func newCrew(t *T) *crew { return &crew{t: t, live: map[string]string{}} }

// Go runs f. A panic in it is a violation if goji was involved.
func (c *crew) Go(name string, f func()) {
	c.n.Add(1)
	c.mu.Lock()
	c.live["?"+name] = name
	c.mu.Unlock()
	go func() {
		id := goid()
		c.mu.Lock()
		delete(c.live, "?"+name)
		c.live[id] = name
		c.mu.Unlock()
		defer func() {
			if p := recover(); p != nil {
				b := make([]byte, 1<<16)
				st := string(b[:runtime.Stack(b, false)])
				if !hasGoji(st) {
					panic(p)
				}
				c.t.Fail("panic: %v\n%s", p, st)
			}
			c.mu.Lock()
			delete(c.live, id)
			c.mu.Unlock()
			c.n.Add(-1)
		}()
		f()
	}()
}

// QuickGo is Go without goroutine bookkeeping that would order goroutines.
func (c *crew) running() int64 { return c.n.Load() }

// Until waits for cond. It fails the case and returns false if cond does not hold
// and the crew can make no further progress; why says what was expected.
func (c *crew) Until(why string, cond func() bool) bool {
	for i := 0; i < 200; i++ {
		if cond() {
			return true
		}
		runtime.Gosched()
	}
	d := 20 * time.Microsecond
	start := time.Now()
	for time.Since(start) < 4*time.Second {
		if cond() {
			return true
		}
		time.Sleep(d)
		if d < 2*time.Millisecond {
			d *= 2
		}
	}
	var first, last string
	same := 0
	var polls rest
	for time.Since(start) < 90*time.Second {
		if cond() {
			return true
		}
		quiet, pic, raw := c.picture()
		if quiet && pic == first {
			same++
		} else {
			same, first = 0, pic
		}
		last = raw
		if polls.add(pic) && !cond() {
			c.t.Fail("%s: every goroutine involved waits, sleeps or polls and nothing happens\n%s", why, last)
			return false
		}
		if quiet && same >= 20 {
			if cond() {
				return true
			}
			c.t.Fail("%s: every goroutine involved is blocked for good\n%s", why, last)
			return false
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.t.m.Inconclusive("%s:%d: %s: no end in sight\n%s", c.t.Label, c.t.Index, why, last)
	return false
}

// Join waits for all of the crew.
func (c *crew) Join(why string) bool {
	return c.Until(why, func() bool { return c.n.Load() == 0 })
}

func (c *crew) picture() (quiet bool, pic, raw string) {
	c.mu.Lock()
	ids := map[string]bool{}
	for id := range c.live {
		ids[id] = true
	}
	c.mu.Unlock()
	var mine []string
	seen := 0
	all := strings.Split(allStacks(), "\n\n")
	for _, g := range all {
		f := strings.SplitN(g, " ", 3)
		if len(f) == 3 && f[0] == "goroutine" && ids[f[1]] {
			mine = append(mine, g)
			seen++
		}
	}
	n := len(ids)
	// And those that goji starts on their behalf.
	for more := true; more; {
		more = false
		for _, g := range all {
			f := strings.SplitN(g, " ", 3)
			i := strings.LastIndex(g, "\ncreated by github.com/zenazn/goji")
			if len(f) != 3 || i < 0 || ids[f[1]] {
				continue
			}
			ln, _, _ := strings.Cut(g[i+1:], "\n")
			if j := strings.LastIndexByte(ln, ' '); ids[ln[j+1:]] {
				ids[f[1]] = true
				mine = append(mine, g)
				more = true
			}
		}
	}
	raw = strings.Join(mine, "\n\n")
	quiet, pic = quiescent(raw)
	return quiet && seen == n, pic, raw
}
