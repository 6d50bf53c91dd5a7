package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji/graceful"

	"vh/vfsched"
)

// Package graceful keeps its state in global variables, so each trial is a
// process of its own: mon gtrial PROPERTY LABEL SEED INDEX. Servers, clients and
// monitors all live in it, share one logical clock, and it reports in JSON.

type gtResult struct {
	Fails  []string
	Incon  []string
	Counts map[string]int64
	Key    string
	Obs    string
	Desc   string
	Known  map[string]string
	Sites  int
	Hits   uint64
}

type gt struct {
	r     *rand.Rand
	clock atomic.Int64
	mu    sync.Mutex
	res   gtResult
	label string
	idx   int
	keep  []any

	shared *graceful.Server
}

var gtrials = map[string]func(*gt){}

func init() {
	children["gtrial"] = func(a []string) {
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		idx, _ := strconv.Atoi(a[3])
		m := &M{Prop: a[0], Seed: seed}
		g := &gt{r: m.rng(a[1], idx), label: a[1], idx: idx}
		g.res.Counts, g.res.Known = map[string]int64{}, map[string]string{}
		log.SetOutput(io.Discard)
		perturbSome(g.r)
		gtrials[a[0]+"/"+a[1]](g)
		g.finish()
	}
}

// perturbSome slows down a place in package graceful or bind, if this build can.
func perturbSome(r *rand.Rand) {
	b, err := os.ReadFile(os.Getenv("VH_SITEFILE"))
	if err != nil {
		return
	}
	var all []string
	json.Unmarshal(b, &all)
	var mine, app []int
	for i, s := range all {
		if strings.Contains(s, "/graceful/") || strings.Contains(s, "/bind/") {
			mine = append(mine, i)
		} else if !strings.Contains(s, "/web/") {
			app = append(app, i) // package goji itself
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "appchild" && len(app) > 0 && r.IntN(3) == 0 {
		mine = app
	}
	switch r.IntN(4) {
	case 0:
		vfsched.Set(20000, 200, -1, 0, 0)
	case 1:
		vfsched.Set(3000, 2000, -1, 0, 0)
	default:
		if len(mine) > 0 {
			vfsched.Set(3000, 100, pick(r, mine), 60000, time.Duration(1+r.IntN(8))*time.Millisecond)
		}
	}
}

func (g *gt) finish() {
	g.mu.Lock()
	g.res.Sites, g.res.Hits = vfsched.Hits()
	b, _ := json.Marshal(&g.res)
	os.Stdout.Write(b)
	os.Exit(0)
}

func (g *gt) tick() int64 { return g.clock.Add(1) }

func (g *gt) fail(format string, a ...any) {
	g.mu.Lock()
	if len(g.res.Fails) < 5 {
		g.res.Fails = append(g.res.Fails, clip(fmt.Sprintf(format, a...), 5000))
	}
	g.mu.Unlock()
}

func (g *gt) count(k string, n int64) { g.mu.Lock(); g.res.Counts[k] += n; g.mu.Unlock() }
func (g *gt) desc(format string, a ...any) {
	g.mu.Lock()
	g.res.Desc += fmt.Sprintf(format, a...) + "; "
	g.mu.Unlock()
}
func (g *gt) incon(format string, a ...any) {
	g.mu.Lock()
	g.res.Incon = append(g.res.Incon, clip(fmt.Sprintf(format, a...), 4000))
	g.mu.Unlock()
	g.finish()
}

const noEnd = "no end in sight"

// until waits for cond. If the whole process comes to rest without it, it never
// will hold: the trial fails and ends.
func (g *gt) until(why string, cond func() bool) {
	d := 20 * time.Microsecond
	start := time.Now()
	for time.Since(start) < 4*time.Second {
		if cond() {
			return
		}
		time.Sleep(d)
		if d < 2*time.Millisecond {
			d *= 2
		}
	}
	var first, raw string
	same := 0
	var polls rest
	for time.Since(start) < 45*time.Second {
		if cond() {
			return
		}
		raw = allStacks()
		quiet, pic := quiescent(raw, "main.(*gt).until", "main.sleepForever")
		if quiet && pic == first {
			same++
		} else {
			same, first = 0, pic
		}
		if polls.add(pic) && !cond() {
			g.fail("%s: every goroutine waits, sleeps or polls and nothing happens\n%s", why, raw)
			g.finish()
		}
		if same >= 20 && !cond() {
			g.fail("%s: the process has come to rest\n%s", why, raw)
			g.finish()
		}
		time.Sleep(100 * time.Millisecond)
	}
	g.incon("%s: %s\n%s", why, noEnd, raw)
}

// settle lets things happen that should not.
func (g *gt) settle() {
	for i := 0; i < 40; i++ {
		time.Sleep(500 * time.Microsecond)
		if i >= 10 {
			if q, _ := quiescent(allStacks(), "main.(*gt).settle", "main.sleepForever"); q {
				return
			}
		}
	}
}

// trials runs n trials of a property, each in a process.
func (m *M) trials(label string, n int, env func(t *T) []string) {
	self, err := os.Executable()
	if err != nil {
		m.Inconclusive("%v", err)
		return
	}
	par := 8
	var once func(t *T, tries int) bool
	// once says whether there is no need to try again.
	once = func(t *T, tries int) bool {
		last := tries == 3
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, self, "gtrial", m.Prop, label, fmt.Sprint(m.Seed), fmt.Sprint(t.Index))
		cmd.Env = os.Environ()
		if env != nil {
			cmd.Env = append(cmd.Env, env(t)...)
		}
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := cmd.Run()
		var res gtResult
		if jerr := json.Unmarshal(so.Bytes(), &res); jerr != nil {
			msg := se.String()
			if i := strings.Index(msg, "panic: "); i >= 0 && hasGojiFrames(msg[i:]) {
				t.Fail("the process panics:\n%s", clip(msg[i:], 4000))
			} else if i := strings.Index(msg, "fatal error: "); i >= 0 && hasGojiFrames(msg[i:]) {
				t.Fail("the process dies:\n%s", clip(msg[i:], 4000))
			} else if err == nil || err.Error() == "exit status 1" {
				t.Fail("goji ended the process: %v %s", err, clip(msg, 3000))
			} else if x, ok := err.(*exec.ExitError); ok && m.Prop == "G03" && strings.Contains(" interrupt hangup user defined signal 1 user defined signal 2 ", " "+x.Sys().(syscall.WaitStatus).Signal().String()+" ") {
				t.Fail("a signal ended the process, although the program has asked for all of them: %v", err)
			} else {
				if !last {
					return false
				}
				m.Inconclusive("%s:%d: %v %s", label, t.Index, err, clip(msg, 3000))
			}
			return true
		}
		if len(res.Fails) == 0 && len(res.Incon) > 0 && !last {
			return false
		}
		t.Desc(func() string { return res.Desc })
		for _, f := range res.Fails {
			t.Fail("%s", f)
		}
		for _, f := range res.Incon {
			if strings.Contains(f, noEnd) {
				// Thrice, each time for thousands of times as long as it normally takes.
				t.Fail("%s", f)
				continue
			}
			m.Inconclusive("%s:%d: %s", label, t.Index, f)
		}
		for k, v := range res.Counts {
			t.Count(k, v)
		}
		for k, v := range res.Known {
			m.Known(k, v)
		}
		if res.Hits > 0 {
			t.Count("perturbed statements executed in trial processes", int64(res.Hits))
		}
		t.Saw(res.Key)
		t.Sample(func() any { return res.Desc + " => " + res.Obs })
		return true
	}

	m.RunN(label, n, par, func(t *T) {
		// Whatever the machine was too busy for is tried again.
		for tries := 1; !once(t, tries); tries++ {
			t.Count("trials repeated", 1)
		}
	})
}

// hasGojiFrames ignores the signal loop, which is always there.
func hasGojiFrames(s string) bool {
	for _, g := range strings.Split(s, "\n\n") {
		if hasGoji(g) && !strings.Contains(g, "graceful.sigLoop(") {
			return true
		}
	}
	return false
}

func sleepForever() { select {} }

// ---- transports

// lconn records when its transport was closed.
type lconn struct {
	net.Conn
	g        *gt
	id       int
	closedAt atomic.Int64
	ncl      atomic.Int32
	nread    atomic.Int64
	ours     atomic.Bool // the harness closes it
}

func (c *lconn) Close() error {
	if c.ncl.Add(1) == 1 {
		c.closedAt.Store(c.g.tick())
	}
	return c.Conn.Close()
}
func (c *lconn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.nread.Add(int64(n))
	return n, err
}

// llis records accepted connections and when it was closed.
type llis struct {
	net.Listener
	g        *gt
	addr     string
	mu       sync.Mutex
	conns    map[string]*lconn // by the client's address
	n        atomic.Int64
	closedAt atomic.Int64
}

// ownIP is a loopback address of this process, on which no port is taken by
// the client side of some connection.
func ownIP() string {
	return fmt.Sprintf("127.%d.%d.%d", 128+os.Getpid()>>15&63, os.Getpid()>>7&255, 1+os.Getpid()&127)
}

func newLlis(g *gt) *llis {
	l, err := net.Listen("tcp", ownIP()+":0")
	if err != nil {
		g.incon("listen: %v", err)
	}
	return &llis{Listener: l, g: g, addr: l.Addr().String(), conns: map[string]*lconn{}}
}
func (l *llis) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	lc := &lconn{Conn: c, g: l.g, id: int(l.n.Load())}
	l.mu.Lock()
	l.conns[c.RemoteAddr().String()] = lc
	l.mu.Unlock()
	l.n.Add(1)
	return lc, nil
}
func (l *llis) Close() error {
	l.closedAt.CompareAndSwap(0, l.g.tick())
	return l.Listener.Close()
}

// late tells whether a connection may have been accepted too late to be managed:
// it is then closed at once, but by Accept, for which nobody waits.
func (l *llis) late(c *lconn) bool {
	return c.id == int(l.n.Load())-1 && c.nread.Load() == 0 && c.closedAt.Load() != 0
}
func (l *llis) conn(client net.Conn) *lconn {
	if client.RemoteAddr().String() != l.addr {
		return nil // another server's; the same port may serve connections to several
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.conns[client.LocalAddr().String()]
}
func (l *llis) all() (r []*lconn) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.conns {
		r = append(r, c)
	}
	return
}

// ---- requests

type greq struct {
	token   string
	size    int
	kind    string // "", "body", "hijack"
	flush   bool
	chunks  int
	gate    chan struct{}
	startAt atomic.Int64
	endAt   atomic.Int64
	started chan struct{}
	do      func(q *greq, w http.ResponseWriter, r *http.Request)
}

func (q *greq) want() string { return strings.Repeat(q.token+"|", q.size) }

var greqs sync.Map

func newGreq(token string, size int, gated bool) *greq {
	q := &greq{token: token, size: size, started: make(chan struct{}), chunks: 1}
	if gated {
		q.gate = make(chan struct{})
	}
	greqs.Store("/"+token, q)
	return q
}

func (g *gt) handler() http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		v, ok := greqs.Load(r.URL.Path)
		if !ok {
			return
		}
		q := v.(*greq)
		if !q.startAt.CompareAndSwap(0, g.tick()) {
			g.fail("request %s was handled twice", q.token)
			return
		}
		close(q.started)
		if q.do != nil {
			q.do(q, w, r)
			return
		}
		body := q.want()
		if q.kind == "body" {
			b, err := io.ReadAll(r.Body)
			if err != nil {
				q.endAt.Store(g.tick())
				return
			}
			body = string(b)
		}
		for i := 0; i < q.chunks; i++ {
			if q.gate != nil && i == q.chunks-1 {
				<-q.gate
			}
			lo, hi := len(body)*i/q.chunks, len(body)*(i+1)/q.chunks
			io.WriteString(w, body[lo:hi])
			if q.flush {
				w.(http.Flusher).Flush()
			}
		}
		q.endAt.Store(g.tick())
	})
}

// gcl is a client connection.
type gcl struct {
	g      *gt
	c      net.Conn
	br     *bufio.Reader
	addr   string
	peeked chan struct{}
}

func (g *gt) dial(addr string) (*gcl, error) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	x := &gcl{g: g, c: c, br: bufio.NewReader(c), addr: addr}
	g.mu.Lock()
	g.keep = append(g.keep, x) // or the garbage collector would close it
	g.mu.Unlock()
	return x, nil
}

func (g *gt) mustDial(addr string) *gcl {
	c, err := g.dial(addr)
	if err != nil {
		g.incon("dial: %v", err)
	}
	return c
}

func reqText(method, token string) string {
	return method + " /" + token + " HTTP/1.1\r\nHost: x\r\n\r\n"
}

func (c *gcl) send(s string) error {
	c.c.SetWriteDeadline(time.Now().Add(30 * time.Second))
	_, err := io.WriteString(c.c, s)
	return err
}

// recv receives a whole response.
func (c *gcl) recv() (code int, body string, closes bool, err error) {
	resp, err := http.ReadResponse(c.br, nil)
	if err != nil {
		return 0, "", true, err
	}
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), resp.Close, err
}

// get performs one gated-free request and checks the answer.
func (c *gcl) get(q *greq) (closes bool, err error) {
	if err := c.send(reqText("GET", q.token)); err != nil {
		return true, err
	}
	return c.answer(q, q.want())
}

func (c *gcl) answer(q *greq, want string) (bool, error) {
	code, body, closes, err := c.recv()
	if err == nil && (code != 200 || body != want) {
		err = fmt.Errorf("response %d with %d bytes instead of 200 with %d", code, len(body), len(want))
	}
	return closes, err
}

var errOpen = errors.New("still open")

// ended tells whether the server has closed the connection.
func (c *gcl) ended() bool {
	c.c.SetReadDeadline(time.Now().Add(time.Millisecond))
	_, err := c.br.ReadByte()
	c.c.SetReadDeadline(time.Time{})
	if err == nil {
		return false
	}
	var ne net.Error
	return !(errors.As(err, &ne) && ne.Timeout())
}

// watch reports when the server closes the connection (nothing more may arrive).
func (c *gcl) watch() *atomic.Bool {
	b := new(atomic.Bool)
	go func() {
		c.br.ReadByte()
		b.Store(true)
	}()
	return b
}
