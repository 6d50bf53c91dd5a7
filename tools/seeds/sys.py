S = []
def b(id, prop, needs, breaks, edits, demo, **kw):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))
def imp(*l): return "package main\n\nimport (\n%s\n)\n" % "\n".join('\t"%s"' % x for x in l)
LI = "github.com/zenazn/goji/graceful/listener"
GR = "github.com/zenazn/goji/graceful"
BI = "github.com/zenazn/goji/bind"
CONN, SHARD, LIST = ["graceful/listener/%s.go" % x for x in ("conn", "shard", "listener")]

b("l01-error-stops", "L01", "a transport whose close reports an error, and another idle connection after it",
  "idle connections are left open by a drain",
  [(SHARD, '''			c.closeIfIdle()
		}
''', '''			if err := c.closeIfIdle(); err != nil {
				break
			}
		}
''')], imp(LI) + '''
type badConn struct{ *conn }

func (b badConn) Close() error { b.conn.Close(); return errors.New("boring") }

func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	var cs []*conn
	for i := 0; i < 2000; i++ {
		c := newConn(i)
		cs = append(cs, c)
		l.ch <- badConn{c}
		_, err := t.Accept()
		must(err)
	}
	t.CloseIdle()
	for _, c := range cs {
		if !c.closed() {
			fail("an idle connection stays open")
		}
	}
}
''')
b("l01-late-drain-flag", "L01", "a connection arriving while a drain is closing idle ones",
  "a connection that arrives after the drain began is handed out, and the drain waits for it for ever",
  [(SHARD, '''	s.mu.Lock()
	if drain {
		s.drain = true
	}
	set''', '''	if drain {
		defer func() {
			s.mu.Lock()
			s.drain = true
			s.mu.Unlock()
		}()
	}
	s.mu.Lock()
	set''')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Manual)
	const N = 2000
	hit := make(chan bool, N)
	for i := 0; i < N; i++ {
		c := newConn(i)
		c.onClose = func() { hit <- true; time.Sleep(time.Millisecond) }
		l.ch <- c
		_, err := t.Accept()
		must(err)
		if len(l.ch) > 0 {
			fail("?")
		}
	}
	done := make(chan bool)
	go func() { t.Drain(); close(done) }()
	<-hit
	for i := 0; i < N; i++ {
		select {
		case l.ch <- newConn(i):
			t.Accept()
		case <-hit:
		case <-done:
		}
	}
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		fail("the drain does not end")
	}
}
''')
b("l02-stale-snapshot", "L02", "a read that delivers data between the shedding call's snapshot and its visit of the connection",
  "a connection that has delivered data is closed as idle",
  [(CONN, '''func (c *conn) closeIfIdle() error {
	c.mu.Lock()
	defer c.mu.Unlock()

	if !c.busy && !c.closed''', '''func (c *conn) closeIfIdle() error {
	c.mu.Lock()
	defer c.mu.Unlock()

	// Only idle connections get here.
	if !c.closed''')], imp("sync", LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	const N = 1024
	cs, ws := make([]*conn, N), make([]net.Conn, N)
	var once sync.Once
	for i := range cs {
		cs[i] = newConn(i)
		l.ch <- cs[i]
		var err error
		ws[i], err = t.Accept()
		must(err)
	}
	var first int
	for i := range cs {
		i := i
		cs[i].onClose = func() {
			once.Do(func() {
				first = i
				for j := range cs {
					if j != i && !cs[j].closed() {
						cs[j].data <- "x"
						ws[j].Read(make([]byte, 1))
					}
				}
			})
		}
	}
	t.CloseIdle()
	for i := range cs {
		if i != first && cs[i].closed() {
			fail("a connection that had delivered data was closed")
		}
	}
}
''')
b("l02-read-after-close", "L02", "a transport whose read returns data although the connection was just shed",
  "data is delivered to the server on a connection that shedding has closed",
  [(CONN, '''			n = 0
''', '')], imp(LI) + '''
type late struct {
	*conn
	in, out chan bool
}

func (l *late) Read(b []byte) (int, error) { close(l.in); <-l.out; return copy(b, "GET"), nil }
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	c := &late{newConn(0), make(chan bool), make(chan bool)}
	l.ch <- c
	w, err := t.Accept()
	must(err)
	go func() { <-c.in; t.CloseIdle(); close(c.out) }()
	if n, err := w.Read(make([]byte, 3)); n != 0 || err == nil {
		fail("read %d, %v", n, err)
	}
}
''')
b("l03-second-drain", "L03", "two drains at the same time, the first of which is still closing an idle connection",
  "the second drain returns while a managed connection is still open",
  [(CONN, '''	if !c.busy && !c.closed && !c.disowned {
		c.closed = true
		c.shard.disown(c)
		defer c.shard.wg.Done()
		return c.Conn.Close()''', '''	if !c.busy && !c.closed && !c.disowned {
		c.closed = true
		c.shard.disown(c)
		c.shard.wg.Done()
		return c.Conn.Close()''')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	c := newConn(0)
	in, out := make(chan bool), make(chan bool)
	c.onClose = func() { close(in); <-out }
	l.ch <- c
	_, err := t.Accept()
	must(err)
	go t.Drain()
	<-in
	done := make(chan bool)
	go func() { t.Drain(); close(done) }()
	select {
	case <-done:
		fail("drain returned while the connection is still being closed")
	case <-time.After(time.Second):
	}
	close(out)
	<-done
}
''')
b("l03-close-after-done", "L03", "a transport that takes a while to close, or a drain just when its last connection is being closed",
  "a drain returns while its last connection is still open",
  [(CONN, '''	c.closed = true
	c.shard.disown(c)
	defer c.shard.wg.Done()

	return c.Conn.Close()
''', '''	c.closed = true
	c.shard.disown(c)
	c.shard.wg.Done()

	return c.Conn.Close()
''')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	c := newConn(0)
	in, out := make(chan bool), make(chan bool)
	c.onClose = func() { close(in); <-out }
	l.ch <- c
	w, err := t.Accept()
	must(err)
	go w.Close()
	<-in
	done := make(chan bool)
	go func() { t.Drain(); close(done) }()
	select {
	case <-done:
		fail("drain returned while the connection is still being closed")
	case <-time.After(time.Second):
	}
	close(out)
	<-done
}
''')
b("l03-leak-late", "L03", "a connection accepted after the drain",
  "a connection that arrives too late is neither handed out nor closed",
  [(CONN, '''	if shouldExit := c.shard.track(c); shouldExit {
		c.Conn.Close()
		return errClosing
	}
	return nil
''', '''	if c.shard.track(c) {
		return errClosing
	}
	return nil
''')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	t.Drain()
	c := newConn(0)
	l.ch <- c
	if _, err := t.Accept(); err == nil || !c.closed() {
		fail("late connection: %v, closed %v", err, c.closed())
	}
}
''')
b("l04-disown-unlocked", "L04", "a forced drain that visits a connection just when it is being disowned",
  "a connection that was disowned is closed",
  [(CONN, '''func (c *conn) disown() error {
	c.mu.Lock()
	defer c.mu.Unlock()

''', '''func (c *conn) disown() error {
''')], imp("sync", LI) + '''
func main() {
	for k := 0; k < 3000; k++ {
		l := newLis()
		t := listener.Wrap(l, listener.Automatic)
		c := newConn(0)
		l.ch <- c
		w, err := t.Accept()
		must(err)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); t.DrainAll() }()
		if err := listener.Disown(w); err == nil && c.closed() {
			fail("disowned and closed")
		}
		wg.Wait()
	}
}
''', race=True)
b("l04-no-wait", "L04", "a forced drain while a connection is just being closed by somebody else",
  "a forced drain returns while a managed connection is still open",
  [(LIST, '''		t.shards[i].closeConns(true, true)
	}
	for i := range t.shards {
		t.shards[i].wait()
	}
''', '''		t.shards[i].closeConns(true, true)
	}
''')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	c := newConn(0)
	in, out := make(chan bool), make(chan bool)
	c.onClose = func() { close(in); <-out }
	l.ch <- c
	w, err := t.Accept()
	must(err)
	go w.Close()
	<-in
	done := make(chan bool)
	go func() { t.DrainAll(); close(done) }()
	select {
	case <-done:
		fail("forced drain returned while the connection is still being closed")
	case <-time.After(time.Second):
	}
	close(out)
	<-done
}
''')
b("l05-live-map", "L05", "connections coming and going while idle ones are being shed",
  "the shedding call walks a map that others change",
  [(SHARD, '''	set := make(map[*conn]struct{}, len(s.all))
	if all {
		for c := range s.all {
			set[c] = struct{}{}
		}
	} else {
		for c := range s.idle {
			set[c] = struct{}{}
		}
	}
''', '''	set := s.idle
	if all {
		set = s.all
	}
''')], imp("sync", LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				l.ch <- newConn(i)
				w, err := t.Accept()
				must(err)
				if i%3 == 0 {
					t.CloseIdle()
				}
				w.Close()
			}
		}()
	}
	wg.Wait()
}
''', race=True)
b("l05-idle-reference", "L05", "connections closed while idle, on a listener that lives on",
  "the listener keeps every such connection alive",
  [(SHARD, '''	delete(s.all, c)
	delete(s.idle, c)
''', '''	delete(s.all, c)
''')], imp("runtime", LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	var gone int32
	const N = 50
	for i := 0; i < N; i++ {
		c := newConn(i)
		runtime.SetFinalizer(c, func(*conn) { atomic.AddInt32(&gone, 1) })
		l.ch <- c
		w, err := t.Accept()
		must(err)
		w.Close()
	}
	if !eventually(func() bool { runtime.GC(); return atomic.LoadInt32(&gone) >= N-5 }) {
		fail("%d of %d connections are still referenced", N-gone, N)
	}
	runtime.KeepAlive(t)
}
''')
b("l05-close-error", "L05", "a transport whose close reports an error",
  "the error is lost",
  [(CONN, '''	c.closed = true
	c.shard.disown(c)
	defer c.shard.wg.Done()

	return c.Conn.Close()
''', '''	c.closed = true
	c.shard.disown(c)
	defer c.shard.wg.Done()

	c.Conn.Close()
	return nil
''')], imp(LI) + '''
type bad struct{ *conn }

func (bad) Close() error { return errors.New("bad") }
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	l.ch <- bad{newConn(0)}
	w, err := t.Accept()
	must(err)
	if err := w.Close(); err == nil || err.Error() != "bad" {
		fail("%v", err)
	}
}
''')

SIG = '''
func kick() { must(syscall.Kill(os.Getpid(), syscall.SIGUSR1)) }
'''
SRV = '''
func serve(h http.Handler) (string, chan error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	ch := make(chan error, 1)
	go func() { ch <- graceful.Serve(l, h) }()
	if !eventually(func() bool {
		r, err := http.Get("http://" + l.Addr().String() + "/up")
		if err == nil {
			r.Body.Close()
		}
		return err == nil
	}) {
		fail("no server")
	}
	return l.Addr().String(), ch
}

// busy starts a request that is answered when the returned function is called.
type blocker struct{ in, out chan bool }

func newBlocker() *blocker { return &blocker{make(chan bool, 10), make(chan bool)} }
func (b *blocker) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if r.URL.Path == "/slow" {
		b.in <- true
		<-b.out
		io.WriteString(w, "done")
	}
}
func (b *blocker) start(addr string) chan string {
	ch := make(chan string, 1)
	go func() {
		r, err := http.Get("http://" + addr + "/slow")
		if err != nil {
			ch <- err.Error()
			return
		}
		s, err := io.ReadAll(r.Body)
		ch <- fmt.Sprint(string(s), err)
	}()
	<-b.in
	return ch
}
'''
b("g01-loop-variable", "G01", "several listeners served at once",
  "only some of the listeners are shut down, one of them several times",
  [("graceful/signal.go", '''		go func(l *listener.T) {
			defer wg.Done()''', '''		go func() {
			defer wg.Done()'''), ("graceful/signal.go", "		}(l)\n", "		}()\n")],
  imp("net/http", GR) + SRV + '''
func main() {
	var addrs []string
	var chs []chan error
	for i := 0; i < 5; i++ {
		a, ch := serve(newBlocker())
		addrs, chs = append(addrs, a), append(chs, ch)
	}
	go graceful.Shutdown()
	for i, ch := range chs {
		select {
		case err := <-ch:
			must(err)
		case <-time.After(10 * time.Second):
			fail("server %d goes on", i)
		}
	}
}
''')
b("g01-close-after-drain", "G01", "a new client while a request is still in progress after the shutdown began",
  "new connections are accepted by the operating system as long as requests are in progress",
  [("graceful/signal.go", '''			l.Close()
			if force {
				l.DrainAll()
			} else {
				l.Drain()
			}
''', '''			defer l.Close()
			if force {
				l.DrainAll()
			} else {
				l.Drain()
			}
''')], imp("net/http", GR) + SRV + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	res := b.start(addr)
	go graceful.Shutdown()
	time.Sleep(time.Second)
	if c, err := net.Dial("tcp", addr); err == nil {
		c.Close()
		fail("connected a second after the shutdown began")
	}
	close(b.out)
	if s := <-res; s != "done<nil>" {
		fail("%s", s)
	}
}
''')
b("g01-late-closing", "G01", "a server whose accept fails before the flag is set that tells why",
  "Serve returns an error for an orderly shutdown",
  [("graceful/signal.go", '''	atomic.StoreInt32(&closing, 1)

	var wg''', '''	var wg'''), ("graceful/signal.go", "			l.Close()\n", "			l.Close()\n			atomic.StoreInt32(&closing, 1)\n")],
  imp("net/http", GR) + '''
type slow struct {
	net.Listener
	n int32
}

func (s *slow) Close() error {
	first := atomic.AddInt32(&s.n, 1) == 1
	err := s.Listener.Close()
	if first {
		time.Sleep(300 * time.Millisecond)
	}
	return err
}
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	ch := make(chan error, 1)
	go func() { ch <- graceful.Serve(&slow{Listener: l}, http.NewServeMux()) }()
	time.Sleep(300 * time.Millisecond)
	go graceful.Shutdown()
	if err := <-ch; err != nil {
		fail("Serve returns %v", err)
	}
}
''')
b("g02-pre-cas", "G02", "a second shutdown request while the pre-hooks are still running",
  "connections are torn down before the pre-hooks have finished",
  [("graceful/signal.go", '''	preOnce.Do(func() {
		runHooks(&prehooks, sig)
	})
''', '''	if atomic.CompareAndSwapInt32(&preDone, 0, 1) {
		runHooks(&prehooks, sig)
	}
'''), ("graceful/signal.go", "var preOnce, closeOnce", "var preDone int32\nvar closeOnce")],
  imp("net/http", GR) + SRV + '''
func main() {
	b := newBlocker()
	_, ch := serve(b)
	in, out := make(chan bool), make(chan bool)
	graceful.PreHook(func() { close(in); <-out })
	go graceful.Shutdown()
	<-in
	go graceful.ShutdownNow()
	select {
	case <-ch:
		fail("the server stopped while a pre-hook was running")
	case <-time.After(2 * time.Second):
	}
	close(out)
	<-ch
}
''')
b("g02-post-cas", "G02", "an immediate shutdown during the post-hooks of a graceful one",
  "shutdown and wait calls return while post-hooks are running",
  [("graceful/signal.go", '''	postOnce.Do(func() {
		runHooks(&posthooks, sig)
	})
''', '''	if atomic.CompareAndSwapInt32(&postDone, 0, 1) {
		runHooks(&posthooks, sig)
	}
'''), ("graceful/signal.go", "var preOnce, closeOnce, forceOnce, postOnce", "var postDone int32\nvar preOnce, closeOnce, forceOnce")],
  imp(GR) + '''
func main() {
	in, out := make(chan bool), make(chan bool)
	graceful.PostHook(func() { close(in); <-out })
	go graceful.Shutdown()
	<-in
	done := make(chan bool)
	go func() { graceful.ShutdownNow(); close(done) }()
	go func() { graceful.Wait(); fail("Wait returns while a post-hook is running") }()
	select {
	case <-done:
		fail("ShutdownNow returns while a post-hook is running")
	case <-time.After(2 * time.Second):
	}
}
''')
b("g02-notify-first", "G02", "a caller of Wait that acts at once when it returns",
  "Wait returns before the post-hooks have run",
  [("graceful/signal.go", '''	postOnce.Do(func() {
		runHooks(&posthooks, sig)
	})

	notifyOnce.Do(func() {
		close(wait)
	})
''', '''	notifyOnce.Do(func() {
		close(wait)
	})

	postOnce.Do(func() {
		runHooks(&posthooks, sig)
	})
''')], imp(GR) + '''
func main() {
	var n int32
	graceful.PostHook(func() { time.Sleep(200 * time.Millisecond); atomic.StoreInt32(&n, 1) })
	go graceful.Shutdown()
	graceful.Wait()
	if atomic.LoadInt32(&n) == 0 {
		fail("Wait returned before the hook had run")
	}
}
''')
b("g02-timeout-nil", "G02", "a shutdown by a signal that ends by its timeout",
  "the post-hooks of a shutdown caused by a signal are not told which",
  [("graceful/signal.go", "				shutdown(true, sig)\n", "				shutdown(true, nil)\n")],
  imp("net/http", "os", "syscall", GR) + SRV + SIG + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	b.start(addr)
	got := make(chan os.Signal, 1)
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.HandleSignals()
	graceful.Timeout(100 * time.Millisecond)
	graceful.PostHookWithSignal(func(s os.Signal) { got <- s })
	kick()
	select {
	case s := <-got:
		if s != syscall.SIGUSR1 {
			fail("%v", s)
		}
	case <-time.After(10 * time.Second):
		fail("the shutdown does not end")
	}
}
''')
b("g03-wait-locked", "G03", "a second signal or an immediate shutdown while a graceful shutdown is waiting",
  "nothing can escalate a graceful shutdown",
  [("graceful/signal.go", '''	var wg sync.WaitGroup
	defer wg.Wait()

	mu.Lock()
	defer mu.Unlock()
''', '''	mu.Lock()
	defer mu.Unlock()

	var wg sync.WaitGroup
	defer wg.Wait()
''')], imp("net/http", GR) + SRV + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	b.start(addr)
	go graceful.Shutdown()
	time.Sleep(300 * time.Millisecond)
	done := make(chan bool)
	go func() { graceful.ShutdownNow(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("an immediate shutdown waits for a request")
	}
}
''')
b("g03-window-from-first", "G03", "a second signal outside the window, and a third one right after it",
  "two signals within the window do not force the shutdown",
  [("graceful/signal.go", "		last = now\n", "		if last.IsZero() {\n			last = now\n		}\n")],
  imp("net/http", "os", "syscall", GR) + SRV + SIG + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	res := b.start(addr)
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.HandleSignals()
	graceful.DoubleKickWindow(time.Second)
	kick()
	time.Sleep(1500 * time.Millisecond)
	kick()
	time.Sleep(300 * time.Millisecond)
	kick()
	select {
	case <-res:
	case <-time.After(10 * time.Second):
		fail("two signals within the window do not close the connection")
	}
}
''')
b("g03-force-resets", "G03", "a timeout that elapses after the window has been used",
  "the timeout is forgotten if a signal comes after the first one",
  [("graceful/signal.go", '''			go func() {
				time.Sleep(t)
				shutdown(true, sig)
			}()
''', '''			if timer != nil {
				timer.Stop()
			}
			timer = time.AfterFunc(t, func() { shutdown(true, sig) })
'''), ("graceful/signal.go", "	var last time.Time\n", "	var last time.Time\n	var timer *time.Timer\n")],
  imp("net/http", "os", "syscall", GR) + SRV + SIG + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	res := b.start(addr)
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.HandleSignals()
	graceful.DoubleKickWindow(0)
	graceful.Timeout(2 * time.Second)
	t := time.Now()
	for time.Since(t) < 8*time.Second {
		kick()
		select {
		case <-res:
			return
		case <-time.After(500 * time.Millisecond):
		}
	}
	fail("the timeout does not end the request")
}
''')
b("g03-reset-keeps", "G03", "a signal after the registrations were reset",
  "a signal that is no longer registered shuts the process down",
  [("graceful/signal.go", "	signal.Stop(sigchan)\n", "	signal.Reset(stdSignals...)\n")],
  imp("os", "os/signal", "syscall", GR) + SIG + '''
func main() {
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.ResetSignals()
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR1)
	graceful.PreHook(func() { fail("shutdown") })
	kick()
	time.Sleep(time.Second)
}
''')
b("g04-hijack-while-closing", "G04", "a connection hijacked after the shutdown began",
  "the shutdown waits for a hijacked connection",
  [("graceful/serve13.go", '''	case http.StateHijacked:
		if err''', '''	case http.StateHijacked:
		if atomic.LoadInt32(&closing) != 0 {
			// Too late: it is being drained.
			break
		}
		if err''')], imp("net/http", GR) + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	in, out, got := make(chan bool, 1), make(chan bool), make(chan net.Conn, 1)
	go graceful.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		in <- true
		<-out
		c, _, err := w.(http.Hijacker).Hijack()
		must(err)
		got <- c
	}))
	time.Sleep(200 * time.Millisecond)
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n")
	<-in
	done := make(chan bool)
	go func() { graceful.Shutdown(); close(done) }()
	time.Sleep(300 * time.Millisecond)
	close(out)
	hc := <-got
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("the shutdown waits for a hijacked connection")
	}
	_ = hc
}
''')
b("g04-callback-skip", "G04", "an application with its own connection-state callback and a handler that hijacks",
  "the application's callback does not see the hijacking",
  [("graceful/serve13.go", '''			log.Printf("error disowning hijacked conn: %v", err)
		}
''', '''			log.Printf("error disowning hijacked conn: %v", err)
		}
		// Not our business any more.
		return
''')], imp("net/http", GR) + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	seen := make(chan bool, 1)
	s := &graceful.Server{ConnState: func(c net.Conn, s http.ConnState) {
		if s == http.StateHijacked {
			seen <- true
		}
	}, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, _, err := w.(http.Hijacker).Hijack()
		must(err)
	})}
	go s.Serve(l)
	time.Sleep(200 * time.Millisecond)
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n")
	select {
	case <-seen:
	case <-time.After(10 * time.Second):
		fail("the callback does not see the hijacking")
	}
}
''')
b("g04-close-once", "G04", "the new owner of a hijacked connection closing it after a forced shutdown",
  "the new owner cannot close its connection",
  [(CONN, '''	if c.disowned {
		return c.Conn.Close()
	} else if c.closed {''', '''	if c.disowned && !c.shard.drain {
		return c.Conn.Close()
	} else if c.closed || c.disowned {''')], imp("net/http", GR) + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	got := make(chan net.Conn, 1)
	go graceful.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, _, err := w.(http.Hijacker).Hijack()
		must(err)
		got <- c
	}))
	time.Sleep(200 * time.Millisecond)
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n")
	hc := <-got
	graceful.ShutdownNow()
	if err := hc.Close(); err != nil {
		fail("close: %v", err)
	}
}
''')
TLS = '''
func files() (string, string) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	must(err)
	kd, err := x509.MarshalECPrivateKey(key)
	must(err)
	d, err := os.MkdirTemp("", "tls")
	must(err)
	dir = d
	must(os.WriteFile(d+"/c", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600))
	must(os.WriteFile(d+"/k", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}), 0600))
	return d + "/c", d + "/k"
}

var dir string

func serve(cfg *tls.Config) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	addr := l.Addr().String()
	l.Close()
	c, k := files()
	go func() {
		s := &graceful.Server{Addr: addr, TLSConfig: cfg, Handler: http.NotFoundHandler()}
		must(s.ListenAndServeTLS(c, k))
	}()
	if !eventually(func() bool {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
		}
		return err == nil
	}) {
		fail("no server")
	}
	os.RemoveAll(dir)
	return addr
}
'''
TI = ("crypto/ecdsa", "crypto/elliptic", "crypto/rand", "crypto/tls", "crypto/x509", "encoding/pem", "math/big", "net/http", GR)
b("g05-no-clone", "G05", "a TLS configuration that its owner uses again",
  "the caller's configuration is modified",
  [("graceful/server.go", "config = cloneTLSConfig(srv.TLSConfig)", "config = srv.TLSConfig"),
   ("graceful/clone.go", "//", "//")], imp(*TI) + TLS + '''
func main() {
	cfg := &tls.Config{}
	serve(cfg)
	if len(cfg.Certificates) != 0 || cfg.NextProtos != nil {
		fail("configuration changed: %v", cfg.NextProtos)
	}
}
''')
S[-1]["edits"] = S[-1]["edits"][:1]
b("g05-next-protos", "G05", "a TLS configuration naming its own application protocols",
  "the configured protocols are not offered",
  [("graceful/server.go", '''	if config.NextProtos == nil {
		config''', '''	if len(config.NextProtos) < 2 {
		config''')], imp(*TI) + TLS + '''
func main() {
	addr := serve(&tls.Config{NextProtos: []string{"special"}})
	c, err := tls.Dial("tcp", addr, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"special"}})
	if err != nil || c.ConnectionState().NegotiatedProtocol != "special" {
		fail("%v", err)
	}
}
''')
b("g05-min-version", "G05", "a client that supports nothing newer than TLS 1.0 or 1.1, and no configuration",
  "clients that the default should admit are turned away",
  [("graceful/server.go", "		MinVersion: tls.VersionTLS10,\n", "		MinVersion: tls.VersionTLS12,\n")], imp(*TI) + TLS + '''
func main() {
	addr := serve(nil)
	_, err := tls.Dial("tcp", addr, &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11})
	must(err)
}
''')

SELF = '''
// again runs this program as a child, or returns "" in the child.
func again(env ...string) string {
	if os.Getenv("DEMO_CHILD") != "" {
		return ""
	}
	c := exec.Command(os.Args[0], os.Args[1:]...)
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if k != "PORT" && k != "GOJI_BIND" && !strings.HasPrefix(k, "LISTEN_") && !strings.HasPrefix(k, "EINHORN_") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(append(c.Env, "DEMO_CHILD=1"), env...)
	out, err := c.CombinedOutput()
	if err != nil {
		return "exit: " + err.Error() + string(out)
	}
	return "out: " + string(out)
}
'''
b("d01-no-listen-pid", "D01", "socket-activation variables without a process ID, inherited by a process they are not meant for",
  "a process takes sockets that systemd did not pass to it",
  [("bind/systemd.go", "	if err != nil || pid != os.Getpid() {", "	if err == nil && pid != os.Getpid() {")],
  imp("os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again("LISTEN_FDS=1"); s != "" {
		if s != "out: []" {
			fail("%s", s)
		}
		return
	}
	fmt.Printf("[%s]", bind.Sniff())
}
''')
b("d01-einhorn-orphan", "D01", "Einhorn's variables inherited by a process whose parent is not Einhorn",
  "Einhorn's socket is used by a process it was not passed to",
  [("bind/einhorn.go", "if err != nil || mpid != os.Getppid() {", "if err != nil || mpid <= 0 || syscall.Kill(mpid, 0) == syscall.ESRCH {")],
  imp("os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again(fmt.Sprint("EINHORN_MASTER_PID=", os.Getppid()), "EINHORN_FD_COUNT=1", "EINHORN_FD_0=99"); s != "" {
		if s != "out: []" {
			fail("%s", s)
		}
		return
	}
	fmt.Printf("[%s]", bind.Sniff())
}
''')
b("d01-env-over-flag", "D01", "an explicit flag while GOJI_BIND is set",
  "the environment overrides the flag",
  [("bind/bind.go", '''func Default() net.Listener {
	return Socket(bind)''', '''func Default() net.Listener {
	if s := Sniff(); s != "" && bind != DefaultBind {
		return Socket(s)
	}
	return Socket(bind)''')],
  imp("flag", "os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again("GOJI_BIND=127.0.0.2:0"); s != "" {
		if !strings.HasPrefix(s, "out: 127.0.0.3:") {
			fail("%s", s)
		}
		return
	}
	bind.WithFlag()
	os.Args = append(os.Args, "-bind", "127.0.0.3:0")
	flag.Parse()
	fmt.Print(bind.Default().Addr())
}
''')
b("d02-path-first", "D02", "a path containing a colon",
  "a string containing a colon is not taken as a TCP address",
  [("bind/bind.go", '''if strings.Contains(bind, ":") {''', '''if strings.Contains(bind, ":") && bind[0] != '/' {''')],
  imp("os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again(); s != "" {
		if strings.HasPrefix(s, "out:") {
			fail("%s", s)
		}
		return
	}
	d, err := os.MkdirTemp("", "d02")
	must(err)
	go func() { time.Sleep(5 * time.Second); os.RemoveAll(d) }()
	s := d + "/a:b"
	defer os.RemoveAll(d)
	l := bind.Socket(s)
	fmt.Print(l.Addr())
}
''')
b("d02-trailing", "D02", "a descriptor number with something after it",
  "a malformed bind string is accepted",
  [("bind/bind.go", '''		fd, err := strconv.Atoi(bind[3:])
''', '''		var fd int
		_, err := fmt.Sscanf(bind[3:], "%d", &fd)
''')],
  imp("os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again(); s != "" {
		if strings.HasPrefix(s, "out:") {
			fail("%s", s)
		}
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f, err := l.(*net.TCPListener).File()
	must(err)
	fmt.Print(bind.Socket(fmt.Sprintf("fd@%dx", f.Fd())).Addr())
}
''')
b("d02-keeps-file", "D02", "a listener on an adopted descriptor that is closed while the process lives on",
  "the socket stays open after its listener was closed",
  [("bind/bind.go", "		defer f.Close()\n", "		adopted = append(adopted, f)\n"), ("bind/bind.go", "func listenTo(", "var adopted []*os.File\n\nfunc listenTo(")],
  imp(BI) + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f, err := l.(*net.TCPListener).File()
	must(err)
	x := bind.Socket(fmt.Sprintf("fd@%d", f.Fd()))
	addr := x.Addr().String()
	l.Close()
	must(x.Close())
	if c, err := net.Dial("tcp", addr); err == nil {
		c.Close()
		fail("still accepts connections")
	}
}
''')
b("d02-zero", "D02", "a malformed descriptor number while standard input is a listening socket",
  "a malformed bind string adopts standard input",
  [("bind/bind.go", '''		fd, err := strconv.Atoi(bind[3:])
		if err != nil {
''', '''		fd, err := strconv.Atoi(bind[3:])
		if err != nil && fd != 0 {
''')],
  imp("os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again(); s != "" {
		if strings.HasPrefix(s, "out:") {
			fail("%s", s)
		}
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f, err := l.(*net.TCPListener).File()
	must(err)
	must(syscall.Dup2(int(f.Fd()), 0))
	fmt.Print(bind.Socket("fd@x").Addr())
}
''')
b("d02-dot-path", "D02", "a socket path that begins with a dot but not with './'",
  "a UNIX socket path is rejected",
  [("bind/bind.go", '''strings.HasPrefix(bind, ".") ||''', '''strings.HasPrefix(bind, "./") || strings.HasPrefix(bind, "../") ||''')],
  imp("os/exec", "strings", BI) + SELF + '''
func main() {
	if s := again(); s != "" {
		if !strings.HasPrefix(s, "out:") {
			fail("%s", s)
		}
		return
	}
	d, err := os.MkdirTemp("", "d02")
	must(err)
	must(os.Chdir(d))
	l := bind.Socket(".sock")
	fmt.Print(l.Addr())
	l.Close()
	must(os.RemoveAll(d))
}
''')
b("d03-last-descriptor", "D03", "more than one descriptor passed by the launcher",
  "the last descriptor leaks to the application's children",
  [("bind/systemd.go", "for i := 0; i < systemdNumFds; i++ {\n		syscall.CloseOnExec(systemdMinFd + i)", "for fd := systemdMinFd; fd < systemdNumFds+1; fd++ {\n		syscall.CloseOnExec(fd)")],
  imp("os/exec", "strings", "syscall", BI) + SELF + '''
func main() {
	_ = bind.Sniff
	_ = strings.TrimSpace
	switch os.Getenv("DEMO_STEP") {
	case "":
		c := exec.Command("/bin/sh", "-c", "LISTEN_PID=$$ LISTEN_FDS=2 DEMO_STEP=1 exec "+os.Args[0])
		for i := 0; i < 2; i++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			f, err := l.(*net.TCPListener).File()
			must(err)
			c.ExtraFiles = append(c.ExtraFiles, f)
		}
		out, err := c.CombinedOutput()
		if err != nil {
			fail("%s", out)
		}
	case "1":
		for fd := 3; fd < 5; fd++ {
			fl, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_GETFD, 0)
			if e != 0 || fl&syscall.FD_CLOEXEC == 0 {
				fail("descriptor %d leaks to children (%v)", fd, e)
			}
		}
	}
}
''')
b("d03-ready-flag", "D03", "readiness announced concurrently",
  "readiness is announced twice",
  [("bind/bind.go", '''	ready.Do(func() {
		einhornAck()
	})
''', '''	if !ready {
		einhornAck()
		ready = true
	}
'''), ("bind/bind.go", "var ready sync.Once", "var ready bool"), ("bind/bind.go", '	"strings"\n	"sync"\n', '	"strings"\n')],
  imp("bufio", "os/exec", "strings", "sync", BI) + SELF + '''
func main() {
	if os.Getenv("DEMO_CHILD") == "" {
		d, err := os.MkdirTemp("", "d03")
		must(err)
		defer os.RemoveAll(d)
		l, err := net.Listen("unix", d+"/ctl")
		must(err)
		var n int32
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					for s := bufio.NewScanner(c); s.Scan(); {
						atomic.AddInt32(&n, 1)
					}
				}()
			}
		}()
		s := again(fmt.Sprint("EINHORN_MASTER_PID=", os.Getpid()), "EINHORN_FD_COUNT=1", "EINHORN_FD_0=0", "EINHORN_SOCK_PATH="+d+"/ctl")
		if !strings.HasPrefix(s, "out:") || !eventually(func() bool { return atomic.LoadInt32(&n) > 0 }) {
			os.RemoveAll(d)
			fail("%s", s)
		}
		time.Sleep(300 * time.Millisecond)
		if n != 1 {
			os.RemoveAll(d)
			fail("announced %d times", n)
		}
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); bind.Ready() }()
	}
	wg.Wait()
}
''')

APP = '''
func app(slow time.Duration) {
	goji.Get("/slow", func(w http.ResponseWriter, r *http.Request) {
		w.(http.Flusher).Flush()
		time.Sleep(slow)
		io.WriteString(w, "done")
	})
	goji.Get("/panic", func(w http.ResponseWriter, r *http.Request) { panic("oops") })
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	fmt.Println(l.Addr())
	goji.ServeListener(l)
}

func start() (*exec.Cmd, string, *bytes.Buffer) {
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	var log bytes.Buffer
	c.Stderr = &log
	out, err := c.StdoutPipe()
	must(err)
	must(c.Start())
	addr, err := bufio.NewReader(out).ReadString('\\n')
	must(err)
	go io.Copy(io.Discard, out)
	addr = strings.TrimSpace(addr)
	eventually(func() bool { r, err := http.Get("http://" + addr + "/"); if err == nil { r.Body.Close() }; return err == nil })
	return c, addr, &log
}
'''
AI = ("bufio", "bytes", "net/http", "os/exec", "strings", "github.com/zenazn/goji")
b("a01-no-wait", "A01", "a request still in progress when the application is interrupted",
  "the process exits while a request is in progress",
  [("serve.go", "	graceful.Wait()\n", "")], imp(*AI) + APP + '''
func main() {
	if os.Getenv("DEMO_CHILD") != "" {
		app(2 * time.Second)
		return
	}
	c, addr, log := start()
	defer c.Process.Kill()
	r, err := http.Get("http://" + addr + "/slow")
	must(err)
	c.Process.Signal(os.Interrupt)
	s, err := io.ReadAll(r.Body)
	if err != nil || string(s) != "done" {
		fail("request in progress: %q, %v", s, err)
	}
	if err := c.Wait(); err != nil || !strings.Contains(log.String(), "Goji stopped") {
		fail("%v %s", err, log)
	}
}
''')
b("a01-window", "A01", "a second interrupt more than a tenth of a second after the first one",
  "a second interrupt within two seconds does not stop the application",
  [("default.go", "x", "x")], imp(*AI) + APP + '''
func main() {
	if os.Getenv("DEMO_CHILD") != "" {
		app(20 * time.Second)
		return
	}
	c, addr, _ := start()
	defer c.Process.Kill()
	_, err := http.Get("http://" + addr + "/slow")
	must(err)
	t := time.Now()
	c.Process.Signal(os.Interrupt)
	time.Sleep(1200 * time.Millisecond)
	c.Process.Signal(os.Interrupt)
	c.Wait()
	if d := time.Since(t); d > 10*time.Second {
		c.Process.Kill()
		fail("stopped after %v", d)
	}
}
''')
S[-1]["edits"] = [("serve.go", "2 * time.Second", "time.Second")]
b("a01-order", "A01", "a handler that panics",
  "panics are recovered outside the logger, so the log lacks the request's end",
  [("default.go", '''	DefaultMux.Use(middleware.Logger)
	DefaultMux.Use(middleware.Recoverer)
''', '''	DefaultMux.Use(middleware.Recoverer)
	DefaultMux.Use(middleware.Logger)
''')], imp(*AI) + APP + '''
func main() {
	if os.Getenv("DEMO_CHILD") != "" {
		app(0)
		return
	}
	c, addr, log := start()
	defer c.Process.Kill()
	r, err := http.Get("http://" + addr + "/panic")
	if err != nil || r.StatusCode != 500 {
		fail("%v", err)
	}
	c.Process.Signal(os.Interrupt)
	c.Wait()
	if !strings.Contains(log.String(), "Returning 500") {
		fail("the end of a request that panicked is not logged")
	}
}
''')
b("g06-same-address", "G06", "two wrapped listeners that report the same address (in memory, inherited, or sharing a port)",
  "a shutdown leaves the first of them and its connections alone",
  [("graceful/graceful.go", "	listeners = append(listeners, l)", '''	known := false
	for i, old := range listeners {
		if old.Addr().String() == l.Addr().String() {
			listeners[i], known = l, true
		}
	}
	if !known {
		listeners = append(listeners, l)
	}''')], imp(GR) + '''
func main() {
	a, b := newLis(), newLis()
	wa, wb := graceful.WrapListener(a), graceful.WrapListener(b)
	ca, cb := newConn(1), newConn(2)
	a.ch <- ca
	b.ch <- cb
	_, err := wa.Accept()
	must(err)
	_, err = wb.Accept()
	must(err)
	graceful.Shutdown()
	if !ca.closed() || !cb.closed() {
		fail("an idle connection is open after a shutdown")
	}
}
''')
b("g06-managed-again", "G06", "a listener managed already, in another mode than the usual one",
  "its connections become idle by setting a read deadline although its mode says they don't",
  [("graceful/graceful.go", '''		appendListener(lt)
		return lt
	}
''', '''		l = lt
	}
''')], imp(GR, LI) + '''
func main() {
	a := newLis()
	w := graceful.WrapListener(listener.Wrap(a, listener.Automatic))
	c := newConn(1)
	a.ch <- c
	wc, err := w.Accept()
	must(err)
	c.data <- "x"
	_, err = wc.Read(make([]byte, 1))
	must(err)
	must(wc.SetReadDeadline(time.Time{}))
	done := make(chan bool)
	go func() { graceful.Shutdown(); close(done) }()
	select {
	case <-done:
		fail("a connection in use was closed: %v", c.closed())
	case <-time.After(time.Second):
	}
	if c.closed() {
		fail("a connection in use was closed")
	}
}
''')
b("g06-any-accept-error", "G06", "a listener that breaks while a shutdown is going on",
  "Serve reports success although its listener failed",
  [("graceful/graceful.go", '''			if oe.Err.Error() == errClosing {
				return nil
			}
''', '''			return nil
''')], imp("net/http", GR) + '''
type broken struct {
	*lis
	at chan bool
}

func (b broken) Accept() (net.Conn, error) {
	b.at <- true
	_, err := b.lis.Accept()
	if err != nil {
		err = &net.OpError{Op: "accept", Err: errors.New("out of order")}
	}
	return nil, err
}

func main() {
	l := broken{newLis(), make(chan bool, 9)}
	res := make(chan error, 1)
	go func() { res <- graceful.Serve(l, http.NotFoundHandler()) }()
	<-l.at
	graceful.Shutdown()
	if err := <-res; err == nil {
		fail("Serve returns no error")
	}
}
''')
b("g03-timeout-waits", "G03", "a timeout shorter than the double-kick window",
  "a shutdown is not forced when its timeout expires",
  [("graceful/signal.go", '''				time.Sleep(t)
''', '''				if t < window {
					t = window // a second kick may still come
				}
				time.Sleep(t)
'''), ("graceful/signal.go", "		if t := timeout; t != 0 && !force {\n", "		if t, window := timeout, doubleKick; t != 0 && !force {\n")],
  imp("net/http", "os", "syscall", GR) + SRV + SIG + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	res := b.start(addr)
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.HandleSignals()
	graceful.DoubleKickWindow(time.Minute)
	graceful.Timeout(300 * time.Millisecond)
	kick()
	select {
	case <-res:
	case <-time.After(15 * time.Second):
		fail("the timeout does not close the connection")
	}
}
''')
b("g03-one-timer", "G03", "a timeout shortened between two signals",
  "the timeout in force at the second signal is ignored",
  [("graceful/signal.go", "	var last time.Time\n", "	var last time.Time\n	var timer bool\n"),
   ("graceful/signal.go", "		if t := timeout; t != 0 && !force {\n", "		if t := timeout; t != 0 && !force && !timer {\n			timer = true\n")],
  imp("net/http", "os", "syscall", GR) + SRV + SIG + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	res := b.start(addr)
	graceful.AddSignal(syscall.SIGUSR1)
	graceful.HandleSignals()
	graceful.Timeout(time.Hour)
	kick()
	time.Sleep(500 * time.Millisecond)
	graceful.Timeout(100 * time.Millisecond)
	kick()
	select {
	case <-res:
	case <-time.After(15 * time.Second):
		fail("the timeout does not close the connection")
	}
}
''')
b("g02-late-hook", "G02", "a post-hook registered by a request that is being completed",
  "it is never run",
  [("graceful/signal.go", '''	posthooks = append(posthooks, f)''', '''	if atomic.LoadInt32(&closing) == 0 {
		posthooks = append(posthooks, f)
	}''')], imp("net/http", GR) + SRV + '''
func main() {
	b := newBlocker()
	addr, _ := serve(b)
	b.start(addr)
	go graceful.Shutdown()
	time.Sleep(500 * time.Millisecond)
	ran := false
	graceful.PostHook(func() { ran = true })
	close(b.out)
	graceful.Wait()
	if !ran {
		fail("a post-hook did not run")
	}
}
''')
b("l05-copy-all", "L05", "copying to a connection from a source that fails halfway",
  "what the source had delivered is not written",
  [("graceful/listener/conn.go", "	return io.Copy(c.Conn, r)", '''	if rf, ok := c.Conn.(io.ReaderFrom); ok {
		return rf.ReadFrom(r)
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := c.Conn.Write(b)
	return int64(n), err''')], imp(LI) + '''
type half struct{ n int }

func (h *half) Read(b []byte) (int, error) {
	if h.n++; h.n == 1 {
		return copy(b, "delivered"), nil
	}
	return 0, errors.New("broken")
}

func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	l.ch <- newConn(1)
	c, err := t.Accept()
	must(err)
	if n, _ := io.Copy(c, &half{}); n != 9 {
		fail("%d bytes were written, not 9", n)
	}
}
''')
b("g06-late-serve", "G06", "a listener that is served once the shutdown is over",
  "it is never closed and Serve goes on",
  [("graceful/signal.go", "		close(wait)\n", "		atomic.StoreInt32(&closing, 0)\n		close(wait)\n")], imp(GR, "net") + '''
func main() {
	graceful.Shutdown()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	done := make(chan error, 1)
	go func() { done <- graceful.Serve(l, http.NotFoundHandler()) }()
	select {
	case err := <-done:
		if err != nil {
			fail("Serve returns %v", err)
		}
	case <-time.After(10 * time.Second):
		fail("a listener goes on serving after the shutdown")
	}
}
''')
b("a01-listener-fails", "A01", "a listener that fails while the application serves",
  "the application hangs instead of exiting with the error",
  [("serve.go", "		log.Fatal(err)", "		log.Print(err)")], imp(*AI) + APP.replace("goji.Serve()", "goji.Serve()") + '''
type brk struct{ net.Listener }

func (b brk) Accept() (net.Conn, error) { time.Sleep(300 * time.Millisecond); return nil, errors.New("broken") }
func main() {
	if os.Getenv("DEMO_CHILD") == "1" {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		goji.ServeListener(brk{l})
		return
	}
	_, _ = start, app
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	must(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			fail("exits as if nothing had happened")
		}
	case <-time.After(15 * time.Second):
		c.Process.Kill()
		fail("does not exit")
	}
}
''')
b("d01-port-trim", "D01", "PORT set to something that starts with a colon",
  "the value is not used as it is",
  [("bind/bind.go", '''		return ":" + port''', '''		return ":" + strings.TrimLeft(port, ":")''')], imp("github.com/zenazn/goji/bind") + '''
func main() {
	for _, s := range []string{"80", "", ":80", "::1:80"} {
		os.Setenv("PORT", s)
		want := ":" + s
		if s == "" {
			want = ""
		}
		if got := bind.Sniff(); got != want {
			fail("PORT=%s is %q", s, got)
		}
	}
}
''')
b("d01-blank-env", "D01", "GOJI_BIND consisting of blanks only",
  "it is taken for absent",
  [("bind/bind.go", '''os.Getenv("GOJI_BIND"); bind != ""''', '''os.Getenv("GOJI_BIND"); strings.TrimSpace(bind) != ""''')], imp("github.com/zenazn/goji/bind") + '''
func main() {
	os.Setenv("PORT", "80")
	os.Setenv("GOJI_BIND", " ")
	if got := bind.Sniff(); got != " " {
		fail("Sniff: %q", got)
	}
}
''')

G7 = '''
type note struct{}

func get(c *http.Client, addr string) string {
	rsp, err := c.Get("http://" + addr + "/")
	if err != nil {
		return err.Error()
	}
	b, _ := io.ReadAll(rsp.Body)
	rsp.Body.Close()
	return string(b)
}
'''
b("g07-selected-fields", "G07", "a server configured with a context for its connections",
  "handlers do not see the context the server was given",
  [("graceful/serve13.go", '''	shadow := *(*http.Server)(srv)
	shadow.ConnState = connState(shadow.ConnState).Wrap
''', '''	// Not a plain copy: a Server also has state of its own.
	shadow := http.Server{
		Addr:              srv.Addr,
		Handler:           srv.Handler,
		TLSConfig:         srv.TLSConfig,
		ReadTimeout:       srv.ReadTimeout,
		ReadHeaderTimeout: srv.ReadHeaderTimeout,
		WriteTimeout:      srv.WriteTimeout,
		IdleTimeout:       srv.IdleTimeout,
		MaxHeaderBytes:    srv.MaxHeaderBytes,
		TLSNextProto:      srv.TLSNextProto,
		ErrorLog:          srv.ErrorLog,
		BaseContext:       srv.BaseContext,
	}
	shadow.ConnState = connState(srv.ConnState).Wrap
''')], imp("context", GR) + G7 + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &graceful.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, r.Context().Value(note{}))
	})}
	s.ConnContext = func(c context.Context, _ net.Conn) context.Context { return context.WithValue(c, note{}, "hello") }
	go s.Serve(l)
	if b := get(http.DefaultClient, l.Addr().String()); b != "hello" {
		fail("%s", b)
	}
}
''')
b("g07-deadline-stays", "G07", "a time limit for headers only, and a request whose body takes longer than that",
  "the upload fails although there is no limit for it",
  [(CONN, '''	return c.Conn.SetReadDeadline(t)
''', '''	if t.IsZero() {
		// A connection that waits is closed when it's time.
		return nil
	}
	return c.Conn.SetReadDeadline(t)
''')], imp(GR) + G7 + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &graceful.Server{ReadHeaderTimeout: 400 * time.Millisecond, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		fmt.Fprint(w, string(b), err)
	})}
	go s.Serve(l)
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "POST / HTTP/1.1\\r\\nHost: a\\r\\nContent-Length: 5\\r\\nConnection: close\\r\\n\\r\\nhe")
	time.Sleep(1200 * time.Millisecond)
	fmt.Fprintf(c, "llo")
	b, _ := io.ReadAll(c)
	if n := len(b); n < 10 || string(b[n-10:]) != "hello<nil>" {
		fail("%q", b)
	}
}
''')
b("g07-not-a-shadow", "G07", "a look at the Server while it is served",
  "the server handed in is modified",
  [("graceful/serve13.go", '''	shadow := *(*http.Server)(srv)
	shadow.ConnState = connState(shadow.ConnState).Wrap
''', '''	srv.ConnState = connState(srv.ConnState).Wrap
	shadow := *(*http.Server)(srv)
''')], imp(GR) + G7 + '''
func main() {
	s := &graceful.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})}
	for i := 0; i < 2; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		go s.Serve(l)
		get(&http.Client{Transport: &http.Transport{}}, l.Addr().String())
		if s.ConnState != nil {
			fail("the server now has a callback")
		}
	}
}
''')
b("g07-no-keepalive", "G07", "a TCP listener that was made without keep-alives, and handed to Serve",
  "dead connections are never noticed",
  [("graceful/server.go", '''	if tl, ok := l.(*net.TCPListener); ok {
		l = tcpKeepAliveListener{tl}
	}
	server := &Server{Handler: handler}
''', '''	// Accepted connections have keep-alives enabled by package net.
	server := &Server{Handler: handler}
''')], imp("context", "syscall", GR) + G7 + '''
func main() {
	lc := net.ListenConfig{KeepAlive: -1}
	l, err := lc.Listen(context.Background(), "tcp", "127.0.0.1:0")
	must(err)
	port := l.Addr().(*net.TCPAddr).Port
	go graceful.Serve(l, http.NotFoundHandler())
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "GET / HTTP/1.1\\r\\nHost: a\\r\\n\\r\\n")
	c.Read(make([]byte, 1))
	seen := false
	for fd := 3; fd < 100; fd++ {
		a, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		if _, err := syscall.Getpeername(fd); err != nil {
			continue
		}
		if a4, ok := a.(*syscall.SockaddrInet4); ok && a4.Port == port {
			seen = true
			if v, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE); err != nil || v == 0 {
				fail("keep-alive: %d %v", v, err)
			}
		}
	}
	if !seen {
		must(errors.New("no such socket"))
	}
}
''')
b("g07-peaceful-always", "G07", "a listener its owner closes, without any shutdown",
  "Serve says that all is well although it stopped serving on a closed listener",
  [("graceful/graceful.go", '''	if atomic.LoadInt32(&closing) == 0 {
		return err
	}
''', '''	if err == nil {
		return nil
	}
''')], imp(GR) + G7 + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	done := make(chan error)
	go func() { done <- graceful.Serve(l, http.NotFoundHandler()) }()
	get(http.DefaultClient, l.Addr().String())
	l.Close()
	if err := <-done; err == nil {
		fail("Serve returned no error")
	}
}
''')
b("g07-localhost-only", "G07", "a server without an address, and a client that uses another address than 127.0.0.1",
  "a server with default settings is reachable on one address only",
  [("graceful/server.go", '''		addr = ":http"
''', '''		addr = "127.0.0.1:http"
''')], imp(GR) + G7 + '''
func main() {
	go func() {
		err := graceful.ListenAndServe("", http.NotFoundHandler())
		fmt.Println(err)
		panic("cannot use the port")
	}()
	if !eventually(func() bool { _, err := net.Dial("tcp", "127.0.0.1:80"); return err == nil }) {
		fail("not reachable at all")
	}
	if _, err := net.Dial("tcp", "127.0.0.2:80"); err != nil {
		fail("%v", err)
	}
}
''')

b("g01-half-closed", "G01", "a client that closes its sending side after the request and waits for the response",
  "the response is cut off by a shutdown",
  [(CONN, '''		if c.mode != Manual && !c.busy && !c.closed {
			c.busy = true
			c.shard.markInUse(c)
		}
''', '''		if err == io.EOF && c.mode == Automatic {
			// Nothing more is going to happen here.
			if c.busy {
				c.busy = false
				c.shard.markIdle(c)
			}
			return
		}

		if c.mode != Manual && !c.busy && !c.closed {
			c.busy = true
			c.shard.markInUse(c)
		}
''')], imp("net/http", GR) + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	in, out := make(chan bool), make(chan bool)
	go graceful.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		in <- true
		<-out
		io.WriteString(w, "answer")
	}))
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n")
	must(c.(*net.TCPConn).CloseWrite())
	<-in
	time.Sleep(300 * time.Millisecond)
	done := make(chan bool)
	go func() { graceful.Shutdown(); close(done) }()
	time.Sleep(300 * time.Millisecond)
	close(out)
	b, err := io.ReadAll(c)
	if n := len(b); err != nil || n < 6 || string(b[n-6:]) != "answer" {
		fail("%q %v", b, err)
	}
	<-done
}
''')
b("l01-one-byte", "L02", "data that arrives one byte at a time",
  "a connection that has delivered data is closed as idle",
  [(CONN, '''		if c.mode != Manual && !c.busy && !c.closed {
''', '''		// Servers peek at idle connections with reads of a single byte
		peek := c.mode == Automatic && n == 1 && len(b) == 1
		if c.mode != Manual && !peek && !c.busy && !c.closed {
''')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Automatic)
	c := newConn(1)
	l.ch <- c
	w, err := t.Accept()
	must(err)
	c.data <- "x"
	_, err = w.Read(make([]byte, 1))
	must(err)
	t.CloseIdle()
	if c.closed() {
		fail("a connection in use is closed")
	}
}
''')
b("l05-temp-accept", "L05", "a wrapped listener whose Accept fails for a moment (out of descriptors, say)",
  "the error is swallowed, and Accept spins",
  [(LIST, '''	if err != nil {
		return nil, err
	}

	connID''', '''	for err != nil {
		if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
			return nil, err
		}
		c, err = t.l.Accept()
	}

	connID''')], imp(LI, "syscall") + '''
type sick struct {
	*lis
	n int
}

func (s *sick) Accept() (net.Conn, error) {
	if s.n++; s.n < 3 {
		return nil, &net.OpError{Op: "accept", Err: syscall.EMFILE}
	}
	return s.lis.Accept()
}

func main() {
	l := &sick{lis: newLis()}
	l.ch <- newConn(1)
	t := listener.Wrap(l, listener.Automatic)
	if c, err := t.Accept(); err == nil || c != nil {
		fail("the failure is hidden")
	}
}
''')
b("a01-tls-config", "A01", "a TLS configuration with more than certificates in it",
  "ServeTLS ignores the rest of the caller's configuration",
  [("serve.go", "tls.NewListener(bind.Default(), config)", "tls.NewListener(bind.Default(), &tls.Config{\n\t\tCertificates: config.Certificates,\n\t\tNextProtos:   config.NextProtos,\n\t})")],
  imp("os/exec", *[x for x in TI if x != GR] + ["github.com/zenazn/goji"]) + TLS.split("func serve(")[0] + '''
func main() {
	if a := os.Getenv("DEMO_CHILD"); a != "" {
		c, k := files()
		defer os.RemoveAll(dir)
		cert, err := tls.LoadX509KeyPair(c, k)
		must(err)
		os.Args = []string{os.Args[0], "-bind", a}
		goji.ServeTLS(&tls.Config{Certificates: []tls.Certificate{cert}, MinVersion: tls.VersionTLS13})
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	a := l.Addr().String()
	l.Close()
	c := exec.Command(os.Args[0])
	c.Env = append(os.Environ(), "DEMO_CHILD="+a)
	must(c.Start())
	defer c.Wait()
	defer c.Process.Signal(os.Interrupt)
	ask := func(max uint16) error {
		c, err := tls.Dial("tcp", a, &tls.Config{InsecureSkipVerify: true, MaxVersion: max})
		if err == nil {
			c.Close()
		}
		return err
	}
	if !eventually(func() bool { return ask(tls.VersionTLS13) == nil }) {
		fail("no server")
	}
	if ask(tls.VersionTLS12) == nil {
		c.Process.Kill()
		fail("a version the configuration excludes")
	}
}

var _ = http.NotFoundHandler
''')
b("g03-reset-others", "G03", "a program that listens to a signal itself as well, and resets the package's registrations",
  "the program no longer gets its own signals",
  [("graceful/signal.go", "	signal.Stop(sigchan)\n", "	signal.Stop(sigchan)\n	// Back to what the runtime does without us\n	signal.Reset(stdSignals...)\n")],
  imp("os", "os/signal", "syscall", GR) + '''
func main() {
	// Whatever happens to the registrations, this keeps the signal from killing the process
	mine := make(chan os.Signal, 1)
	signal.Notify(mine, os.Interrupt)
	go func() {
		time.Sleep(5 * time.Second)
		fail("the program's own registration is gone")
	}()
	graceful.HandleSignals()
	graceful.ResetSignals()
	syscall.Kill(os.Getpid(), syscall.SIGINT)
	<-mine
}
''')
b("g03-late-window", "G03", "a double-kick window set after the first signal of a pair",
  "the window in force is the one from an earlier signal",
  [("graceful/signal.go", '''	var last time.Time
	for {
		sig := <-sigchan
		now := time.Now()
		mu.Lock()
		force := doubleKick != 0 && now.Sub(last) < doubleKick
''', '''	var last time.Time
	var window time.Duration
	for {
		sig := <-sigchan
		now := time.Now()
		mu.Lock()
		if last.IsZero() {
			window = doubleKick
		}
		force := window != 0 && now.Sub(last) < window
''')], imp("net/http", "os", "syscall", GR) + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	in := make(chan bool, 1)
	go graceful.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		in <- true
		time.Sleep(30 * time.Second)
	}))
	graceful.HandleSignals()
	graceful.DoubleKickWindow(0)
	hook := make(chan bool, 1)
	graceful.PreHook(func() { hook <- true })
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	fmt.Fprintf(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n")
	<-in
	syscall.Kill(os.Getpid(), syscall.SIGINT)
	<-hook
	graceful.DoubleKickWindow(time.Hour)
	time.Sleep(300 * time.Millisecond)
	syscall.Kill(os.Getpid(), syscall.SIGINT)
	done := make(chan bool)
	go func() { graceful.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		fail("the second signal does not force the shutdown")
	}
}
''')
b("l03-gives-up", "L03", "a connection that takes long over its last request while the listener drains",
  "a drain gives up waiting and returns while a managed connection is still open",
  [(SHARD, '''	s.wg.Wait()
''', '''	done := make(chan struct{})
	go func() {
		s.wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(8 * time.Second):
	}
'''), (SHARD, 'import "sync"\n', 'import (\n\t"sync"\n\t"time"\n)\n')], imp(LI) + '''
func main() {
	l := newLis()
	t := listener.Wrap(l, listener.Manual)
	l.ch <- newConn(0)
	c, err := t.Accept()
	must(err)
	must(listener.MarkInUse(c))
	done := make(chan bool)
	go func() { t.Drain(); close(done) }()
	select {
	case <-done:
		fail("drain returned while the connection is open")
	case <-time.After(12 * time.Second):
	}
	c.Close()
	<-done
}
''')
b("g02-slow-hook", "G02", "a pre-hook that takes longer than ten seconds",
  "connections and listeners are closed while the hook still runs",
  [("graceful/signal.go", '''	PreHookWithSignal(func(_ os.Signal) {
		f()
	})
''', '''	PreHookWithSignal(func(_ os.Signal) {
		done := make(chan struct{})
		go func() {
			defer close(done)
			f()
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	})
''')],
  imp("net/http", GR) + SRV + '''
func main() {
	_, ch := serve(newBlocker())
	out := make(chan bool)
	graceful.PreHook(func() { <-out })
	go graceful.Shutdown()
	select {
	case <-ch:
		fail("the server stopped while a pre-hook was running")
	case <-time.After(13 * time.Second):
	}
	close(out)
	<-ch
}
''')
b("g07-header-limit", "G07", "a server without time limits, and a client that takes longer than ten seconds over its headers",
  "the client is cut off",
  [("graceful/serve13.go", '''	shadow.ConnState = connState(shadow.ConnState).Wrap
''', '''	shadow.ConnState = connState(shadow.ConnState).Wrap
	if shadow.ReadTimeout == 0 && shadow.ReadHeaderTimeout == 0 {
		shadow.ReadHeaderTimeout = 10 * time.Second
	}
'''), ("graceful/serve13.go", '	"sync/atomic"\n', '	"sync/atomic"\n\t"time"\n')], imp(GR) + G7 + '''
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go (&graceful.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})}).Serve(l)
	c, err := net.Dial("tcp", l.Addr().String())
	must(err)
	io.WriteString(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\nConnection: cl")
	time.Sleep(12 * time.Second)
	io.WriteString(c, "ose\\r\\n\\r\\n")
	b := make([]byte, 12)
	if _, err := io.ReadFull(c, b); err != nil || string(b) != "HTTP/1.1 200" {
		fail("a slow client receives " + string(b))
	}
}
''')
