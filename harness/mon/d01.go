package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zenazn/goji/bind"
	"vh/vfsched"
)

// Package bind looks at its environment when the process starts, so each case is
// a process. It is started in two stages, the first of which replaces itself by
// the second, so that the environment can name the process's own ID.

func init() {
	r1 := "processes started in environments that combine flags, GOJI_BIND, Einhorn's and systemd's variables (true, foreign and malformed), PORT and the fallback; what Sniff, the flag's default and the bound socket say is compared with the documented precedence. Cases are distinguished by environment."
	r2 := "bind strings of every kind given to processes that inherited several sockets; the parent connects to every socket in question, and exactly the documented one must be answered by the child, while anything else must end it. Cases are distinguished by bind string and surroundings."
	r3 := "processes with inherited launcher sockets start a process of their own, whose descriptors are compared by socket; readiness is announced repeatedly and concurrently to a recording control socket. Cases are distinguished by environment."
	props["D01/main"] = prop{r1, func(m *M) { m.RunN("precedence", m.N(2500, 60000), 8, d01) }}
	props["D02/main"] = prop{r2, func(m *M) { m.RunN("bind", m.N(2500, 60000), 8, d02) }}
	props["D03/main"] = prop{r3, func(m *M) {
		m.RunN("leak", m.N(600, 15000), 8, d03Leak)
		m.RunN("ready", m.N(800, 20000), 8, d03Ready)
	}}
	props["D03/race"] = prop{r3, func(m *M) { m.RunN("ready", m.N(200, 6000), 8, d03Ready) }}
	props["D03/pert"] = prop{r3, func(m *M) { m.RunN("ready", m.N(400, 8000), 8, d03Ready) }}
	children["stage1"] = func(a []string) {
		var env []string
		json.Unmarshal([]byte(os.Getenv("VH_STAGE2")), &env)
		for i := range env {
			env[i] = strings.NewReplacer("$PID", strconv.Itoa(os.Getpid()), "$PPID", strconv.Itoa(os.Getppid())).Replace(env[i])
			env[i] = strings.NewReplacer("@PARENT@", strconv.Itoa(os.Getppid()), "@SELF@", strconv.Itoa(os.Getpid())).Replace(env[i])
		}
		err := syscall.Exec("/proc/self/exe", append([]string{"mon"}, a...), env)
		fmt.Fprintln(os.Stderr, "harness: exec:", err)
		os.Exit(90)
	}
	children["fdlist"] = func([]string) { json.NewEncoder(os.Stdout).Encode(fdList()) }
	children["bindchild"] = bindChild
}

// fdList names what this process's descriptors refer to.
func fdList() (l []string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range ents {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			l = append(l, e.Name()+" "+s)
		}
	}
	return
}

// bindReport is what a child tells.
type bindReport struct {
	What    string
	Sniff   string
	Default string
	Value   string
	Network string
	Addr    string
	Fds     []string
	Err     string
	N       int
}

// bindCmd tells a child what to do.
type bindCmd struct {
	DefaultBind *string
	Args        []string // flags
	Sniff       bool
	Bind        string // "", "default", "socket", "listen-flag"
	Str         string
	Serve       bool
	Fdlist      bool
	Ctl         int      // the descriptor to read commands from instead of standard input
	Ready       int      // calls
	Again       []string // what to bind after these
	Par         int      // goroutines
	Pert        bool
	Seed        uint64
}

func bindChild(a []string) {
	var c bindCmd
	if err := json.Unmarshal([]byte(a[0]), &c); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	if c.Pert {
		perturbSome(rand.New(rand.NewPCG(c.Seed, 7)))
	}
	if c.Sniff || c.Bind == "default" {
		if c.DefaultBind != nil {
			bind.DefaultBind = *c.DefaultBind
		}
		flag.CommandLine = flag.NewFlagSet("app", flag.ExitOnError)
		bind.WithFlag()
		flag.CommandLine.Parse(c.Args)
		f := flag.Lookup("bind")
		if f == nil {
			enc.Encode(bindReport{What: "noflag"})
			os.Exit(0)
		}
		enc.Encode(bindReport{What: "sniff", Sniff: bind.Sniff(), Default: f.DefValue, Value: f.Value.String()})
	}
	if c.Fdlist {
		listFds(enc, "before")
	}
	var l net.Listener
	switch c.Bind {
	case "default":
		l = bind.Default()
	case "socket":
		l = bind.Socket(c.Str)
	}
	if c.Bind != "" {
		r := bindReport{What: "bound"}
		if l == nil {
			r.Err = "nil listener"
		} else {
			r.Network, r.Addr = l.Addr().Network(), l.Addr().String()
		}
		enc.Encode(r)
	}
	if l != nil && c.Serve {
		go func() {
			for {
				x, err := l.Accept()
				if err != nil {
					enc.Encode(bindReport{What: "accept", Err: err.Error()})
					return
				}
				fmt.Fprintf(x, "served by %d\n", os.Getpid())
				x.Close()
			}
		}()
	}
	if c.Fdlist {
		listFds(enc, "after")
	}
	{
		var wg sync.WaitGroup
		var left atomic.Int64
		left.Store(int64(c.Ready))
		for p := 0; p < c.Par; p++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for left.Add(-1) >= 0 {
					bind.Ready()
				}
			}()
		}
		wg.Wait()
		_, n := vfsched.Hits()
		enc.Encode(bindReport{What: "ready", N: int(n), Sniff: bind.Sniff()})
	}
	for _, s := range c.Again {
		l := bind.Socket(s)
		enc.Encode(bindReport{What: "again", Network: l.Addr().Network(), Addr: l.Addr().String()})
	}
	ctl := os.Stdin
	if c.Ctl != 0 {
		ctl = os.NewFile(uintptr(c.Ctl), "control")
	}
	for sc := bufio.NewScanner(ctl); sc.Scan(); { // until the parent lets go
		if sc.Text() == "close" {
			r := bindReport{What: "closed"}
			if err := l.Close(); err != nil {
				r.Err = err.Error()
			}
			enc.Encode(r)
		}
	}
	enc.Encode(bindReport{What: "bye"})
}

func listFds(enc *json.Encoder, what string) {
	cmd := exec.Command("/proc/self/exe", "fdlist")
	cmd.Env = []string{"GORACE=atexit_sleep_ms=0"}
	out, err := cmd.Output()
	r := bindReport{What: what}
	if err != nil {
		r.Err = err.Error()
	}
	json.Unmarshal(out, &r.Fds)
	enc.Encode(r)
}

// kid is a running child.
type kid struct {
	t   *T
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	se  bytes.Buffer
	pid int
	end sync.Once
	err error
	tm  *time.Timer
}

// stdinFile as standard error stands for what the child gets as standard input.
type stdinFile struct {
	io.Writer
	f *os.File
}

// startKid runs a child whose environment is env; @PARENT@ and @SELF@ stand for
// process IDs. files become its descriptors from 3.
func (t *T) startKid(env []string, files []*os.File, dir string, args ...string) *kid {
	return t.startKidTo(nil, env, files, dir, args...)
}

func (t *T) startKidTo(stderr io.Writer, env []string, files []*os.File, dir string, args ...string) *kid {
	k := &kid{t: t}
	self, _ := os.Executable()
	k.cmd = exec.Command(self, append([]string{"stage1"}, args...)...)
	full := append([]string{"PATH=" + os.Getenv("PATH"), "VH_SITEFILE=" + os.Getenv("VH_SITEFILE"), "GORACE=" + os.Getenv("GORACE"), "GOTRACEBACK=all"}, env...)
	b, _ := json.Marshal(full)
	k.cmd.Env = []string{"VH_STAGE2=" + string(b), "GORACE=" + os.Getenv("GORACE")}
	k.cmd.ExtraFiles = files
	k.cmd.Dir = dir
	k.cmd.Stderr = &k.se
	if stderr != nil {
		k.cmd.Stderr = stderr
	}
	k.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	k.cmd.WaitDelay = 5 * time.Second
	if l, ok := stderr.(*stdinFile); ok {
		// Standard input is something else, commands come from the last descriptor.
		k.cmd.Stderr = &k.se
		k.cmd.Stdin = l.f
		pr, pw, err := os.Pipe()
		if err != nil {
			t.m.Inconclusive("%v", err)
			return nil
		}
		defer pr.Close()
		k.in = pw
		k.cmd.ExtraFiles = append(append([]*os.File{}, files...), pr)
	} else {
		k.in, _ = k.cmd.StdinPipe()
	}
	so, _ := k.cmd.StdoutPipe()
	k.out = bufio.NewReader(so)
	if err := k.cmd.Start(); err != nil {
		t.m.Inconclusive("start: %v", err)
		return nil
	}
	k.pid = k.cmd.Process.Pid
	k.tm = time.AfterFunc(100*time.Second, func() { k.cmd.Process.Kill() })
	return k
}

// next reads a report; nil at the end.
func (k *kid) next() *bindReport {
	b, err := k.out.ReadBytes('\n')
	if err != nil {
		return nil
	}
	var r bindReport
	if json.Unmarshal(b, &r) != nil {
		return &bindReport{What: "garbage", Err: string(b)}
	}
	return &r
}

// stop lets go of the child and waits for its end.
func (k *kid) stop() error {
	k.end.Do(func() {
		k.in.Close()
		io.Copy(io.Discard, k.out)
		k.err = k.cmd.Wait()
		k.tm.Stop()
	})
	return k.err
}

func (k *kid) kill() { k.cmd.Process.Kill(); k.stop() }

// died tells whether the child ended itself with an error and an explanation.
func (k *kid) died() (bool, string) {
	err := k.stop()
	msg := strings.TrimSpace(k.se.String())
	if err == nil {
		return false, "exits successfully, saying " + msg
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 90 {
		k.t.m.Inconclusive("%s", msg)
	}
	if errors.As(err, &ee) && ee.ExitCode() > 0 && msg != "" && !strings.Contains(msg, "panic: ") && !strings.Contains(msg, "fatal error: ") {
		return true, msg
	}
	return false, fmt.Sprintf("ends with %v, saying %s", err, clip(msg, 1500))
}

var ipN atomic.Int64

// freshIP returns a loopback address nobody else here uses.
func freshIP(t *T, kind int) string {
	return fmt.Sprintf("127.%d.%d.%d", 1+kind*16+int(ipN.Add(1)>>14&15), ipN.Load()>>7&127, 1+ipN.Load()&127)
}

func tcpFile(t *T, kind int) (*net.TCPListener, *os.File) {
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp", freshIP(t, kind)+":0")
		if err != nil {
			continue
		}
		f, err := l.(*net.TCPListener).File()
		if err != nil {
			l.Close()
			continue
		}
		return l.(*net.TCPListener), f
	}
	t.m.Inconclusive("cannot listen on loopback")
	return nil, nil
}

// evar is a value for an environment variable and whether it means what it should.
type evar struct {
	set bool
	val string
	n   int
	ok  bool
}

func (e evar) env(name string, l []string) []string {
	if e.set {
		l = append(l, name+"="+e.val)
	}
	return l
}

var junk = []string{"", "x", "12x", "1.5", "99999999999999999999999", "0x3", "@PARENT@ ", "pid", "@PARENT@@PARENT@@PARENT@@PARENT@", "-"}

func pidVar(r *rand.Rand, right, wrong string) evar {
	switch r.IntN(8) {
	case 0:
		return evar{}
	case 1:
		return evar{set: true, val: pick(r, junk)}
	case 2:
		return evar{set: true, val: pick(r, []string{wrong, "1" + right, right + "0", "0", "-1", "-" + right, "1"})}
	}
	return evar{set: true, val: right, ok: true}
}

func numVar(r *rand.Rand, most int) evar {
	switch r.IntN(9) {
	case 0:
		return evar{}
	case 1:
		return evar{set: true, val: pick(r, []string{"", "x", "1x", "1.0", "99999999999999999999999", "one", "1,2"})}
	case 2:
		return evar{set: true, val: "0"}
	case 3:
		return evar{set: true, val: pick(r, []string{"-1", "-3"})}
	}
	n := 1 + r.IntN(most)
	return evar{set: true, val: fmt.Sprint(n), n: n, ok: true}
}

// launcherEnv makes an environment with sockets from descriptor 3 on.
type launcherEnv struct {
	env              []string
	einhorn, systemd bool
	ne, ns           int
	fdmap            []int
	desc             string
}

func newLauncherEnv(r *rand.Rand, nfiles int) *launcherEnv {
	e := &launcherEnv{}
	mp, ec := pidVar(r, "@PARENT@", "@SELF@"), numVar(r, nfiles)
	lp, lc := pidVar(r, "@SELF@", "@PARENT@"), numVar(r, nfiles)
	switch r.IntN(6) {
	case 0:
		mp, ec = evar{}, evar{}
	case 1:
		lp, lc = evar{}, evar{}
	}
	e.env = mp.env("EINHORN_MASTER_PID", e.env)
	e.env = ec.env("EINHORN_FD_COUNT", e.env)
	e.env = lp.env("LISTEN_PID", e.env)
	e.env = lc.env("LISTEN_FDS", e.env)
	e.einhorn, e.systemd = mp.ok && ec.ok && ec.n > 0, lp.ok && lc.ok && lc.n > 0
	if e.einhorn {
		e.ne = ec.n
	}
	if e.systemd {
		e.ns = lc.n
	}
	// Einhorn's descriptors come in any order.
	e.fdmap = r.Perm(nfiles)
	if ec.set && chance(r, 0.95) || e.einhorn {
		for i, f := range e.fdmap {
			e.env = append(e.env, fmt.Sprintf("EINHORN_FD_%d=%d", i, 3+f))
		}
	}
	// What launchers also leave behind says nothing about sockets.
	for _, v := range []string{"LISTEN_FDNAMES=http:https", "LISTEN_FDNAMES=", "NOTIFY_SOCKET=/run/none", "EINHORN_SOCK_FD=3",
		"EINHORN_FDS=3", "EINHORN_CHILD_INDEX=0", "INVOCATION_ID=1", "MAINPID=1", "HOST=example.test", "LISTEN_FD=3", "BIND=:1", "ADDR=:1", "GOJI_PORT=2"} {
		if chance(r, 0.04) {
			e.env = append(e.env, v)
		}
	}
	r.Shuffle(len(e.env), func(i, j int) { e.env[i], e.env[j] = e.env[j], e.env[i] })
	e.desc = strings.Join(e.env, " ")
	return e
}

func sockets(t *T, n int) (ls []*net.TCPListener, fs []*os.File) {
	for i := 0; i < n; i++ {
		l, f := tcpFile(t, 3)
		if l == nil {
			return nil, nil
		}
		ls, fs = append(ls, l), append(fs, f)
	}
	return
}

func closeAll(ls []*net.TCPListener, fs []*os.File) {
	for i := range ls {
		ls[i].Close()
		fs[i].Close()
	}
}

func d01(t *T) {
	r := t.Rng
	n := 1 + r.IntN(3)
	ls, fs := sockets(t, n)
	if ls == nil {
		return
	}
	defer closeAll(ls, fs)
	e := newLauncherEnv(r, n)
	env := e.env
	c := bindCmd{Sniff: true}
	flagIP, gojiIP, defIP := freshIP(t, 0), freshIP(t, 1), freshIP(t, 2)
	gojiSet, gojiVal := chance(r, 0.25), ""
	if gojiSet {
		gojiVal = pick(r, []string{"", gojiIP + ":0", gojiIP + ":0", gojiIP + ":0", " ", ":", "0", "nonsense", " :0", ":8000", "einhorn@1", "fd@4", "./x.sock", "=", "\u00e9"})
		env = append(env, "GOJI_BIND="+gojiVal)
	}
	portVal := ""
	if chance(r, 0.4) {
		portVal = pick(r, []string{"", "0", "0", "0", "8123", ":0", " 0", "http", "127.0.0.1:80", "-1", " "})
		env = append(env, "PORT="+portVal)
	}
	def := ":8000"
	if chance(r, 0.6) {
		def = defIP + ":0"
		c.DefaultBind = &def
	}
	flagVal, flagSet := "", false
	if chance(r, 0.05) {
		// It was passed, so it counts.
		flagVal, flagSet = pick(r, []string{"", " ", ":", "fd@9", "nonsense", "0"}), true
		c.Args = []string{"-bind=" + flagVal}
	} else if chance(r, 0.2) {
		flagSet = true
		flagVal = flagIP + ":0"
		c.Args = pick(r, [][]string{{"-bind", flagVal}, {"--bind=" + flagVal}, {"-bind", gojiIP + ":1", "-bind=" + flagVal}})
	}
	sniff := ""
	switch {
	case gojiVal != "":
		sniff = gojiVal
	case e.einhorn:
		sniff = "einhorn@0"
	case e.systemd:
		sniff = "fd@3"
	case portVal != "":
		sniff = ":" + portVal
	}
	wantDef := sniff
	if sniff == "" {
		wantDef = def
	}
	want := wantDef
	if flagSet {
		want = flagVal
	}
	// Bind it, if that cannot collide with something else on this machine.
	addr := ""
	switch want {
	case flagIP + ":0":
		addr = flagIP + ":"
	case gojiIP + ":0":
		addr = gojiIP + ":"
	case defIP + ":0":
		addr = defIP + ":"
	case ":0":
		addr = "[::]:"
	case "einhorn@0":
		addr = ls[e.fdmap[0]].Addr().String()
	case "fd@3":
		addr = ls[0].Addr().String()
	}
	if addr != "" {
		c.Bind = "default"
	}
	t.Desc(func() string { return fmt.Sprintf("environment %q, flags %q, fallback %s", env, c.Args, def) })
	arg, _ := json.Marshal(c)
	k := t.startKid(env, fs, "", "bindchild", string(arg))
	if k == nil {
		return
	}
	defer k.kill()
	rep := k.next()
	if rep == nil || rep.What != "sniff" {
		_, msg := k.died()
		t.Fail("in environment %q the process %s %+v", env, msg, rep)
		return
	}
	if rep.Sniff != sniff {
		t.Fail("in environment %q Sniff returns %q, not %q", env, rep.Sniff, sniff)
	}
	if rep.Default != wantDef || rep.Value != want {
		t.Fail("in environment %q with fallback %s and flags %q the flag's default is %q and its value %q, not %q and %q", env, def, c.Args, rep.Default, rep.Value, wantDef, want)
	}
	if c.Bind != "" {
		rep := k.next()
		if rep == nil {
			_, msg := k.died()
			t.Fail("in environment %q Default does not bind %s: the process %s", env, want, msg)
			return
		}
		if rep.Network != "tcp" || !strings.HasPrefix(rep.Addr, addr) && !(addr == "[::]:" && strings.HasPrefix(rep.Addr, "0.0.0.0:")) {
			t.Fail("in environment %q Default binds %s %s, not %s", env, rep.Network, rep.Addr, addr)
		}
		t.Count("default sockets bound", 1)
	}
	how := "chosen: "
	if flagSet {
		how = "flag: "
	} else if gojiVal != "" {
		how = "GOJI_BIND: "
	} else if sniff == ":"+portVal {
		how = "PORT: "
	}
	t.Count(how+strings.Split(strings.NewReplacer(flagIP+":0", "flag", gojiIP+":0", "GOJI_BIND", defIP+":0", "fallback", ":8000", "fallback", ":0", "PORT", ":8123", "PORT").Replace(want), " ")[0], 1)
	t.Saw(e.desc + gojiVal + portVal + fmt.Sprint(c.Args != nil, gojiSet))
	t.Sample(func() any { return fmt.Sprintf("%q flags %q => %s", env, c.Args, want) })
}

// ---- D02

// servedBy dials an address and reads who serves it.
func servedBy(network, addr string) string {
	c, err := net.DialTimeout(network, addr, 10*time.Second)
	if err != nil {
		return "refused: " + err.Error()
	}
	defer c.Close()
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	b, err := io.ReadAll(c)
	if len(b) == 0 && err != nil {
		return "no answer: " + err.Error()
	}
	return strings.TrimSpace(string(b))
}

func d02(t *T) {
	r := t.Rng
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "d")
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(dir+"/cwd/sub", 0o755)
	cwd := dir + "/cwd"
	n := 2 + r.IntN(3)
	ls, fs := sockets(t, n)
	if ls == nil {
		return
	}
	defer closeAll(ls, fs)
	files := append([]*os.File{}, fs...)
	// Some descriptors are no listening TCP sockets.
	ul, err := net.Listen("unix", dir+"/u")
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	defer ul.Close()
	uf, _ := ul.(*net.UnixListener).File()
	defer uf.Close()
	ufd := 3 + len(files)
	files = append(files, uf)
	reg, _ := os.Create(dir + "/file")
	defer reg.Close()
	rfd := 3 + len(files)
	files = append(files, reg)
	files = append(files, nil)
	closedFd := rfd + 40
	// Sometimes standard input is a listening socket, too.
	var zero *net.TCPListener
	var zf *os.File
	if chance(r, 0.4) {
		if zero, zf = tcpFile(t, 3); zero == nil {
			return
		}
		defer zero.Close()
		defer zf.Close()
	}

	e := newLauncherEnv(r, n)
	kind := pick(r, []string{"tcp", "tcp0", "port", "name", "unix", "unix", "fd", "fd", "fd-unix", "einhorn", "einhorn", "busy", "unix-busy", "junk", "junk", "fd-bad", "fd-bad", "einhorn-bad", "einhorn-env", "colon", "unix-bad"})
	env := e.env
	if strings.HasPrefix(kind, "einhorn") && kind != "einhorn-env" && chance(r, 0.6) {
		env = []string{"EINHORN_MASTER_PID=@PARENT@", fmt.Sprint("EINHORN_FD_COUNT=", n)}
		e.einhorn, e.ne = true, n
		if chance(r, 0.3) { // more indices than sockets
			e.ne = 9 + r.IntN(10)
			for len(e.fdmap) < e.ne {
				e.fdmap = append(e.fdmap, r.IntN(n))
			}
			env[1] = fmt.Sprint("EINHORN_FD_COUNT=", e.ne)
		}
		for i, f := range e.fdmap {
			env = append(env, fmt.Sprintf("EINHORN_FD_%d=%d", i, 3+f))
		}
	}
	var str, network, addr string
	fatal := false
	expect := "" // what Addr must say, if known
	var adopted *net.TCPListener
	busy := func(a string) { network, addr, expect = "tcp", a, a }
	free := func(ip string) string {
		l, err := net.Listen("tcp", ip+":0")
		if err != nil {
			return ip + ":0"
		}
		defer l.Close()
		return l.Addr().String()
	}
	switch kind {
	case "tcp":
		str = free(freshIP(t, 4))
		busy(str)
	case "tcp0":
		str = freshIP(t, 4) + ":0"
		network = "tcp"
	case "port":
		_, p, _ := net.SplitHostPort(free("127.0.0.1"))
		str, network, addr = ":"+p, "tcp", "127.0.0.1:"+p
	case "name":
		_, p, _ := net.SplitHostPort(free("127.0.0.1"))
		str = pick(r, []string{"localhost:", "0.0.0.0:", "[::]:"}) + p
		if strings.HasPrefix(str, "[") && !haveIPv6 {
			str = "0.0.0.0:" + p
		}
		network, addr = "tcp", "127.0.0.1:"+p
		if strings.HasPrefix(str, "localhost") {
			addr = str
		}
	case "unix":
		name := pick(r, []string{"./s", "./sub/s", "sub/../s", ".hidden", "../s", "./a b", "./fd@3", "./einhorn@0", dir + "/abs", dir + "/cwd/sub/fd@3"})
		if strings.HasPrefix(name, "sub") {
			name = "./" + name
		}
		str, network, addr = name, "unix", name
		if !filepath.IsAbs(name) {
			addr = filepath.Join(cwd, name)
		}
	case "fd":
		i := r.IntN(n)
		str = fmt.Sprintf("fd@%d", 3+i)
		adopted = ls[i]
		if zero != nil && r.IntN(3) == 0 {
			str, adopted = "fd@0", zero
		}
		busy(adopted.Addr().String())
	case "fd-unix":
		str, network, addr, expect = fmt.Sprintf("fd@%d", ufd), "unix", dir+"/u", dir+"/u"
	case "einhorn":
		i := r.IntN(max(n, e.ne) + 1)
		str = fmt.Sprintf("einhorn@%d", i)
		if chance(r, 0.2) {
			str = fmt.Sprintf("einhorn@%0*d", 2+r.IntN(3), i)
		}
		if i < e.ne {
			adopted = ls[e.fdmap[i]]
			busy(adopted.Addr().String())
		} else {
			fatal = true
		}
	case "busy":
		str, fatal = ls[0].Addr().String(), true
	case "unix-busy":
		str, fatal = dir+"/u", true
		if r.IntN(2) == 0 {
			str = "../file"
		}
	case "unix-bad":
		str, fatal = pick(r, []string{"./missing/s", dir + "/missing/s", "./" + strings.Repeat("long", 60), "/proc/s"}), true
	case "colon":
		// A colon makes it a TCP address, whatever it begins with.
		str, fatal = pick(r, []string{"./a:x", dir + "/a:b", "fd@3:x", "einhorn@0:x", ".:y", "a:b:c:d", "127.0.0.1:99999", "127.0.0.1:-1", "1.2.3.4.5:0", "/:/"}), true
	case "fd-bad":
		str, fatal = pick(r, []string{"fd@", "fd@x", "fd@3x", "fd@ 3", "fd@3 ", "fd@-1", "fd@-3", fmt.Sprint("fd@", closedFd), fmt.Sprint("fd@", rfd), "fd@3.0", "fd@0x3", "fd@99999999999999999999", "fd@@3", "fd@1e0"}), true
	case "einhorn-env":
		// Under Einhorn, but its description of a socket is unusable.
		bad := pick(r, []string{"", "-1", "x", "4x", fmt.Sprint(closedFd), fmt.Sprint(rfd), "-7"})
		env, str, fatal = []string{"EINHORN_MASTER_PID=@PARENT@", "EINHORN_FD_COUNT=1", "EINHORN_FD_0=" + bad}, "einhorn@0", true
		if bad == "" {
			env = env[:2]
		}
	case "einhorn-bad":
		str, fatal = pick(r, []string{"einhorn@", "einhorn@x", "einhorn@-1", "einhorn@-0x1", "einhorn@0x", "einhorn@ 0", "einhorn@99", "einhorn@1.0", fmt.Sprint("einhorn@", max(n, e.ne)), "einhorn@99999999999999999999"}), true
	case "junk":
		str, fatal = pick(r, []string{"", "8000", "foo", "FD@3", "Einhorn@0", "einhorn", "fd", "fd3", "@3", "@abstract", "~/s", " /tmp/x", "tcp", "unix", "xfd@3", "s.sock", "sub/s", "localhost", "127.0.0.1", "einhorn0", "fd@"}), true
	}
	c := bindCmd{Bind: "socket", Str: str, Serve: true}
	if r.IntN(3) == 0 {
		c.Bind, c.Args = "default", []string{"-bind=" + str}
	} else if r.IntN(4) == 0 && str != "" {
		c.Bind = "default"
		env = append(env, "GOJI_BIND="+str)
	}
	t.Desc(func() string {
		return fmt.Sprintf("%s: bind string %q, flags %q, environment %q", kind, str, c.Args, env)
	})
	if zero != nil {
		c.Ctl = 3 + len(files)
	}
	arg, _ := json.Marshal(c)
	var k *kid
	if zero != nil {
		k = t.startKidTo(&stdinFile{f: zf}, env, files, cwd, "bindchild", string(arg))
	} else {
		k = t.startKid(env, files, cwd, "bindchild", string(arg))
	}
	if k == nil {
		return
	}
	defer k.kill()
	rep := k.next()
	if rep != nil && rep.What == "sniff" {
		rep = k.next()
	}
	if fatal {
		if rep != nil {
			t.Fail("bind string %q (environment %q) is accepted: %+v", str, env, *rep)
			return
		}
		if ok, how := k.died(); !ok {
			t.Fail("given bind string %q (environment %q) the process %s", str, env, how)
		}
		if kind == "busy" && servedMine(ls[0]) != "" {
			t.Fail("a socket that was in use no longer belongs to its owner")
		}
		t.Count("processes ended for want of a socket", 1)
		t.Saw(fmt.Sprint("fatal ", str, c.Bind, e.einhorn, e.systemd))
		t.Sample(func() any { return fmt.Sprintf("%q ends the process: %s", str, clip(k.se.String(), 200)) })
		return
	}
	if rep == nil || rep.What != "bound" || rep.Err != "" {
		_, how := k.died()
		if strings.Contains(how, "address already in use") && (kind == "tcp" || kind == "port" || kind == "name") {
			t.Count("ports taken by somebody else meanwhile", 1)
			return
		}
		t.Fail("bind string %q (environment %q) is not bound: the process %s (%+v)", str, env, how, rep)
		return
	}
	if rep.Network != network || expect != "" && rep.Addr != expect {
		t.Fail("bind string %q (environment %q) is bound to %s %s, not %s %s", str, env, rep.Network, rep.Addr, network, expect)
	}
	if kind == "tcp0" {
		addr = rep.Addr
		if !strings.HasPrefix(addr, str[:len(str)-1]) {
			t.Fail("bind string %q is bound to %s", str, addr)
		}
	}
	if adopted != nil {
		adopted.Close() // the child has it now
	} else if kind == "fd-unix" {
		ul.(*net.UnixListener).SetUnlinkOnClose(false)
		ul.Close()
	}
	me := fmt.Sprintf("served by %d", k.pid)
	for i := 0; i < 2; i++ {
		if who := servedBy(network, addr); who != me {
			t.Fail("bind string %q (environment %q): a connection to %s %s is %s, not %s", str, env, network, addr, who, me)
			break
		}
	}
	// The other sockets are left alone.
	for i, l := range ls {
		if l == adopted {
			continue
		}
		if how := servedMine(l); how != "" {
			t.Fail("bind string %q (environment %q): a connection to socket %d, which is another one, is %s", str, env, i, how)
		}
	}
	if zero != nil && zero != adopted {
		if how := servedMine(zero); how != "" {
			t.Fail("bind string %q (environment %q): a connection to the socket that is its standard input is %s", str, env, how)
		}
	}
	// Closing it lets go of the socket.
	if adopted != nil {
		for i, l := range ls {
			if l == adopted {
				fs[i].Close()
			}
		}
		if adopted == zero {
			zf.Close()
		}
	}
	if kind != "fd-unix" && kind != "port" && kind != "name" && t.nfail.Load() == 0 {
		fmt.Fprintln(k.in, "close")
		var rep *bindReport
		for rep = k.next(); rep != nil && rep.What != "closed"; rep = k.next() {
		}
		if rep == nil || rep.Err != "" {
			t.Fail("bind string %q (environment %q): closing the listener gives %+v", str, env, rep)
			return
		}
		for try := 0; ; try++ {
			// Processes just being started by other trials may still have it.
			x, err := net.DialTimeout(network, addr, 10*time.Second)
			if err != nil {
				break
			}
			x.Close()
			if try == 100 {
				t.Fail("bind string %q (environment %q): %s %s still accepts connections after the listener was closed", str, env, network, addr)
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		t.Count("sockets let go of when closed", 1)
	}
	t.Count("sockets bound: "+kind, 1)
	t.Saw(fmt.Sprint(kind, str, c.Bind, e.desc))
	t.Sample(func() any { return fmt.Sprintf("%q => %s %s", str, rep.Network, rep.Addr) })
}

var haveIPv6 = func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
}()

// servedMine checks that a connection to l reaches this process.
func servedMine(l *net.TCPListener) string {
	c, err := net.DialTimeout("tcp", l.Addr().String(), 10*time.Second)
	if err != nil {
		return "refused: " + err.Error()
	}
	defer c.Close()
	l.SetDeadline(time.Now().Add(20 * time.Second))
	x, err := l.Accept()
	if err != nil {
		return "not accepted by its owner: " + err.Error()
	}
	defer x.Close()
	if x.RemoteAddr().String() != c.LocalAddr().String() {
		return "mixed up with " + x.RemoteAddr().String()
	}
	return ""
}

// ---- D03

func d03Leak(t *T) {
	r := t.Rng
	n := 1 + r.IntN(6)
	if r.IntN(10) == 0 {
		n = 30
	}
	ls, fs := sockets(t, n)
	if ls == nil {
		return
	}
	defer closeAll(ls, fs)
	e := newLauncherEnv(r, n)
	c := bindCmd{Fdlist: true}
	switch {
	case e.einhorn && r.IntN(2) == 0:
		c.Bind, c.Str = "socket", fmt.Sprintf("einhorn@%d", r.IntN(e.ne))
	case e.systemd && r.IntN(2) == 0:
		c.Bind, c.Str = "socket", fmt.Sprintf("fd@%d", 3+r.IntN(e.ns))
	case (e.einhorn || e.systemd) && r.IntN(2) == 0:
		c.Bind = "default"
	}
	received := map[string]string{} // socket -> what it is
	name := func(i int) string {
		var st syscall.Stat_t
		syscall.Fstat(int(fs[i].Fd()), &st)
		return fmt.Sprintf("socket:[%d]", st.Ino)
	}
	for i := 0; i < e.ne; i++ {
		received[name(e.fdmap[i])] = fmt.Sprintf("Einhorn socket %d", i)
	}
	for i := 0; i < e.ns; i++ {
		received[name(i)] = fmt.Sprintf("systemd socket %d", i)
	}
	t.Desc(func() string { return fmt.Sprintf("environment %q, %d sockets, bound %q", e.env, n, c.Str) })
	arg, _ := json.Marshal(c)
	k := t.startKid(e.env, fs, "", "bindchild", string(arg))
	if k == nil {
		return
	}
	defer k.kill()
	seen := 0
	for _, want := range []string{"before", "after"} {
		rep := k.next()
		for rep != nil && (rep.What == "bound" || rep.What == "sniff") {
			rep = k.next()
		}
		if rep == nil || rep.What != want || rep.Err != "" || len(rep.Fds) == 0 {
			_, how := k.died()
			if c.Bind == "" || want == "before" {
				t.m.Inconclusive("leak:%d: %+v %s", t.Index, rep, how)
			} else {
				t.Fail("%s is not bound: the process %s", c.Str, how)
			}
			return
		}
		for _, f := range rep.Fds {
			fd, what, _ := strings.Cut(f, " ")
			if r, ok := received[what]; ok {
				t.Fail("%s is inherited as descriptor %s by a process started %s binding %q", r, fd, want, c.Str)
			}
		}
		seen += len(rep.Fds)
	}
	t.Count("launcher sockets received", int64(len(received)))
	t.Count("descriptors of grandchildren inspected", int64(seen))
	if len(received) > 0 {
		t.Saw(fmt.Sprint(e.desc, c.Bind, c.Str))
	} else {
		t.Saw("")
	}
	t.Sample(func() any { return fmt.Sprintf("%d sockets received, none inherited; bound %q", len(received), c.Str) })
}

func d03Ready(t *T) {
	r := t.Rng
	dir, err := os.MkdirTemp(os.Getenv("VH_TMP"), "d")
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	n := 1 + r.IntN(2)
	ls, fs := sockets(t, n)
	if ls == nil {
		return
	}
	defer closeAll(ls, fs)
	ctl, err := net.Listen("unix", dir+"/ctl")
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	defer ctl.Close()
	var mu sync.Mutex
	var msgs []string
	var wg sync.WaitGroup
	accepted := make(chan struct{})
	go func() {
		defer close(accepted)
		for {
			x, err := ctl.Accept()
			if err != nil {
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.SetReadDeadline(time.Now().Add(60 * time.Second))
				b, _ := io.ReadAll(x)
				x.Close()
				mu.Lock()
				msgs = append(msgs, string(b))
				mu.Unlock()
			}()
		}
	}()
	e := newLauncherEnv(r, n)
	ours := r.IntN(2) == 0
	if ours {
		e.env = []string{"EINHORN_MASTER_PID=@PARENT@", "EINHORN_FD_COUNT=" + fmt.Sprint(n)}
		for i := range fs {
			e.env = append(e.env, fmt.Sprintf("EINHORN_FD_%d=%d", i, 3+i))
		}
		e.einhorn, e.ne = true, n
	}
	env := append(e.env, "EINHORN_SOCK_PATH="+dir+"/ctl")
	c := bindCmd{Ready: r.IntN(6), Par: 1 + r.IntN(8), Pert: t.m.Phase != "main", Seed: r.Uint64()}
	if ours {
		// Sockets can be bound afterwards just as well.
		for i := range fs {
			c.Again = append(c.Again, fmt.Sprint("einhorn@", i))
		}
		r.Shuffle(n, func(i, j int) { c.Again[i], c.Again[j] = c.Again[j], c.Again[i] })
		c.Again = c.Again[:r.IntN(n+1)]
	}
	if r.IntN(4) == 0 {
		c.Bind, c.Str = "socket", freshIP(t, 5)+":0"
	}
	t.Desc(func() string {
		return fmt.Sprintf("environment %q, %d calls of Ready in %d goroutines", env, c.Ready, c.Par)
	})
	arg, _ := json.Marshal(c)
	k := t.startKid(env, fs, "", "bindchild", string(arg))
	if k == nil {
		return
	}
	defer k.kill()
	rep := k.next()
	if rep != nil && rep.What == "bound" {
		rep = k.next()
	}
	if rep == nil || rep.What != "ready" {
		_, how := k.died()
		t.Fail("announcing readiness (%q), the process %s", env, how)
		return
	}
	if ours && rep.Sniff != "einhorn@0" {
		t.Fail("after %d calls of Ready, Sniff returns %q under Einhorn", c.Ready, rep.Sniff)
	}
	for _, s := range c.Again {
		rep := k.next()
		if rep == nil || rep.What != "again" {
			_, how := k.died()
			t.Fail("binding %q after %d calls of Ready (%q), the process %s", s, c.Ready, env, how)
			return
		}
		if want := ls[s[len(s)-1]-'0'].Addr(); rep.Network != want.Network() || rep.Addr != want.String() {
			t.Fail("after %d calls of Ready, %q is bound to %s %s, not to %v", c.Ready, s, rep.Network, rep.Addr, want)
		}
	}
	if err := k.stop(); err != nil {
		t.Fail("the process ends with %v: %s", err, clip(k.se.String(), 1000))
	}
	// A connection made before the process ended is in the backlog by now.
	ctl.(*net.UnixListener).SetDeadline(time.Now().Add(3 * time.Millisecond))
	<-accepted
	wg.Wait()
	want := 0
	if e.einhorn && c.Ready > 0 {
		want = 1
	}
	sort.Strings(msgs)
	if len(msgs) != want {
		t.Fail("after %d calls of Ready in environment %q there were %d acknowledgements, not %d: %q", c.Ready, env, len(msgs), want, msgs)
	}
	for _, s := range msgs {
		var v struct {
			Command string
			Pid     int
		}
		var rest map[string]any
		err := json.Unmarshal([]byte(s), &v)
		json.Unmarshal([]byte(s), &rest)
		if err != nil || v.Command != "worker:ack" || v.Pid != k.pid || len(rest) != 2 || strings.Count(s, "\n") != 1 || !strings.HasSuffix(s, "\n") {
			t.Fail("process %d acknowledges with %q", k.pid, s)
		}
	}
	t.Count("acknowledgements received", int64(len(msgs)))
	if c.Ready > 0 {
		t.Saw(fmt.Sprint(e.desc, c.Ready, c.Par, e.einhorn))
	} else {
		t.Saw("")
	}
	t.Sample(func() any {
		return fmt.Sprintf("%d calls in %d goroutines, under Einhorn %v => %q", c.Ready, c.Par, e.einhorn, msgs)
	})
}
