package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

// Package middleware looks at standard output when the process starts, so what
// the log looks like depends on how that was started.

func init() { children["ttychild"] = ttyChild }

type ttyCmd struct {
	Seed  uint64
	N     int
	IDs   bool
	Sleep bool
}

var ttyStatuses = []int{0, 200, 201, 204, 299, 300, 304, 399, 400, 404, 499, 500, 503, 599, 600, 999}

// ttyChild serves requests; its log goes to descriptor 3.
func ttyChild(a []string) {
	var c ttyCmd
	if err := json.Unmarshal([]byte(a[0]), &c); err != nil {
		panic(err)
	}
	r := rand.New(rand.NewPCG(c.Seed, 9))
	log.SetOutput(os.NewFile(3, "log"))
	log.SetFlags(0)
	mux := web.New()
	if c.IDs {
		mux.Use(middleware.RequestID)
	}
	mux.Use(middleware.Logger)
	var id string
	var code int
	mux.Handle("/*", func(c web.C, w http.ResponseWriter, r *http.Request) {
		id = middleware.GetReqID(c)
		if code != 0 {
			w.WriteHeader(code)
		}
		if len(r.URL.Path) > 9 {
			time.Sleep(510 * time.Millisecond)
		}
	})
	for i := 0; i < c.N; i++ {
		code = pick(r, ttyStatuses)
		if i < len(ttyStatuses) {
			code = ttyStatuses[i]
		}
		path := pick(r, []string{"/a", "/b c", "/%d%s", "/\x1b[3"})
		if c.Sleep && i == 3 {
			path = "/slowslowslow"
		}
		q := newReq(pick(r, []string{"GET", "PUT", "FOO"}), path)
		q.RemoteAddr = fmt.Sprintf("192.0.2.1:%d", i)
		mux.ServeHTTP(newRW(), q)
		st := code
		if st == 0 {
			st = 200
		}
		// What the two lines have to say.
		b, _ := json.Marshal([]string{id, q.Method, q.URL.String(), q.RemoteAddr, fmt.Sprintf("%03d", st)})
		log.Printf("EXPECT %s", b)
	}
}

var sgr = regexp.MustCompile("\x1b\\[([0-9;]*)m")

func openPty() (m, s *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	var zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 { // TIOCGPTN
		syscall.Close(fd)
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 { // TIOCSPTLCK
		syscall.Close(fd)
		return nil, nil, e
	}
	s, err = os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		syscall.Close(fd)
		return nil, nil, err
	}
	return os.NewFile(uintptr(fd), "ptmx"), s, nil
}

func b05Terminal(t *T) {
	r := t.Rng
	c := ttyCmd{Seed: r.Uint64(), N: 20 + r.IntN(60), IDs: chance(r, 0.6), Sleep: chance(r, 0.1)}
	kinds := []string{"terminal", "pipe", "terminal", "file", "socket", "null", "errors on a terminal", "closed"}
	kind := kinds[t.Index%len(kinds)]
	t.Desc(func() string { return fmt.Sprintf("standard output: %s, %+v", kind, c) })
	b, _ := json.Marshal(c)
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "ttychild", string(b))
	var closers []io.Closer
	defer func() {
		for _, c := range closers {
			c.Close()
		}
	}()
	lr, lw, err := os.Pipe()
	if err != nil {
		t.m.Inconclusive("%v", err)
		return
	}
	closers = append(closers, lr)
	var se bytes.Buffer
	cmd.Stderr = &se
	color := 0 // 1: wanted, -1: unwanted
	switch kind {
	case "terminal", "errors on a terminal":
		m, s, err := openPty()
		if err != nil {
			t.Count("no terminals to be had", 1)
			lw.Close()
			return
		}
		closers = append(closers, m, s)
		if kind == "terminal" {
			color = 1
			cmd.Stdout = s
		} else {
			color = -1
			cmd.Stderr = s
			cmd.Stdin = s
			cmd.Stdout = &bytes.Buffer{} // that is, a pipe
		}
	case "pipe":
		color = -1
		cmd.Stdout = &bytes.Buffer{}
	case "file":
		color = -1
		f, err := os.CreateTemp(os.Getenv("VH_TMP"), "stdout")
		if err != nil {
			t.m.Inconclusive("%v", err)
			lw.Close()
			return
		}
		os.Remove(f.Name())
		closers = append(closers, f)
		cmd.Stdout = f
	case "socket":
		color = -1
		p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			t.m.Inconclusive("%v", err)
			lw.Close()
			return
		}
		f, g := os.NewFile(uintptr(p[0]), "a"), os.NewFile(uintptr(p[1]), "b")
		closers = append(closers, f, g)
		cmd.Stdout = f
	case "closed":
		// Standard output is not there (what the descriptor stands for then is
		// nothing in particular).
		sh := exec.Command("/bin/sh", "-c", `exec "$0" "$@" >&-`, self, "ttychild", string(b))
		sh.Stderr = &se
		cmd = sh
	case "null": // a device, but no terminal: a heuristic may be fooled by it
	}
	cmd.ExtraFiles = []*os.File{lw}
	if err := cmd.Start(); err != nil {
		t.m.Inconclusive("%v", err)
		lw.Close()
		return
	}
	lw.Close()
	out, _ := io.ReadAll(lr)
	if err := cmd.Wait(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) || !strings.Contains(se.String(), "goji") {
			t.m.Inconclusive("child: %v %s", err, clip(se.String(), 1000))
			return
		}
		t.Fail("standard output is %s: the process ends with %v %s", kind, err, clip(se.String(), 2000))
		return
	}
	var lines []string
	n := 0
	for _, l := range strings.Split(strings.TrimSuffix(string(out), "\n"), "\n") {
		exp, ok := strings.CutPrefix(l, "EXPECT ")
		if !ok {
			lines = append(lines, l)
			continue
		}
		n++
		var want []string
		if json.Unmarshal([]byte(exp), &want) != nil {
			t.m.Inconclusive("child: %s", l)
			return
		}
		if len(lines) != 2 {
			t.Fail("standard output is %s: a request is logged in %d lines %q", kind, len(lines), lines)
			return
		}
		for i, l := range lines {
			text, codes := sgr.ReplaceAllString(l, ""), sgr.FindAllStringSubmatch(l, -1)
			text = strings.TrimRight(text, " ")
			var mm []string
			if i == 0 {
				mm = startRe.FindStringSubmatch(text)
			} else {
				mm = endRe.FindStringSubmatch(text)
			}
			if mm == nil || mm[1] != want[0] {
				t.Fail("standard output is %s: %q is not the line expected for request ID %q", kind, l, want[0])
				return
			}
			if i == 0 && (!strings.Contains(mm[2], want[1]) || !strings.Contains(mm[2], want[2]) || !strings.Contains(mm[2], want[3])) || i == 1 && mm[2] != want[4] {
				t.Fail("standard output is %s: %q does not tell about %q", kind, l, want)
				return
			}
			if color == 1 && len(codes) == 0 {
				t.Fail("standard output is a terminal, but the line is not in color: %q", l)
				return
			}
			if color == -1 && strings.Contains(l, "\x1b") {
				t.Fail("standard output is no terminal (%s), but the line is in color: %q", kind, l)
				return
			}
			if len(codes) > 0 {
				if last := codes[len(codes)-1][1]; last != "" && strings.Trim(last, "0;") != "" {
					t.Fail("the terminal is left in the color of the line %q", l)
					return
				}
				t.Count("lines in color", 1)
			} else {
				t.Count("lines in black and white", 1)
			}
		}
		lines = nil
	}
	if n != c.N || len(lines) > 0 {
		t.Fail("standard output is %s: %d of %d requests were logged", kind, n, c.N)
	}
	t.Saw(kind + fmt.Sprint(c))
}
