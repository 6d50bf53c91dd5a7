package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

func fail(f string, a ...interface{}) {
	fmt.Println("FAIL:", fmt.Sprintf(f, a...))
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fmt.Println("demo cannot run:", err)
		panic(err)
	}
}

// ask serves one request without a network.
func ask(h http.Handler, method, path string, hdr ...string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, "/", nil)
	r.URL.Path, r.RequestURI = path, path
	for i := 0; i+1 < len(hdr); i += 2 {
		r.Header.Set(hdr[i], hdr[i+1])
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}

// eventually polls for a condition for a generous time.
func eventually(f func() bool) bool {
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// conn is a transport that delivers what is put into data.
type conn struct {
	id      int
	data    chan string
	done    chan struct{}
	once    sync.Once
	closes  int32
	onClose func()
}

func newConn(id int) *conn { return &conn{id: id, data: make(chan string, 16), done: make(chan struct{})} }
func (c *conn) Read(b []byte) (int, error) {
	select {
	case s := <-c.data:
		return copy(b, s), nil
	case <-c.done:
		return 0, errors.New("transport closed")
	}
}
func (c *conn) Write(b []byte) (int, error) { return len(b), nil }
func (c *conn) Close() error {
	if c.onClose != nil {
		c.onClose()
	}
	atomic.AddInt32(&c.closes, 1)
	c.once.Do(func() { close(c.done) })
	return nil
}
func (c *conn) closed() bool                       { return atomic.LoadInt32(&c.closes) != 0 }
func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// lis is a listener that hands out what is put into ch.
type lis struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newLis() *lis { return &lis{ch: make(chan net.Conn, 1024), done: make(chan struct{})} }
func (l *lis) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Err: errors.New("use of closed network connection")}
	}
}
func (l *lis) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *lis) Addr() net.Addr { return &net.TCPAddr{} }

var _ = io.EOF
