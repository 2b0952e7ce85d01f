package models

import (
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"

	"gotor/zzverif/vsym"
)

// ---------------------------------------------------------------- listeners

// Listener is an in-memory listener.
type Listener struct {
	port   int
	local  bool // only reachable at 127.0.0.1
	queue  []net.Conn
	closed bool
}

var (
	listenMu   sync.Mutex
	listenCond = sync.NewCond(&listenMu)
	listeners  = map[int]*Listener{}
	// ListenFails makes listening fail (only symbolically).
	ListenFails bool
	exhausted   bool
	oldLimit    syscall.Rlimit
)

// Exhaust uses up the descriptors that the system allows: one more connection
// can be opened, but not accepted.
func Exhaust() {
	if vsym.Symbolic() {
		listenMu.Lock()
		exhausted = true
		listenMu.Unlock()
		return
	}
	fd, e := syscall.Dup(0)
	if e != nil {
		panic(e)
	}
	syscall.Close(fd)
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &oldLimit) != nil {
		panic("no limit")
	}
	l := oldLimit
	l.Cur = uint64(fd) + 1
	if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l) != nil {
		panic("the limit cannot be set")
	}
}

// Relieve undoes Exhaust.
func Relieve() {
	if vsym.Symbolic() {
		listenMu.Lock()
		exhausted = false
		listenMu.Unlock()
		return
	}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &oldLimit)
}

// Listen models net.Listen.
func Listen(network, address string) (net.Listener, error) {
	host, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("bad port")}
	}
	listenMu.Lock()
	defer listenMu.Unlock()
	if ListenFails || listeners[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("address already in use")}
	}
	l := &Listener{port: port, local: host != "" && host != "0.0.0.0" && host != "::"}
	listeners[port] = l
	listenCond.Broadcast()
	return l, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	listenMu.Lock()
	defer listenMu.Unlock()
	for len(l.queue) == 0 {
		if l.closed {
			return nil, net.ErrClosed
		}
		listenCond.Wait()
	}
	if exhausted {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}

func (l *Listener) Close() error {
	listenMu.Lock()
	defer listenMu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	delete(listeners, l.port)
	listenCond.Broadcast()
	return nil
}

func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4zero, Port: l.port} }

// FreePort is a port on which nobody listens.
func FreePort() uint16 {
	if vsym.Symbolic() {
		return 51413
	}
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		panic(e)
	}
	defer l.Close()
	return uint16(l.Addr().(*net.TCPAddr).Port)
}

// Connect opens a connection to a port on which the client listens. It gives
// up after five seconds.
func Connect(port uint16) (net.Conn, error) { return ConnectTo(1, port) }

// ConnectTo does so at the loopback address with this last byte.
func ConnectTo(last byte, port uint16) (net.Conn, error) {
	if !vsym.Symbolic() {
		var c net.Conn
		var e error
		for i := 0; i < 100; i++ {
			c, e = net.Dial("tcp", (&net.TCPAddr{IP: net.IPv4(127, 0, 0, last), Port: int(port)}).String())
			if e == nil {
				return c, nil
			}
			time.Sleep(50 * time.Millisecond)
		}
		return nil, e
	}
	listenMu.Lock()
	defer listenMu.Unlock()
	l := listeners[int(port)]
	if l == nil || l.local && last != 1 {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
	}
	a, b := Pipe()
	connects++
	b.Remote = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + connects}
	b.Expire = true
	l.queue = append(l.queue, b)
	listenCond.Broadcast()
	return a, nil
}

var connects int

// ---------------------------------------------------------------- trackers

// Tracker stands for the tracker: a transport that answers every request.
type Tracker struct {
	mu   sync.Mutex
	Req  *http.Request
	N    int
	Body []byte
	Fail int // -1: the connection fails; > 0: the body fails after Fail-1 bytes
}

type failing struct {
	r io.Reader
	n int
}

func (f *failing) Read(b []byte) (int, error) {
	if f.n == 0 {
		return 0, errors.New("connection reset")
	}
	if len(b) > f.n {
		b = b[:f.n]
	}
	n, err := f.r.Read(b)
	f.n -= n
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

func (t *Tracker) RoundTrip(r *http.Request) (*http.Response, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r.URL.Scheme != "http" && r.URL.Scheme != "https" || r.URL.Host == "" {
		return nil, errors.New("not a http URL")
	}
	t.Req = r
	t.N++
	if t.Fail < 0 {
		return nil, errors.New("connection refused")
	}
	var b io.Reader = bytes.NewReader(t.Body)
	if t.Fail > 0 {
		b = &failing{b, t.Fail - 1}
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(b), ContentLength: -1, Request: r}, nil
}

// Install makes it the tracker that requests go to.
func (t *Tracker) Install() { http.DefaultTransport = t }

// Query is the last request's query.
func (t *Tracker) Query() (url.Values, error) { return url.ParseQuery(t.Req.URL.RawQuery) }
