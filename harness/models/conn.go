package models

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"gotor/zzverif/vsym"
)

// Conn is an in-memory connection that runs natively and symbolically. The
// harness queues the chunks that reads return (each Read takes at most one
// chunk), and looks at what was written.
type Conn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	in       [][]byte
	eof      bool
	rerr     error
	werr     error
	WFail    int // fail writes after this many (negative: never)
	Out      []byte
	Writes   [][]byte
	closed   bool
	Closes   int
	Reads    int
	deadline bool
	until    time.Time
	wuntil   time.Time
	Expire   bool // deadlines pass with the clock
	Room     int  // how much can be sent before writes block (negative: all)
	busy     bool // a write has to wait
	peer     *Conn
	Remote   net.Addr
	OnWrite  func(b []byte)
}

func NewConn() *Conn {
	c := &Conn{WFail: -1, Room: -1, Remote: &net.TCPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 6881}}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Pipe returns two connected ends.
func Pipe() (*Conn, *Conn) {
	a, b := NewConn(), NewConn()
	a.peer, b.peer = b, a
	return a, b
}

// Feed queues one chunk.
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	if len(b) > 0 {
		c.in = append(c.in, append([]byte(nil), b...))
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FeedEOF makes reads after the queued chunks return io.EOF.
func (c *Conn) FeedEOF() {
	c.mu.Lock()
	c.eof = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FeedError makes reads after the queued chunks fail.
func (c *Conn) FeedError(e error) {
	c.mu.Lock()
	c.rerr = e
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FailWrites makes every further write fail.
func (c *Conn) FailWrites(e error) {
	c.mu.Lock()
	c.werr = e
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Reads++
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.deadline || c.Expire && !c.until.IsZero() && !time.Now().Before(c.until) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(b, c.in[0])
			vsym.Touch(b[:n], true)
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			return n, nil
		}
		if c.rerr != nil {
			return 0, c.rerr
		}
		if c.eof {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if c.Expire && !c.wuntil.IsZero() && !time.Now().Before(c.wuntil) {
		c.mu.Unlock()
		return 0, os.ErrDeadlineExceeded
	}
	if c.werr == nil && c.WFail == 0 {
		c.werr = errors.New("write failed")
	}
	if c.WFail > 0 {
		c.WFail--
	}
	if c.Room >= 0 {
		defer c.mu.Unlock()
		return c.slowly(b)
	}
	if c.werr != nil {
		e := c.werr
		c.mu.Unlock()
		return 0, e
	}
	vsym.Touch(b, false)
	cp := append([]byte(nil), b...)
	c.Out = append(c.Out, cp...)
	c.Writes = append(c.Writes, cp)
	p := c.peer
	f := c.OnWrite
	c.mu.Unlock()
	if p != nil {
		p.Feed(cp)
	}
	if f != nil {
		f(cp)
	}
	return len(b), nil
}

// slowly sends as much as there is room for and waits for more room. Writes
// come one after the other.
func (c *Conn) slowly(b []byte) (int, error) {
	for c.busy && !c.closed && c.werr == nil {
		c.cond.Wait()
	}
	own := !c.busy
	c.busy = true
	n := 0
	var e error
	for e == nil {
		k := len(b) - n
		if c.Room >= 0 && c.Room < k {
			k = c.Room
		}
		switch {
		case c.closed:
			e = net.ErrClosed
		case c.werr != nil:
			e = c.werr
		case c.Expire && !c.wuntil.IsZero() && !time.Now().Before(c.wuntil):
			e = os.ErrDeadlineExceeded
		default:
			vsym.Touch(b[n:n+k], false)
			c.Out = append(c.Out, b[n:n+k]...)
			n += k
			if c.Room >= 0 {
				c.Room -= k
			}
			if n == len(b) {
				c.Writes = append(c.Writes, append([]byte(nil), b...))
				if own {
					c.busy = false
				}
				c.cond.Broadcast()
				return n, nil
			}
			c.cond.Wait()
		}
	}
	if own {
		c.busy = false
	}
	c.cond.Broadcast()
	return n, e
}

// Drain makes room for n more bytes (negative: all).
func (c *Conn) Drain(n int) {
	c.mu.Lock()
	if n < 0 {
		c.Room = -1
	} else if c.Room >= 0 {
		c.Room += n
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *Conn) Close() error {
	c.mu.Lock()
	c.Closes++
	was := c.closed
	c.closed = true
	p := c.peer
	c.cond.Broadcast()
	c.mu.Unlock()
	if p != nil && !was {
		p.FeedEOF()
	}
	if was {
		return net.ErrClosed
	}
	return nil
}

// Closed reports whether the connection was closed.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Sent is everything written so far.
func (c *Conn) Sent() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.Out...)
}

// Messages are the writes so far.
func (c *Conn) Messages() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.Writes...)
}

func (c *Conn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 60666} }
func (c *Conn) RemoteAddr() net.Addr { return c.Remote }

// Deadlines in the past make reads fail; others expire only with Expire.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.deadline = !t.IsZero() && t.Unix() < 100000000
	c.until = t
	if c.Expire && !t.IsZero() && !c.deadline {
		time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	if e := c.SetReadDeadline(t); e != nil {
		return e
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.wuntil = t
	if c.Expire && c.Room >= 0 && !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
	return nil
}
