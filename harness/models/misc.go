package models

import (
	"errors"
	"hash"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sync"
	"time"

	"gotor/zzverif/vsym"
)

// ---------------------------------------------------------------- SHA-1

type sha struct{ buf []byte }

func (s *sha) Write(b []byte) (int, error) { s.buf = append(s.buf, b...); return len(b), nil }
func (s *sha) Sum(in []byte) []byte        { return append(in, vsym.Digest(s.buf)...) }
func (s *sha) Reset()                      { s.buf = nil }
func (s *sha) Size() int                   { return 20 }
func (s *sha) BlockSize() int              { return 64 }

func NewSHA1() hash.Hash { return &sha{} }

func SumSHA1(data []byte) [20]byte {
	var r [20]byte
	copy(r[:], vsym.Digest(data))
	return r
}

// ---------------------------------------------------------------- randomness

type source struct{}

func (s *source) Int63() int64    { return RandInt63() }
func (s *source) Uint64() uint64  { return RandUint64() }
func (s *source) Seed(seed int64) {}

func NewSource(seed int64) rand.Source { return &source{} }

// RandSkips bounds how many of the 6-bit groups of all random values are 52 or
// more (rejection sampling of letters retries on those); negative: any number.
var (
	RandSkips int64 = -1
	randBad   int64
	// RandPattern, if set, says which 6-bit groups are 52 or more.
	RandPattern func(group int) bool
	randGroups  int
	// RandFixed makes all random values one fixed sequence.
	RandFixed bool
	randSeq   uint64
)

func randBits() uint64 {
	if RandFixed {
		var v uint64
		for i := 0; i < 10; i++ {
			v = v<<6 | randSeq%52
			randSeq++
		}
		return v << 1
	}
	v := vsym.Uint64("rand")
	if RandPattern != nil {
		for i := uint(0); i < 60; i += 6 {
			vsym.Assume((isBad(v>>1>>i&63) == 1) == RandPattern(randGroups))
			randGroups++
		}
		return v
	}
	if RandSkips >= 0 {
		for i := uint(0); i < 64; i += 6 {
			randBad += isBad(v >> 1 >> i & 63)
		}
		vsym.Assume(randBad <= RandSkips)
	}
	return v
}

func isBad(v uint64) int64 {
	if v >= 52 {
		return 1
	}
	return 0
}

func RandInt63() int64   { return int64(randBits() >> 1) }
func RandUint64() uint64 { return randBits() }
func RandUint32() uint32 { return vsym.Uint32("rand32") }
func RandInt31() int32   { return int32(vsym.Uint32("rand32") >> 1) }
func RandInt() int       { return int(vsym.Uint64("rand") >> 1) }

func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(vsym.Range("randn", 0, int64(n)-1))
}

func RandInt63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return vsym.Range("randn", 0, n-1)
}

func RandInt31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(vsym.Range("randn", 0, int64(n)-1))
}

func RandReader(b []byte) (int, error) {
	copy(b, vsym.Bytes("randbytes", len(b)))
	return len(b), nil
}

func RandRIntn(r *rand.Rand, n int) int       { return RandIntn(n) }
func RandRInt63(r *rand.Rand) int64           { return RandInt63() }
func RandRInt31n(r *rand.Rand, n int32) int32 { return RandInt31n(n) }
func RandRInt63n(r *rand.Rand, n int64) int64 { return RandInt63n(n) }
func RandRUint32(r *rand.Rand) uint32         { return RandUint32() }

// ---------------------------------------------------------------- network

var (
	dialMu   sync.Mutex
	handlers = map[string]func(net.Conn){}
	Dials    int
	// DialExpire makes the read deadlines of dialed connections pass
	DialExpire bool
)

// Serve starts a peer. Symbolically the peer is an in-memory connection whose
// far end runs h; natively it is a listener on the loopback interface.
func Serve(h func(net.Conn)) (net.IP, uint16) { return ServeAt(h, 1, 0) }

// ServeAt starts a peer at the loopback address with this last byte and at
// this port, or any if it is 0.
func ServeAt(h func(net.Conn), last byte, port uint16) (net.IP, uint16) {
	ip := net.IPv4(127, 0, 0, last)
	if vsym.Symbolic() {
		if port == 0 {
			port = uint16(50000 + len(handlers))
		}
		handlers[(&net.TCPAddr{IP: ip, Port: int(port)}).String()] = h
		return ip, port
	}
	l, e := net.Listen("tcp", (&net.TCPAddr{IP: ip, Port: int(port)}).String())
	if e != nil {
		panic(e)
	}
	go func() {
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			go h(c)
		}
	}()
	a := l.Addr().(*net.TCPAddr)
	return ip, uint16(a.Port)
}

// Dial models net.Dial.
func Dial(network, address string) (net.Conn, error) {
	Dials++
	h, ok := handlers[address]
	if !ok {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}
	a, b := Pipe()
	a.Expire = DialExpire
	go h(b)
	return a, nil
}

// HTTPDo models (*http.Client).Do without redirects.
func HTTPDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if req == nil || req.URL == nil {
		return nil, errors.New("http: nil Request.URL")
	}
	rt := c.Transport
	if rt == nil {
		rt = http.DefaultTransport
	}
	if req.URL.Host == "" {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: errors.New("http: no Host in request URL")}
	}
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: errors.New("unsupported protocol scheme")}
	}
	resp, e := rt.RoundTrip(req)
	if e != nil {
		return nil, &url.Error{Op: "Get", URL: "", Err: e}
	}
	return resp, nil
}

func HTTPGet(u string) (*http.Response, error) {
	return HTTPClientGet(http.DefaultClient, u)
}

func HTTPClientGet(c *http.Client, u string) (*http.Response, error) {
	req, e := http.NewRequest("GET", u, nil)
	if e != nil {
		return nil, e
	}
	return HTTPDo(c, req)
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func DialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return Dial(network, address)
}
