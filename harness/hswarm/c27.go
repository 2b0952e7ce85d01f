package hswarm

import (
	"errors"
	"net"
	"time"

	"gotor/bf"
	"gotor/p2p"
	"gotor/swarm"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// valid is what makes a handshake right.
func (w *world) valid(hs []byte) bool {
	if len(hs) < 68 {
		return false
	}
	ref := w.shake(ourId)
	return same(hs[:20], ref[:20]) && same(hs[28:48], ref[28:48])
}

// some is a handshake with some arbitrary parts.
func (w *world) some() []byte {
	hs := w.shake("-ZZ1111-qrstuvwxyz12")
	switch vsym.Choose("arbitrary", 6) {
	case 0:
		hs[0] = vsym.Byte("length")
	case 1:
		copy(hs[1:], vsym.Bytes("protocol", 19))
	case 2:
		copy(hs[20:], vsym.Bytes("reserved", 8))
	case 3:
		copy(hs[28:], vsym.Bytes("infohash", 20))
	case 4:
		copy(hs[48:], vsym.Bytes("id", 20))
	case 5:
		hs = vsym.Bytes("all", 68)
	}
	return hs
}

// feed delivers a stream cut at up to two places.
func feed(c *models.Conn, b []byte) {
	i := vsym.Choose("cut", len(b)+1)
	j := i
	if vsym.Thorough() && i > 0 && i < len(b) {
		j = i + vsym.Choose("cut2", len(b)-i)
	}
	c.Feed(b[:i])
	c.Feed(b[i:j])
	c.Feed(b[j:])
}

// admitted checks the outcome of a right or wrong handshake.
func (w *world) admitted(c *models.Conn, ph *swarm.PeerHandler, e error, right bool) {
	vsym.Assert((ph == nil) != (e == nil), "a session comes with an error, or neither comes")
	if right {
		vsym.Assert(e == nil, "a peer with a right handshake is refused")
		out := c.Sent()
		vsym.Assert(same(out, w.greeting()), "an admitted peer does not get the handshake and the bitfield")
		vsym.Assert(!c.Closed(), "the connection of an admitted peer is closed")
		vsym.Cover("admitted")
	} else {
		vsym.Assert(e != nil, "a peer with a wrong handshake is admitted")
		vsym.Assert(len(c.Sent()) == 0, "something is sent to a peer that is refused")
		vsym.Assert(c.Closed(), "the connection of a refused peer stays open")
		vsym.Cover("refused")
	}
}

// C27_Any: any handshake, any delivery.
//
//gosym:bounds 68 bytes of which the length, the protocol string, the reserved bytes, the infohash, the peer id or everything is arbitrary, cut into two (thorough three) parts at any place, followed by 0 or 3 further bytes; a torrent of 11 pieces, two of them ours
//gosym:cover admitted refused
//gosym:cpu 200 2000
func C27_Any() {
	w := newSparse(11, 1, 11)
	w.sw.Bf.Set(0, true)
	w.sw.Bf.Set(9, true)
	arrives(w, w.some())
}

// arrives delivers a handshake.
func arrives(w *world, hs []byte) {
	c := models.NewConn()
	right := w.valid(hs)
	extra := 3 * vsym.Choose("extra", 2)
	feed(c, append(append([]byte(nil), hs...), make([]byte, extra)...))
	c.FeedEOF()
	ph, e := swarm.FromIncoming(c, w.sw)
	w.admitted(c, ph, e, right)
}

// C27_Byte: handshakes with one or two wrong bytes.
//
//gosym:bounds a handshake any one of whose 68 bytes is arbitrary, or any two neighbours; and the handshake of the torrent whose infohash, protocol or both have every letter in the other case
//gosym:cover admitted refused
func C27_Byte() {
	w := newSparse(11, 1, 11)
	hs := w.shake("-ZZ1111-qrstuvwxyz12")
	switch vsym.Choose("what", 3) {
	case 0:
		hs[vsym.Choose("at", 68)] = vsym.Byte("byte")
	case 1:
		at := vsym.Choose("at", 67)
		hs[at], hs[at+1] = vsym.Byte("byte"), vsym.Byte("next")
	case 2:
		lo, hi := 1, 48
		switch vsym.Choose("part", 3) {
		case 0:
			hi = 20
		case 1:
			lo = 28
		}
		for i := lo; i < hi; i++ {
			if c := hs[i] | 0x20; c >= 'a' && c <= 'z' {
				hs[i] ^= 0x20
			}
		}
	}
	arrives(w, hs)
}

// C27_Edges: infohashes with unusual bytes.
//
//gosym:bounds torrents whose infohash starts or ends with zero bytes, 0xff, a space or a newline, or has zero bytes in the middle (eight); a handshake that is right, or of whose infohash any one byte, the first two or the last two are arbitrary, or for the infohash of another one of the torrents
//gosym:cover admitted refused
func C27_Edges() {
	w := newNamed(edges[vsym.Choose("torrent", len(edges))], 11, 1, 11)
	hs := w.shake("-ZZ1111-qrstuvwxyz12")
	switch vsym.Choose("what", 5) {
	case 1:
		hs[28+vsym.Choose("at", 20)] = vsym.Byte("byte")
	case 2:
		copy(hs[28:], vsym.Bytes("start", 2))
	case 3:
		copy(hs[46:], vsym.Bytes("end", 2))
	case 4:
		o := newNamed(edges[vsym.Choose("other", len(edges))], 11, 1, 11)
		hs = o.shake("-ZZ1111-qrstuvwxyz12")
	}
	c := models.NewConn()
	c.Feed(hs)
	c.FeedEOF()
	ph, e := swarm.FromIncoming(c, w.sw)
	w.admitted(c, ph, e, w.valid(hs))
}

// C27_Short: handshakes that stop early.
//
//gosym:bounds any 0-67 first bytes of a right handshake, cut at any place, then end of stream, an error or silence
//gosym:cover refused
//gosym:loose
//gosym:stress 1
func C27_Short() {
	w := newSparse(11, 1, 11)
	c := models.NewConn()
	c.Expire = true
	b := w.shake("-ZZ1111-qrstuvwxyz12")[:vsym.Choose("bytes", 68)]
	feed(c, b)
	start := time.Now()
	switch vsym.Choose("then", 3) {
	case 0:
		c.FeedEOF()
	case 1:
		c.FeedError(errors.New("reset"))
	}
	ph, e := swarm.FromIncoming(c, w.sw)
	w.admitted(c, ph, e, false)
	vsym.Assert(time.Since(start) < 5*time.Second, "a silent peer is not given up")
}

type otherConn struct{ *models.Conn }

func (c otherConn) RemoteAddr() net.Addr { return &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 9} }

// C27_Fail: failures while a peer is admitted.
//
//gosym:bounds a right handshake on a connection whose first or second write fails, that has no deadlines because it is closed, or that is not TCP
func C27_Fail() {
	w := newSparse(11, 1, 11)
	c := models.NewConn()
	c.Feed(w.shake("-ZZ1111-qrstuvwxyz12"))
	var conn net.Conn = c
	switch vsym.Choose("failure", 4) {
	case 0:
		c.WFail = 0
	case 1:
		c.WFail = 1
	case 2:
		c.Close()
	case 3:
		conn = otherConn{c}
	}
	ph, e := swarm.FromIncoming(conn, w.sw)
	vsym.Assert(ph == nil && e != nil, "a peer is admitted although the connection fails")
	vsym.Assert(c.Closed(), "the connection of a refused peer stays open")
}

// C27_Bitfield: the bitfield that is sent is ours.
//
//gosym:bounds 1-17 pieces, two arbitrary ones ours; two peers after each other, with the first or last piece completed between them
func C27_Bitfield() {
	n := 1 + vsym.Choose("pieces", 17)
	w := newSparse(int64(n), 1, int64(n))
	w.sw.Bf.Set(int64(vsym.Choose("first", n)), true)
	w.sw.Bf.Set(int64(vsym.Choose("second", n)), true)
	for k := 0; k < 2; k++ {
		c := models.NewConn()
		c.Feed(w.shake("-ZZ1111-qrstuvwxyz12"))
		ph, e := swarm.FromIncoming(c, w.sw)
		w.admitted(c, ph, e, true)
		ms, ok := split(c.Sent()[68:])
		vsym.Assert(ok && len(ms) == 1 && ms[0][4] == p2p.TypeBitfield, "an admitted peer does not get one bitfield message")
		b, e := bf.FromBytes(ms[0], int64(n))
		vsym.Assert(e == nil, "the bitfield sent has another size than the torrent's")
		for i := int64(0); i < int64(n); i++ {
			vsym.Assert(b.Get(i) == w.sw.Bf.Get(i), "the bitfield sent is not ours")
		}
		w.sw.Bf.Set(int64(n-1)*int64(vsym.Choose("completed", 2)), true)
	}
}

// C27_Same: two peers are admitted at the same time.
//
//gosym:bounds two right handshakes at the same time, up to 2 (thorough 3) preemptions at any shared access or lock
//gosym:race
//gosym:stress 100
func C27_Same() {
	w := newSparse(11, 1, 11)
	w.sw.Bf.Set(3, true)
	vsym.Races()
	bound := 2
	if vsym.Thorough() {
		bound = 3
	}
	vsym.Explore(bound)
	done := make(chan bool)
	conns := []*models.Conn{models.NewConn(), models.NewConn()}
	for _, c := range conns {
		c := c
		c.Feed(w.shake("-ZZ1111-qrstuvwxyz12"))
		go func() {
			ph, e := swarm.FromIncoming(c, w.sw)
			vsym.Assert(ph != nil && e == nil, "a peer with a right handshake is refused")
			done <- true
		}()
	}
	<-done
	<-done
	vsym.Sequential()
	for _, c := range conns {
		vsym.Assert(same(c.Sent(), w.greeting()), "an admitted peer does not get the handshake and the bitfield")
	}
}
