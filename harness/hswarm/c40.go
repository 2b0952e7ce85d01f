package hswarm

import (
	"net"
	"sync"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// remote is a peer that the client connects to: it sends its answer and then
// takes note of what it gets.
type remote struct {
	mu     sync.Mutex
	parts  [][]byte
	close  bool
	got    []byte
	closed bool
	dials  int
}

func (r *remote) serve(c net.Conn) {
	r.mu.Lock()
	r.dials++
	parts := r.parts
	r.mu.Unlock()
	for _, p := range parts {
		c.Write(p)
	}
	if r.close {
		c.Close()
	}
	b := make([]byte, 256)
	for {
		n, e := c.Read(b)
		r.mu.Lock()
		r.got = append(r.got, b[:n]...)
		if e != nil {
			r.closed = true
			r.mu.Unlock()
			return
		}
		r.mu.Unlock()
	}
}

func (r *remote) state() ([]byte, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]byte(nil), r.got...), r.closed
}

func (w *world) connect(r *remote) (*swarm.PeerHandler, error) {
	ip, port := models.Serve(r.serve)
	return swarm.FromBootstrap(peer.MakePeer("-ZZ1111-qrstuvwxyz12", ip, port), w.sw)
}

func (w *world) outcome(r *remote, ph *swarm.PeerHandler, e error, right bool) {
	vsym.Assert((ph == nil) != (e == nil), "a session comes with an error, or neither comes")
	vsym.Settle()
	got, closed := r.state()
	if !r.close || right {
		vsym.Assert(same(got, w.shake(w.sw.Id)), "something else than the handshake is sent before the peer has answered")
	}
	if right {
		vsym.Assert(e == nil, "a peer with a right handshake is refused")
		vsym.Cover("admitted")
	} else {
		vsym.Assert(e != nil, "a peer with a wrong handshake is used")
		vsym.Assert(closed, "the connection of a refused peer stays open")
		vsym.Cover("refused")
	}
}

// C40_Any: any answer.
//
//gosym:bounds an answer of 68 bytes of which the length, the protocol string, the reserved bytes, the infohash, the peer id or everything is arbitrary, in two parts cut at any place
//gosym:cover admitted refused
//gosym:cpu 200 2000
func C40_Any() {
	w := newSparse(11, 1, 11)
	hs := w.some()
	right := w.valid(hs)
	i := vsym.Choose("cut", 69)
	r := &remote{parts: [][]byte{hs[:i], hs[i:]}}
	ph, e := w.connect(r)
	w.outcome(r, ph, e, right)
}

// C40_Edges: infohashes with unusual bytes.
//
//gosym:bounds torrents whose infohash starts or ends with zero bytes, 0xff, a space or a newline, or has zero bytes in the middle (eight); an answer that is right, or of whose infohash any one byte, the first two or the last two are arbitrary, or for the infohash of another one of the torrents
//gosym:cover admitted refused
//gosym:cpu 200 2000
func C40_Edges() {
	w := newNamed(edges[vsym.Choose("torrent", len(edges))], 11, 1, 11)
	hs := w.shake("-ZZ1111-qrstuvwxyz12")
	switch vsym.Choose("what", 5) {
	case 1:
		hs[28+vsym.Choose("at", 20)] = vsym.Byte("byte")
	case 2:
		copy(hs[28:], vsym.Bytes("start", 2))
	case 3:
		copy(hs[46:], vsym.Bytes("end", 2))
	case 4:
		o := newNamed(edges[vsym.Choose("other", len(edges))], 11, 1, 11)
		hs = o.shake("-ZZ1111-qrstuvwxyz12")
	}
	r := &remote{parts: [][]byte{hs}}
	ph, e := w.connect(r)
	w.outcome(r, ph, e, w.valid(hs))
}

// C40_Short: answers that stop early.
//
//gosym:bounds the first 0-67 bytes of a right answer, then end of stream or silence
//gosym:cover refused
//gosym:loose
//gosym:stress 1
func C40_Short() {
	w := newSparse(11, 1, 11)
	n := vsym.Choose("bytes", 68)
	r := &remote{parts: [][]byte{w.shake("-ZZ1111-qrstuvwxyz12")[:n]}, close: vsym.Choose("closes", 2) == 1}
	models.DialExpire = true
	start := time.Now()
	ph, e := w.connect(r)
	w.outcome(r, ph, e, false)
	vsym.Assert(time.Since(start) < 5*time.Second, "a silent peer is not given up")
}

// C40_Nobody: nobody listens.
//
//gosym:bounds an address that refuses connections
func C40_Nobody() {
	w := newSparse(11, 1, 11)
	ph, e := swarm.FromBootstrap(peer.MakePeer("x", net.IPv4(127, 0, 0, 1), 1), w.sw)
	vsym.Assert(ph == nil && e != nil, "a session is made without a connection")
}

// C40_Use: nothing is used before the answer.
//
//gosym:bounds an answer that is right or has a wrong infohash or protocol byte (any value), followed at once by a bitfield and a request for a piece we have
//gosym:cpu 200 2000
func C40_Use() {
	w := newWorld(8, 4, true)
	w.sw.Bf.Set(0, true)
	hs := w.shake("-ZZ1111-qrstuvwxyz12")
	if vsym.Choose("which", 2) == 0 {
		hs[28+vsym.Choose("byte", 20)] = vsym.Byte("infohash")
	} else {
		hs[vsym.Choose("byte", 20)] = vsym.Byte("protocol")
	}
	right := w.valid(hs)
	r := &remote{parts: [][]byte{append(append(append([]byte(nil), hs...), msg(5, 0xc0)...), request(0, 1, 2)...)}}
	ph, e := w.connect(r)
	vsym.Assert((ph == nil) != (e == nil), "a session comes with an error, or neither comes")
	vsym.Assert((e == nil) == right, "a session is made exactly with a right answer")
	if e == nil {
		go ph.Loop()
		vsym.Settle()
		got, _ := r.state()
		want := append(append(w.shake(w.sw.Id), unchoke...), piece(0, 1, w.data[1:3])...)
		vsym.Assert(same(got, want), "messages that come with the answer are lost")
		all := w.drain(ph)
		vsym.Assert(len(all) == 1 && all[0] == 1, "messages that come with the answer are lost")
	} else {
		vsym.Settle()
		got, closed := r.state()
		vsym.Assert(same(got, w.shake(w.sw.Id)) && closed, "a peer with a wrong handshake is used")
	}
}
