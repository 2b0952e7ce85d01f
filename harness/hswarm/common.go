// Package hswarm: peer sessions and piece tracking (C23-C30, C38, C40).
package hswarm

import (
	"bytes"
	"encoding/binary"
	"net"
	"os"
	"time"

	"gotor/bf"
	gio "gotor/io"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/tracker"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

func same(a, b []byte) bool { return bytes.Equal(a, b) }

const ourId = "-GT0000-abcdefghijkl"

// world is a swarm with its files.
type world struct {
	sw   *swarm.Swarm
	pl   int64
	n    int64
	data []byte
	path string
}

// newWorld makes a swarm for one file of the given length; disk puts the file
// into the working directory.
func newWorld(total, pl int64, disk bool) *world {
	w := &world{pl: pl, n: (total + pl - 1) / pl}
	var hs []byte
	if disk {
		w.data = make([]byte, total)
		for i := range w.data {
			w.data[i] = byte(i*7 + i>>8*3 + i>>16*13 + 1)
		}
		for i := int64(0); i < w.n; i++ {
			a, b := w.span(i)
			hs = append(hs, vsym.Digest(w.data[a:b])...)
		}
	} else {
		hs = make([]byte, 20*w.n)
	}
	w.path = vsym.Dir() + "/w/f"
	fe := filesd.MakeFileEntry(w.path, total)
	ti, e := info.NewTorInfo("f", pl, string(hs), []filesd.EntryBase{fe})
	vsym.Assert(e == nil, "a consistent torrent is refused")
	w.finish(ti)
	if disk {
		vsym.Assert(w.sw.Fileio.OCATAll(ti.Files()) == nil, "preparing files fails")
		w.write(w.data)
	}
	return w
}

// newSparse makes a swarm of n pieces without data.
func newSparse(total, pl, n int64) *world { return newNamed("f", total, pl, n) }

// edges are names whose torrent of 11 pieces has an infohash with two zero
// bytes at the start, at the end, or one at both ends, two in the middle, 0xff
// at both ends, or a space or newline at an end.
var edges = []string{"n27612", "n35367", "n60015", "n14260", "n18810", "n9", "n57", "n269"}

// newNamed also names the torrent.
func newNamed(name string, total, pl, n int64) *world {
	w := &world{pl: pl, n: n}
	fe := filesd.MakeFileEntry(vsym.Dir()+"/w/f", total)
	ti, e := info.NewTorInfo(name, pl, string(make([]byte, 20*n)), []filesd.EntryBase{fe})
	vsym.Assert(e == nil, "a consistent torrent is refused")
	w.finish(ti)
	return w
}

func (w *world) finish(ti *info.TorInfo) {
	tor, e := torrent.NewTorrent(ti, "http://h/a")
	vsym.Assert(e == nil, "a consistent torrent is refused")
	b := bf.NewBitfield(ti.NumPieces())
	w.sw = &swarm.Swarm{
		State:  &tracker.State{},
		Stats:  tracker.NewStats(0, 0, 0),
		Tor:    tor,
		Fileio: fileio.NewFileIO(ti),
		RLIO:   gio.NewRateLimitIO(),
		Bf:     b,
		PPT:    swarm.NewPeerPieceTracker(uint32(ti.NumPieces()), b),
		Id:     ourId,
		Port:   6881,
	}
}

func (w *world) write(data []byte) {
	f, e := os.OpenFile(w.path, os.O_WRONLY, 0)
	if e != nil {
		panic(e)
	}
	if _, e := f.WriteAt(data, 0); e != nil {
		panic(e)
	}
	f.Close()
}

func (w *world) span(i int64) (int64, int64) {
	a, b := i*w.pl, (i+1)*w.pl
	if t := int64(len(w.data)); b > t {
		b = t
	}
	return a, b
}

// handler makes the k-th peer's handler without a session.
func (w *world) handler(k int) *swarm.PeerHandler {
	id := "-XX0000-peer" + string([]byte{byte('a' + k/26), byte('a' + k%26)}) + "......"
	return swarm.NewPeerHandler(peer.MakePeer(id, net.IPv4(10, 0, byte(k>>8), byte(k)), uint16(7000+k)), w.sw, models.NewConn())
}

// shake is a handshake for this torrent.
func (w *world) shake(id string) []byte {
	hs := append([]byte{19}, "BitTorrent protocol"...)
	hs = append(hs, make([]byte, 8)...)
	hs = append(hs, w.sw.Tor.Infohash()...)
	return append(hs, id...)
}

// greeting is what the client sends to a peer it admits.
func (w *world) greeting() []byte {
	g := w.shake(w.sw.Id)
	return append(g, msg(5, w.sw.Bf.Data()...)...)
}

func be(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// msg encodes a message.
func msg(t byte, payload ...byte) []byte {
	b := be(uint32(1 + len(payload)))
	return append(append(b, t), payload...)
}

func request(i, begin, n uint32) []byte {
	return msg(6, append(append(be(i), be(begin)...), be(n)...)...)
}

func piece(i, begin uint32, data []byte) []byte {
	return msg(7, append(append(be(i), be(begin)...), data...)...)
}

var unchoke = []byte{0, 0, 0, 1, 1}

// split cuts a stream of messages up; ok is false if it is not whole.
func split(b []byte) (ms [][]byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 4 {
			return ms, false
		}
		n := 4 + int64(binary.BigEndian.Uint32(b))
		if n > int64(len(b)) {
			return ms, false
		}
		ms = append(ms, b[:n])
		b = b[n:]
	}
	return ms, true
}

// session admits a peer over a fake connection and starts its loop.
type session struct {
	w    *world
	conn *models.Conn
	ph   *swarm.PeerHandler
	done chan bool
	pre  int
	at   time.Time // of the end
	late bool      // errors are taken late
	slow bool      // the end may come later
}

func (w *world) admit(k int) *session { return w.admitFrom(k, 5000+k) }

// admitFrom also says from which port.
func (w *world) admitFrom(k, port int) *session {
	s := &session{w: w, conn: models.NewConn(), done: make(chan bool, 1)}
	s.conn.Remote = &net.TCPAddr{IP: net.IPv4(10, 9, 0, byte(k)), Port: port}
	s.conn.Feed(w.shake("-YY0000-peer" + string([]byte{byte('a' + k)}) + "......."))
	ph, e := swarm.FromIncoming(s.conn, w.sw)
	vsym.Assert(e == nil && ph != nil, "a peer with a right handshake is refused")
	s.ph = ph
	s.pre = len(s.conn.Sent())
	return s
}

func (s *session) start() {
	go func() {
		s.ph.Loop()
		s.done <- true
	}()
}

// ended reports whether the session's loop has returned.
func (s *session) ended() bool {
	select {
	case <-s.done:
		s.done <- true
		return true
	default:
		return false
	}
}

// sent is what the client sent after its greeting.
func (s *session) sent() [][]byte {
	ms, ok := split(s.conn.Sent()[s.pre:])
	vsym.Assert(ok, "the client sends an incomplete message")
	return ms
}

// replies are the piece messages sent.
func (s *session) replies() [][]byte {
	var out [][]byte
	for _, m := range s.sent() {
		if len(m) > 4 && m[4] == 7 {
			out = append(out, m)
		}
	}
	return out
}

// drain asks for work until there is none.
func (w *world) drain(ph *swarm.PeerHandler) []uint32 {
	var got []uint32
	for int64(len(got)) <= w.n {
		i, ok := w.sw.PPT.NextPiece(ph)
		if !ok {
			return got
		}
		got = append(got, i)
	}
	vsym.Assert(false, "more pieces are handed out than there are")
	return nil
}
