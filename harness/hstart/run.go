package hstart

import (
	"encoding/binary"
	"net"
	"sync"
	"time"

	"gotor/swarm"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// talk is the far end of a connection with the client.
type talk struct {
	mu     sync.Mutex
	c      net.Conn
	got    []byte
	closed bool
	dials  int
	answer []byte // to say at once
}

// serve takes note of what the client sends.
func (t *talk) serve(c net.Conn) {
	t.mu.Lock()
	t.dials++
	t.c = c
	t.mu.Unlock()
	if t.answer != nil {
		c.Write(t.answer)
	}
	b := make([]byte, 256)
	for {
		n, e := c.Read(b)
		t.mu.Lock()
		t.got = append(t.got, b[:n]...)
		t.closed = t.closed || e != nil
		t.mu.Unlock()
		if e != nil {
			return
		}
	}
}

func (t *talk) say(b []byte) { t.c.Write(b) }

func (t *talk) heard() []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]byte(nil), t.got...)
}

func (t *talk) gone() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.closed
}

func (t *talk) count() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.dials
}

// until waits for something that must happen without delay.
func until(f func() bool) bool {
	for i := 0; ; i++ {
		vsym.Settle()
		if f() {
			return true
		}
		if i == vsym.Repeat(0, 50) {
			return false
		}
	}
}

func (t *talk) hears(b []byte) bool {
	until(func() bool { return len(t.heard()) >= len(b) || t.gone() })
	vsym.Settle()
	return string(t.heard()) == string(b)
}

func (t *talk) dropped() bool { return until(t.gone) }

func be(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// msg encodes a message.
func msg(t byte, payload ...byte) []byte {
	return append(append(be(uint32(1+len(payload))), t), payload...)
}

func request(i, begin, n uint32) []byte {
	return msg(6, append(append(be(i), be(begin)...), be(n)...)...)
}

func piece(i, begin uint32, data []byte) []byte {
	return msg(7, append(append(be(i), be(begin)...), data...)...)
}

func cat(bs ...[]byte) (all []byte) {
	for _, b := range bs {
		all = append(all, b...)
	}
	return all
}

var unchoke = msg(1)

// shake is a handshake for this torrent.
func (s *site) shake(id string) []byte {
	hs := append([]byte{19}, "BitTorrent protocol"...)
	hs = append(hs, make([]byte, 8)...)
	hs = append(hs, vsym.Digest([]byte(s.info))...)
	return append(hs, id...)
}

// dial opens a connection to the client.
func (s *site) dial() *talk { return s.dialTo(1) }

// dialTo does so at another address of this host.
func (s *site) dialTo(last byte) *talk {
	t := &talk{}
	c, e := models.ConnectTo(last, s.port)
	vsym.Assert(e == nil, "the client does not listen on its port")
	t.c = c
	go t.serve(c)
	return t
}

// begin starts the client with these peers in the tracker's list.
func (s *site) begin(peers string) *swarm.Swarm {
	s.tracker.Body = body(1, 2, 3, peers)
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	sw.Start()
	vsym.Settle()
	return sw
}

// address makes a peer that listens, and its entry in the tracker's list.
func (t *talk) address() string {
	ip, port := models.Serve(t.serve)
	ip = ip.To4()
	return compact([4]byte{ip[0], ip[1], ip[2], ip[3]}, port)
}

const theirId = "-ZZ1111-qrstuvwxyz1"

// C44_Peers: the peers that the tracker knows.
//
//gosym:bounds 0-3 (thorough 4) peers in the tracker's list, each one answers rightly, with a wrong first or last infohash byte (any), not at all, or refuses the connection
//gosym:cover session refused
//gosym:cpu 200 2000
//gosym:loose
func C44_Peers() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	s.info = s.metainfo()
	max := 4
	if vsym.Thorough() {
		max = 5
	}
	n := vsym.Choose("peers", max)
	ts := make([]*talk, n)
	kind := make([]int, n)
	list := ""
	for i := range ts {
		t := &talk{}
		ts[i] = t
		kind[i] = vsym.Choose("kind", 4)
		hs := s.shake(theirId + string([]byte{byte('a' + i)}))
		switch kind[i] {
		case 0:
			t.answer = hs
		case 1:
			t.answer = append([]byte{}, hs...)
			at := 28 + 19*vsym.Choose("at", 2)
			t.answer[at] = vsym.Byte("infohash")
			if t.answer[at] == hs[at] {
				kind[i] = 0
			}
		}
		if kind[i] == 3 {
			list += compact([4]byte{127, 0, 0, 1}, uint16(1+i))
		} else {
			list += t.address()
		}
	}
	models.DialExpire = true
	sw := s.begin(list)
	for i, t := range ts {
		hello := s.shake(sw.Id)
		switch kind[i] {
		case 0:
			vsym.Assert(t.hears(cat(hello, unchoke)), "a peer from the tracker gets no session")
			t.say(request(1, 0, 2))
			vsym.Assert(t.hears(cat(hello, unchoke, piece(1, 0, s.data[2:4]))), "a request of a peer from the tracker is not answered")
			vsym.Assert(!t.gone(), "a right peer is dropped")
			vsym.Cover("session")
		case 1:
			vsym.Assert(t.hears(hello) && t.dropped(), "a peer with a wrong handshake is used")
			vsym.Cover("refused")
		case 2:
			vsym.Assert(t.hears(hello), "a peer from the tracker gets no handshake")
		}
		if kind[i] != 3 {
			vsym.Assert(t.count() == 1, "a peer is not connected to exactly once")
		}
	}
	// The client also listens
	in := s.dial()
	in.say(s.shake(theirId + "0"))
	vsym.Assert(in.hears(cat(s.shake(sw.Id), msg(5, sw.Bf.Data()...), unchoke)), "a connection to the client's port gets no session")
}

// C44_Addresses: peers whose addresses differ little.
//
//gosym:bounds 2 or 3 peers in the tracker's list that have the same port at different addresses or different ports at the same address, in either order; then connections to 1 or 2 addresses of the client
//gosym:cpu 100 1000
//gosym:loose
func C44_Addresses() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	s.info = s.metainfo()
	n := 2 + vsym.Choose("more", 2)
	ports := vsym.Choose("ports", 2) == 1
	ts := make([]*talk, n)
	entry := make([]string, n)
	port := uint16(0)
	for i := range ts {
		t := &talk{answer: s.shake(theirId + string([]byte{byte('a' + i)}))}
		ts[i] = t
		last := byte(1)
		if !ports {
			last += byte(i)
		}
		ip, p := models.ServeAt(t.serve, last, port)
		if !ports {
			port = p
		}
		ip = ip.To4()
		entry[i] = compact([4]byte{ip[0], ip[1], ip[2], ip[3]}, p)
	}
	list := ""
	reverse := vsym.Choose("reverse", 2) == 1
	for i := range entry {
		if reverse {
			list = entry[i] + list
		} else {
			list += entry[i]
		}
	}
	sw := s.begin(list)
	for _, t := range ts {
		vsym.Assert(t.hears(cat(s.shake(sw.Id), unchoke)), "a peer from the tracker gets no session")
		vsym.Assert(t.count() == 1, "a peer is not connected to exactly once")
	}
	in := s.dialTo(1 + byte(vsym.Choose("to", 2)))
	in.say(s.shake(theirId + "0"))
	vsym.Assert(in.hears(cat(s.shake(sw.Id), msg(5, sw.Bf.Data()...), unchoke)), "a connection to the client's port gets no session")
}

// C44_Incoming: connections to the client's port.
//
//gosym:bounds 3 connections, each with a right handshake, one with a wrong byte (the first or last of protocol or infohash, arbitrary), an incomplete one, none, or closed at once; the later ones are made while the earlier ones are open
//gosym:cover session refused
//gosym:cpu 200 2000
//gosym:loose
func C44_Incoming() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	sw := s.begin("")
	greeting := cat(s.shake(sw.Id), msg(5, sw.Bf.Data()...), unchoke)
	var ts []*talk
	var kind []int
	for i := 0; i < 3; i++ {
		hs := s.shake(theirId + string([]byte{byte('a' + i)}))
		k := vsym.Choose("kind", 5)
		t := s.dial()
		switch k {
		case 1:
			at := []int{0, 19, 28, 47}[vsym.Choose("at", 4)]
			old := hs[at]
			hs[at] = vsym.Byte("wrong")
			if hs[at] == old {
				k = 0
			}
		case 2:
			hs = hs[:67]
		case 3:
			hs = nil
		case 4:
			t.c.Close()
			hs = nil
		}
		if hs != nil {
			t.say(hs)
		}
		ts, kind = append(ts, t), append(kind, k)
	}
	for i, t := range ts {
		switch kind[i] {
		case 0:
			vsym.Assert(t.hears(greeting), "a connection to the client's port gets no session")
			vsym.Assert(!t.gone(), "a right peer is dropped")
			vsym.Cover("session")
		case 1:
			vsym.Assert(t.dropped() && len(t.heard()) == 0, "a connection with a wrong handshake is not refused")
			vsym.Cover("refused")
		default:
			vsym.Assert(len(t.heard()) == 0, "something is sent to a peer that has not identified itself")
		}
	}
	for i, t := range ts {
		if kind[i] == 0 {
			t.say(request(uint32(i), 1, 1))
		}
	}
	for i, t := range ts {
		if kind[i] == 0 {
			vsym.Assert(t.hears(cat(greeting, piece(uint32(i), 1, s.data[2*i+1:2*i+2]))), "a request is not answered")
		}
	}
}

// C44_Silent: a right peer after silent ones.
//
//gosym:bounds 6 open connections, each with nothing or part of a handshake, before a right one
//gosym:cpu 100 1000
//gosym:native-ms 20000
func C44_Silent() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	sw := s.begin("")
	for i := 0; i < 6; i++ {
		t := s.dial()
		if vsym.Choose("part", 2) == 1 {
			t.say(s.shake(theirId + "s")[:30+i])
		}
	}
	t := s.dial()
	t.say(s.shake(theirId + "r"))
	vsym.Assert(t.hears(cat(s.shake(sw.Id), msg(5, sw.Bf.Data()...), unchoke)), "a right peer has to wait for silent ones")
}

// C44_Full: connections while the system has no descriptors left.
//
//gosym:bounds no or one session before, one or two times a connection while the descriptors are used up, for 0, 0.2 or 3 s; the connection stays or is closed by the peer
//gosym:cover late session
//gosym:cpu 200 2000
//gosym:native-ms 20000
//gosym:stress 0
func C44_Full() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	sw := s.begin("")
	greeting := cat(s.shake(sw.Id), msg(5, sw.Bf.Data()...), unchoke)
	var before *talk
	if vsym.Choose("before", 2) == 1 {
		before = s.dial()
		before.say(s.shake(theirId + "b"))
		vsym.Assert(before.hears(greeting), "a connection to the client's port gets no session")
	}
	n := 1 + vsym.Choose("times", 2)
	for i := 0; i < n; i++ {
		vsym.Settle()
		models.Exhaust()
		late := s.dial()
		vsym.Settle()
		pause := []time.Duration{0, 200 * time.Millisecond, 3 * time.Second}[vsym.Choose("pause", 3)]
		time.Sleep(pause)
		vsym.Settle()
		stays := vsym.Choose("stays", 2) == 1
		if stays {
			late.say(s.shake(theirId + string([]byte{byte('c' + i)})))
		} else {
			late.c.Close()
		}
		vsym.Settle()
		models.Relieve()
		time.Sleep(2 * time.Second)
		if stays {
			vsym.Assert(late.hears(greeting), "a connection that could not be accepted at once gets no session")
			vsym.Cover("late")
		}
	}
	last := s.dial()
	last.say(s.shake(theirId + "z"))
	vsym.Assert(last.hears(greeting), "a connection after others could not be accepted gets no session")
	vsym.Cover("session")
	if before != nil {
		before.say(request(1, 1, 1))
		vsym.Assert(before.hears(cat(greeting, piece(1, 1, s.data[3:4]))), "a session ends because others cannot be accepted")
	}
}

// C44_Races: connections at the same time.
//
//gosym:bounds 2 connections and 1 peer from the tracker at the same time; all schedules with at most 1 (thorough 2) deviations from running each activity until it blocks
//gosym:cpu 200 2000
//gosym:loose
//gosym:stress 20
func C44_Races() {
	s := newSite([]int64{4}, 2)
	s.fill()
	s.info = s.metainfo()
	out := &talk{answer: s.shake(theirId + "x")}
	s.tracker.Body = body(1, 2, 3, out.address())
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	bound := 1
	if vsym.Thorough() {
		bound = 2
	}
	vsym.Races()
	vsym.Delays(bound)
	sw.Start()
	until(func() bool { return out.count() == 1 })
	a, b := s.dial(), s.dial()
	a.say(s.shake(theirId + "a"))
	b.say(s.shake(theirId + "b"))
	greeting := cat(s.shake(sw.Id), msg(5, 0xc0), unchoke)
	vsym.Assert(a.hears(greeting) && b.hears(greeting), "a connection to the client's port gets no session")
	vsym.Assert(out.hears(cat(s.shake(sw.Id), unchoke)), "a peer from the tracker gets no session")
	vsym.Assert(out.count() == 1, "a peer is not connected to exactly once")
	vsym.Sequential()
}
