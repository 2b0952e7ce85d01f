package hswarm

import (
	"gotor/swarm"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// streamed is what a stream of messages did.
type streamed struct {
	replies [][]byte
	takes   map[uint32]bool
	ended   bool
}

func (s *session) result() streamed {
	vsym.Settle()
	r := streamed{ended: s.ended(), replies: s.replies()}
	if !r.ended {
		r.takes = s.eligible()
	}
	return r
}

func (r streamed) like(o streamed) {
	vsym.Assert(len(r.replies) == len(o.replies), "the number of replies depends on how a stream is split")
	for i := range r.replies {
		vsym.Assert(same(r.replies[i], o.replies[i]), "the replies depend on how a stream is split")
	}
	vsym.Assert(r.ended == o.ended, "the end of a session depends on how a stream is split")
	vsym.Assert(len(r.takes) == len(o.takes), "the pieces a peer announces depend on how a stream is split")
	for i := range r.takes {
		vsym.Assert(o.takes[i], "the pieces a peer announces depend on how a stream is split")
	}
}

// talker is a session with a peer for three pieces of which two are ours.
func talker() *session {
	w := newWorld(11, 4, true)
	w.sw.Bf.Set(0, true)
	w.sw.Bf.Set(2, true)
	s := w.admit(1)
	s.start()
	return s
}

// some message, its name and whether it ends the session.
func aMessage(k int) []byte {
	switch k {
	case 0:
		return request(0, 1, 2)
	case 1:
		return request(2, 0, 3)
	case 2:
		return msg(5, 0xe0)
	case 3:
		return []byte{0, 0, 0, 0}
	case 4:
		return msg(4, 0, 0, 0, 1)
	case 5:
		return msg(20, 0, 0, 0)
	case 6:
		return request(2, 2, 2) // more than there is
	case 7:
		return msg(2)
	case 8:
		return piece(1, 0, []byte{0, 0, 0, 5})
	}
	return msg(5, 1, 2, 3) // wrong size
}

const kinds = 10

// one by one, each in a read of its own.
func reference(ms [][]byte) streamed {
	s := talker()
	for _, m := range ms {
		s.conn.Feed(m)
		vsym.Settle()
	}
	return s.result()
}

// C29_Cut: messages cut anywhere.
//
//gosym:bounds 3 messages of 10 kinds (requests that are served, that are refused, bitfields, keepalives, haves, unknown, malformed and payload messages; the last one a request, a bitfield or a piece), in one, two or three reads cut at any places
//gosym:cpu 700 4000
func C29_Cut() {
	var ms [][]byte
	var all []byte
	for k := 0; k < 3; k++ {
		var m []byte
		if k < 2 {
			m = aMessage(vsym.Choose("kind", kinds))
		} else {
			m = aMessage([]int{0, 2, 8}[vsym.Choose("last", 3)])
		}
		ms = append(ms, m)
		all = append(all, m...)
	}
	i := vsym.Choose("cut", len(all))
	j := i
	if vsym.Thorough() {
		j += vsym.Choose("cut2", len(all)-i)
	} else if vsym.Choose("two", 2) == 1 && i+3 < len(all) {
		j = i + 3
	}
	s := talker()
	s.conn.Feed(all[:i])
	s.conn.Feed(all[i:j])
	s.conn.Feed(all[j:])
	s.result().like(reference(ms))
}

// C29_Bytes: every byte in a read of its own.
//
//gosym:bounds 3 (thorough 4) messages of the 10 kinds, in reads of 1, 2, 3, 5 or 7 bytes
//gosym:cpu 700 4000
func C29_Bytes() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	var ms [][]byte
	var all []byte
	for k := 0; k < n; k++ {
		m := aMessage(vsym.Choose("kind", kinds))
		ms = append(ms, m)
		all = append(all, m...)
	}
	step := []int{1, 2, 3, 5, 7}[vsym.Choose("step", 5)]
	s := talker()
	for len(all) > 0 {
		k := step
		if k > len(all) {
			k = len(all)
		}
		s.conn.Feed(all[:k])
		all = all[k:]
	}
	s.result().like(reference(ms))
}

// C29_Any: any message between two requests, cut anywhere.
//
//gosym:bounds a request that is served, then a message of 0-5 arbitrary bytes (thorough 0-8) with a right length prefix, then a request that is served; cut at any one place, or at none
//gosym:cpu 400 3000
func C29_Any() {
	max := 6
	if vsym.Thorough() {
		max = 9
	}
	n := vsym.Choose("size", max)
	b := vsym.Bytes("message"+string(rune('a'+n)), n)
	ms := [][]byte{request(0, 1, 2), append(be(uint32(n)), b...), request(2, 0, 3)}
	all := append(append(append([]byte(nil), ms[0]...), ms[1]...), ms[2]...)
	i := vsym.Choose("cut", len(all))
	s := talker()
	s.conn.Feed(all[:i])
	s.conn.Feed(all[i:])
	got := s.result()
	got.like(reference(ms))
	if n == 0 || b[0] != 5 && b[0] != 6 {
		vsym.Assert(len(got.replies) == 2 && !got.ended, "a message without a meaning here changes how others are handled")
	}
}

// C29_Large: messages that are larger than a read.
//
//gosym:bounds a request, a piece message or unknown message of 16379-16398 or 40000 (thorough also 2^20-9) payload bytes, a request; in reads of 16384 or at most 5000 bytes, or with the large message's start or end cut off by up to 6 bytes
//gosym:cpu 400 3000
func C29_Large() {
	n := 16379 + vsym.Choose("size", 21)
	if n == 16399 {
		n = 40000
		if vsym.Thorough() && vsym.Choose("largest", 2) == 1 {
			n = 1<<20 - 9
		}
	}
	t := []byte{7, 77}[vsym.Choose("type", 2)]
	ms := [][]byte{request(0, 1, 2), append(append(be(uint32(n+9)), t), make([]byte, n+8)...), request(2, 0, 3)}
	all := append(append(append([]byte(nil), ms[0]...), ms[1]...), ms[2]...)
	s := talker()
	switch vsym.Choose("split", 4) {
	case 0:
		s.conn.Feed(all)
	case 1:
		for b := all; len(b) > 0; {
			k := 5000
			if k > len(b) {
				k = len(b)
			}
			s.conn.Feed(b[:k])
			b = b[k:]
		}
	case 2:
		k := 17 + vsym.Choose("start", 7)
		s.conn.Feed(all[:k])
		s.conn.Feed(all[k:])
	case 3:
		k := len(all) - 17 - vsym.Choose("end", 7)
		s.conn.Feed(all[:k])
		s.conn.Feed(all[k:])
	}
	r := s.result()
	vsym.Assert(len(r.replies) == 2 && same(r.replies[0], piece(0, 1, s.w.data[1:3])) && same(r.replies[1], piece(2, 0, s.w.data[8:11])), "requests around a large message are not answered")
	vsym.Assert(!r.ended, "a large message ends the session")
	s.stop()
}

// C29_Handshake: messages that come together with the handshake.
//
//gosym:bounds two messages of the 10 kinds, in the same read as the handshake or cut at any place of it or of the messages
//gosym:cpu 400 3000
func C29_Handshake() {
	w := newWorld(11, 4, true)
	w.sw.Bf.Set(0, true)
	w.sw.Bf.Set(2, true)
	ms := [][]byte{aMessage(vsym.Choose("kind", kinds)), aMessage(vsym.Choose("kind", kinds))}
	all := append(w.shake("-ZZ1111-qrstuvwxyz12"), ms[0]...)
	all = append(all, ms[1]...)
	i := 40 + vsym.Choose("cut", len(all)-40)
	if i == 40 {
		i = 0
	}
	s := &session{w: w, conn: models.NewConn(), done: make(chan bool, 1)}
	s.conn.Feed(all[:i])
	s.conn.Feed(all[i:])
	ph, e := swarm.FromIncoming(s.conn, w.sw)
	vsym.Assert(e == nil && ph != nil, "a peer with a right handshake is refused")
	s.ph = ph
	s.pre = len(s.conn.Sent())
	s.start()
	s.result().like(reference(ms))
}

// C29_Partial: an incomplete message has no effect.
//
//gosym:bounds one of the 10 kinds of message, whole, then any proper part of another one, then end of stream or silence
//gosym:cpu 200 1000
func C29_Partial() {
	a, b := aMessage(vsym.Choose("kind", kinds)), aMessage(vsym.Choose("kind", kinds))
	k := vsym.Choose("part", len(b))
	s := talker()
	s.conn.Feed(append(append([]byte(nil), a...), b[:k]...))
	s.result().like(reference([][]byte{a}))
	s.conn.FeedEOF()
	<-s.done
}

// C29_Order: reading ahead while messages are handled.
//
//gosym:bounds two requests that are served and a bitfield in three reads that cut two of them; up to 1 (thorough 2) preemptions at any shared access, lock or channel operation
//gosym:cpu 500 3000
//gosym:race
//gosym:stress 100
func C29_Order() {
	w := newWorld(11, 4, true)
	w.sw.Bf.Set(0, true)
	w.sw.Bf.Set(2, true)
	s := w.admit(1)
	vsym.Races()
	bound := 1
	if vsym.Thorough() {
		bound = 2
	}
	vsym.Explore(bound)
	all := append(append(append([]byte(nil), request(0, 1, 2)...), msg(5, 0xe0)...), request(2, 0, 3)...)
	s.start()
	s.conn.Feed(all[:10])
	s.conn.Feed(all[10:30])
	s.conn.Feed(all[30:])
	vsym.Settle()
	vsym.Sequential()
	r := s.result()
	vsym.Assert(len(r.replies) == 2 && same(r.replies[0], piece(0, 1, w.data[1:3])) && same(r.replies[1], piece(2, 0, w.data[8:11])), "requests are not answered in order")
	vsym.Assert(!r.ended && len(r.takes) == 1 && r.takes[1], "a bitfield is lost")
	s.stop()
}
