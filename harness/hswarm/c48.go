package hswarm

import (
	"encoding/binary"
	"errors"
	"time"

	"gotor/zzverif/vsym"
)

// holder is a peer and what it announced.
type holder struct {
	s    *session
	bits byte
	gone bool
}

// announce tells the client of (more) pieces.
func (h *holder) announce(more byte) {
	h.bits |= more
	h.s.conn.Feed(msg(5, h.bits))
}

// due checks that every piece that can be asked for is asked for.
func due(w *world, hs []*holder) {
	time.Sleep(250 * time.Millisecond)
	vsym.Settle()
	taken := map[uint32]bool{}
	n := make([]int, len(hs))
	for k, h := range hs {
		mine := map[uint32]bool{}
		if h.gone {
			continue
		}
		vsym.Assert(!h.s.ended(), "a session ends without a reason")
		for _, m := range h.s.asked() {
			i := binary.BigEndian.Uint32(m[5:])
			vsym.Assert(int64(i) < w.n && !w.sw.Bf.Get(int64(i)) && h.bits&(0x80>>i) != 0, "a piece is asked for that we have or the peer does not have")
			vsym.Assert(!mine[i] && !taken[i], "a piece is asked for twice")
			mine[i], taken[i] = true, true
		}
		n[k] = len(mine)
		vsym.Assert(n[k] <= 5, "a peer is asked for more than five pieces at once")
	}
	for i := int64(0); i < w.n; i++ {
		if w.sw.Bf.Get(i) || taken[uint32(i)] {
			continue
		}
		for k, h := range hs {
			vsym.Assert(h.gone || h.bits&(0x80>>i) == 0 || n[k] == 5, "a piece that a peer has is not asked for")
		}
	}
}

// C48_History: peers come, announce pieces and leave.
//
//gosym:bounds seven pieces of one block, none or the second ours; 4 (thorough 5) events: a peer comes (up to three) with one of three bitfields, one announces one of them or any two pieces in addition, or one leaves (end of stream or error); what is asked for is looked at 250 ms after each
//gosym:faketime
//gosym:cpu 400 4000
func C48_History() {
	w := newSparse(7, 1, 7)
	if vsym.Choose("ours", 2) == 1 {
		w.sw.Bf.Set(1, true)
	}
	events := 4
	if vsym.Thorough() {
		events = 5
	}
	var hs []*holder
	masks := []byte{0xfe, 0xf0, 0x3e}
	for e := 0; e < events; e++ {
		name := string(rune('a' + e))
		here := hs
		if len(hs) < 3 {
			here = append(append([]*holder{}, hs...), nil)
		}
		h := here[vsym.Choose("who"+name, len(here))]
		if h == nil {
			h = &holder{s: w.admit(1 + len(hs))}
			hs = append(hs, h)
			h.s.start()
			h.announce(masks[vsym.Choose("has"+name, len(masks))])
		} else if h.gone {
			vsym.Stop()
		} else if k := vsym.Choose("does"+name, 5); k < 3 {
			h.announce(masks[k])
		} else if k == 3 {
			m := vsym.Byte("more" + name)
			vsym.Assume(m&^0x44 == 0)
			h.announce(m)
		} else {
			if len(hs) > 1 {
				h.s.conn.FeedEOF()
			} else {
				h.s.conn.FeedError(errors.New("reset"))
			}
			h.gone = true
			vsym.Settle()
			vsym.Assert(h.s.ended(), "a session goes on after its end")
		}
		due(w, hs)
	}
}

// C48_Late: pieces that become available late.
//
//gosym:bounds three pieces; a peer that announces none for 0, 50, 150, 350 ms or 3 s and then any set of them, while another peer that has all of them came before it (and leaves then, or 130 ms later) or does not come
//gosym:faketime
//gosym:cpu 300 3000
func C48_Late() {
	w := newSparse(3, 1, 3)
	var hs []*holder
	other := vsym.Choose("other", 3)
	if other > 0 {
		hs = append(hs, &holder{s: w.admit(2)})
		hs[0].s.start()
		hs[0].announce(0xe0)
		due(w, hs)
	}
	h := &holder{s: w.admit(1)}
	hs = append(hs, h)
	h.s.start()
	time.Sleep([]time.Duration{0, 50, 150, 350, 3000}[vsym.Choose("after", 5)] * time.Millisecond)
	b := vsym.Byte("bits")
	vsym.Assume(b&0x1f == 0)
	h.announce(b)
	if other > 0 {
		if other == 2 {
			time.Sleep(130 * time.Millisecond)
		}
		hs[0].s.conn.FeedEOF()
		hs[0].gone = true
	}
	due(w, hs)
}
