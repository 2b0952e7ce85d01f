package hswarm

import "gotor/zzverif/vsym"

// C24_History: the order under any operations of two peers.
//
//gosym:bounds two peers, two pieces, every sequence of 4 (thorough 6) operations (announce a piece, announce any bitfield, leave, take work), then both peers take all they can get
//gosym:cpu 250 2500
//gosym:paths 100000 3000000
func C24_History() {
	t := newMirror(newWorld(2, 1, false), 2)
	t.only = true
	steps := 4
	if vsym.Thorough() {
		steps = 6
	}
	t.history(steps)
	t.end()
}

// C24_Wide: the order with three peers and three pieces.
//
//gosym:bounds three peers, three pieces of which any are ours; two peers announce any bitfields and one any piece, 0-2 take work, one leaves (thorough: one takes work, one leaves, one announces), then all take all they can get
//gosym:cpu 250 2500
//gosym:paths 100000 3000000
func C24_Wide() {
	t := newMirror(newWorld(3, 1, false), 3)
	t.only = true
	wide(t, vsym.Thorough())
	t.end()
}

// C24_Many: many peers, around the number of distinct counts.
//
//gosym:bounds three pieces: the first announced by 61-67 peers (one after the other or as bitfields), the second by all but 0-3 of these, the third by half of them; then none, one, five or all of them leave and 0-2 announce again; one peer that holds all takes all it can get
//gosym:cpu 250 2500
func C24_Many() {
	n := 61 + vsym.Choose("peers", 7)
	less := vsym.Choose("less", 4)
	t := newMirror(newWorld(3, 1, false), n)
	t.rare = true
	style := vsym.Bool("bitfields")
	for k := 0; k < n; k++ {
		second := k == n-1 || k >= less
		third := k == n-1 || k%2 == 0
		if style {
			t.bits(k, []bool{true, second, third})
		} else {
			t.announce(k, 0)
			if second {
				t.announce(k, 1)
			}
			if third {
				t.announce(k, 2)
			}
			t.announce(k, 0)
		}
	}
	out := []int{0, 1, 5, n}[vsym.Choose("leave", 4)]
	for k := 0; k < out; k++ {
		t.leave(k)
	}
	for k := vsym.Choose("again", 3); k > 0; k-- {
		t.bits(k-1, []bool{true, vsym.Bool("second"), true})
	}
	k := n - 1
	if out == n {
		k = 0
	}
	t.next(k)
	t.next(k)
	t.end()
}
