package hswarm

import (
	"gotor/bf"
	"gotor/swarm"
	"gotor/zzverif/vsym"
)

// mirror is the abstract state of piece tracking.
type mirror struct {
	w    *world
	phs  []*swarm.PeerHandler
	ann  [][]bool // announced[peer][piece]
	have []bool
	by   []int // peer a piece is assigned to, or -1
	rare bool  // check the order too
	only bool  // check only the order
}

func newMirror(w *world, peers int) *mirror {
	t := &mirror{w: w, have: make([]bool, w.n), by: make([]int, w.n)}
	for i := range t.by {
		t.by[i] = -1
	}
	for k := 0; k < peers; k++ {
		t.phs = append(t.phs, w.handler(k))
		t.ann = append(t.ann, make([]bool, w.n))
	}
	return t
}

func (t *mirror) count(i int) int {
	c := 0
	for k := range t.ann {
		if t.ann[k][i] {
			c++
		}
	}
	if c > 63 {
		c = 63
	}
	return c
}

func (t *mirror) announce(k, i int) {
	t.w.sw.PPT.Register(t.phs[k], uint32(i))
	t.ann[k][i] = true
}

// bits announces a bitfield.
func (t *mirror) bits(k int, set []bool) {
	b := bf.NewBitfield(t.w.n)
	for i, x := range set {
		if x {
			b.Set(int64(i), true)
			t.ann[k][i] = true
		}
	}
	t.w.sw.PPT.RegisterBF(t.phs[k], b)
}

func (t *mirror) leave(k int) {
	t.w.sw.PPT.Unregister(t.phs[k])
	for i := range t.by {
		t.ann[k][i] = false
		if t.by[i] == k {
			t.by[i] = -1
		}
	}
}

func (t *mirror) next(k int) bool {
	i, ok := t.w.sw.PPT.NextPiece(t.phs[k])
	best := -1
	for j := range t.by {
		if t.ann[k][j] && !t.have[j] && t.by[j] < 0 && (best < 0 || t.count(j) < best) {
			best = t.count(j)
		}
	}
	if !ok {
		vsym.Assert(t.only || best < 0, "there is work for a peer but it gets none")
		return false
	}
	if !t.only {
		vsym.Assert(int64(i) < t.w.n, "a piece that does not exist is handed out")
		vsym.Assert(t.ann[k][i], "a peer gets a piece that it did not announce")
		vsym.Assert(!t.have[i], "a piece that we have is handed out")
		vsym.Assert(t.by[i] < 0, "a piece is handed out that is assigned already")
	}
	if t.rare || t.only {
		vsym.Assert(best < 0 || t.count(int(i)) <= best, "a piece is handed out although a rarer one is eligible")
	}
	t.by[i] = k
	return true
}

// end lets every peer take all it can get.
func (t *mirror) end() {
	for k := range t.phs {
		for n := int64(0); t.next(k); n++ {
			vsym.Assert(n <= t.w.n, "more pieces are handed out than there are")
		}
	}
}

// history does the operations of a chosen history.
func (t *mirror) history(steps int) {
	n := int(t.w.n)
	for s := 0; s < steps; s++ {
		k := 0
		if s > 0 {
			k = vsym.Choose("peer", len(t.phs))
		}
		switch op := vsym.Choose("op", n+3); {
		case op < n:
			t.announce(k, op)
		case op == n:
			set := make([]bool, n)
			for i := range set {
				set[i] = vsym.Bool("bit")
			}
			t.bits(k, set)
		case op == n+1:
			t.leave(k)
		default:
			t.next(k)
		}
	}
}

func (t *mirror) haves() {
	for i := range t.have {
		if vsym.Bool("have") {
			t.have[i] = true
			t.w.sw.Bf.Set(int64(i), true)
		}
	}
}

// wide is a history of three peers and three pieces.
func wide(t *mirror, thorough bool) {
	t.haves()
	for k := 0; k < 2; k++ {
		set := make([]bool, 3)
		for i := range set {
			set[i] = vsym.Bool("bit")
		}
		t.bits(k, set)
	}
	t.announce(2, vsym.Choose("third", 3))
	for k := vsym.Choose("first", 3); k > 0; k-- {
		t.next(k - 1)
	}
	t.leave(vsym.Choose("leaves", 3))
	if thorough {
		t.next(vsym.Choose("second", 3))
		t.leave(vsym.Choose("leaves", 3))
		t.announce(vsym.Choose("joins", 3), vsym.Choose("fourth", 3))
	}
}

// C23_History: any operations of two peers on two pieces.
//
//gosym:bounds two peers, two pieces (none or the first one ours), every sequence of 4 (thorough 6) operations (announce a piece, announce any bitfield, leave, take work), then both peers take all they can get
//gosym:cpu 250 2500
//gosym:paths 100000 3000000
func C23_History() {
	t := newMirror(newWorld(2, 1, false), 2)
	if vsym.Bool("have") {
		t.have[0] = true
		t.w.sw.Bf.Set(0, true)
	}
	steps := 4
	if vsym.Thorough() {
		steps = 6
	}
	t.history(steps)
	t.end()
}

// C23_Wide: three peers and three pieces.
//
//gosym:bounds three peers, three pieces of which any are ours; two peers announce any bitfields and one any piece, 0-2 take work, one leaves (thorough: one takes work, one leaves, one announces), then all take all they can get
//gosym:cpu 250 2500
//gosym:paths 100000 3000000
func C23_Wide() {
	t := newMirror(newWorld(3, 1, false), 3)
	wide(t, vsym.Thorough())
	t.end()
}

// C23_Progress: pieces that arrive while others are assigned.
//
//gosym:bounds two peers with any announcements of three pieces; 0-3 pieces taken by one, any subset of pieces completed, one peer leaves or none, then both take all they can get
//gosym:cpu 250 2500
//gosym:paths 100000 3000000
func C23_Progress() {
	t := newMirror(newWorld(3, 1, false), 2)
	for k := 0; k < 2; k++ {
		set := make([]bool, 3)
		for i := range set {
			set[i] = vsym.Bool("bit")
		}
		t.bits(k, set)
	}
	for n := vsym.Choose("taken", 4); n > 0; n-- {
		t.next(0)
	}
	t.haves()
	if k := vsym.Choose("leaves", 3); k < 2 {
		t.leave(k)
	}
	t.end()
}

// C23_Rejoin: a peer that comes back while its old session still ends.
//
//gosym:bounds two sessions of the same peer (same id and address) and one other; each announces one of two pieces, takes work or not; one of them leaves, then all take all they can get
func C23_Rejoin() {
	w := newWorld(2, 1, false)
	t := newMirror(w, 3)
	t.phs[1] = w.handler(0)
	for k := range t.phs {
		t.announce(k, vsym.Choose("piece", 2))
		if vsym.Bool("takes") {
			t.next(k)
		}
	}
	t.leave(vsym.Choose("leaves", 3))
	t.end()
}

// C23_Many: many peers, around the number of distinct counts.
//
//gosym:bounds two pieces: the first announced by 61-67 peers, the second by all but 0-3 of these; then none, one, five or all of them leave and 0-2 announce again; all take all they can get
//gosym:cpu 250 2500
func C23_Many() {
	n := 61 + vsym.Choose("peers", 7)
	less := vsym.Choose("less", 4)
	t := newMirror(newWorld(2, 1, false), n)
	for k := 0; k < n; k++ {
		t.bits(k, []bool{true, k >= less})
	}
	if vsym.Choose("early", 2) == 1 {
		t.next(n - 1)
	}
	out := []int{0, 1, 5, n}[vsym.Choose("leave", 4)]
	for k := 0; k < out; k++ {
		t.leave(k)
	}
	for k := vsym.Choose("again", 3); k > 0; k-- {
		t.bits(k-1, []bool{true, vsym.Bool("second")})
	}
	t.end()
}

// C23_Long: many pieces.
//
//gosym:bounds 5, 9, 17, 33, 65 or 130 (thorough also 257 or 300) pieces, none, the first, the middle or the last one ours; two or three peers that have all pieces (or all but the first): one takes 1, 4, 5, 16, 64 or all pieces and leaves, then another one does, then the rest take all they can get
//gosym:cpu 250 2500
//gosym:steps 40000000
func C23_Long() {
	ns := []int{5, 9, 17, 33, 65, 130}
	if vsym.Thorough() {
		ns = append(ns, 257, 300)
	}
	n := ns[vsym.Choose("pieces", len(ns))]
	t := newMirror(newWorld(int64(n), 1, false), 2+vsym.Choose("more", 2))
	if k := vsym.Choose("have", 4); k < 3 {
		i := []int{0, n / 2, n - 1}[k]
		t.have[i] = true
		t.w.sw.Bf.Set(int64(i), true)
	}
	for k := range t.phs {
		set := make([]bool, n)
		for i := range set {
			set[i] = i > 0 || k > 0
		}
		t.bits(k, set)
	}
	for k := 0; k < 2; k++ {
		for m := []int{1, 4, 5, 16, 64, 300}[vsym.Choose("takes", 6)]; m > 0 && t.next(k); m-- {
		}
		t.leave(k)
	}
	for k := range t.phs {
		t.announce(k, n-1)
	}
	t.end()
}

// C23_One: long histories of one piece.
//
//gosym:bounds one piece, two peers, every sequence of 6 (thorough 8) operations (announce, leave, take work), then both take all they can get
//gosym:cpu 250 3000
//gosym:paths 100000 3000000
func C23_One() {
	t := newMirror(newWorld(1, 1, false), 2)
	steps := 6
	if vsym.Thorough() {
		steps = 8
	}
	for s := 0; s < steps; s++ {
		k := 0
		if s > 0 {
			k = vsym.Choose("peer", 2)
		}
		switch vsym.Choose("op", 3) {
		case 0:
			t.announce(k, 0)
		case 1:
			t.leave(k)
		default:
			t.next(k)
		}
	}
	t.end()
}
