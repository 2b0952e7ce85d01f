package hswarm

import (
	"sync"

	"gotor/bf"
	"gotor/swarm"
	"gotor/zzverif/vsym"
)

// op is one use of the tracker: kind b (bitfield), r (register), u
// (unregister) or n (next piece).
type op struct {
	kind byte
	peer int
	set  []int
}

type side struct {
	w   *world
	phs []*swarm.PeerHandler
}

func newSide(peers int) *side {
	s := &side{w: newWorld(3, 1, false)}
	for k := 0; k < peers; k++ {
		s.phs = append(s.phs, s.w.handler(k))
	}
	return s
}

// do performs an operation; the result is the piece handed out, 8 for none.
func (s *side) do(o op) byte {
	switch o.kind {
	case 'b':
		b := bf.NewBitfield(3)
		for _, i := range o.set {
			b.Set(int64(i), true)
		}
		s.w.sw.PPT.RegisterBF(s.phs[o.peer], b)
	case 'r':
		for _, i := range o.set {
			s.w.sw.PPT.Register(s.phs[o.peer], uint32(i))
		}
	case 'u':
		s.w.sw.PPT.Unregister(s.phs[o.peer])
	case 'n':
		i, ok := s.w.sw.PPT.NextPiece(s.phs[o.peer])
		if !ok {
			return 8
		}
		return byte(i)
	}
	return 9
}

// rest is what the peers can still take at the end.
func (s *side) rest() string {
	r := ""
	for _, ph := range s.phs {
		for _, i := range s.w.drain(ph) {
			r += string([]byte{'0' + byte(i)})
		}
		r += "|"
	}
	return r
}

// merges lists the sequential orders of the threads' operations, each as the
// sequence of thread numbers.
func merges(left []int, pre []int, out *[][]int) {
	end := true
	for t := range left {
		if left[t] > 0 {
			end = false
			left[t]--
			merges(left, append(append([]int(nil), pre...), t), out)
			left[t]++
		}
	}
	if end {
		*out = append(*out, pre)
	}
}

func outcome(res [][]byte, rest string) string {
	s := ""
	for _, r := range res {
		for _, b := range r {
			s += string([]byte{'0' + b})
		}
		s += "/"
	}
	return s + rest
}

// linear runs the threads' operations at the same time and requires the effect
// of some sequential order.
func linear(start []op, threads [][]op, bound int) {
	legal := map[string]bool{}
	var left []int
	for _, t := range threads {
		left = append(left, len(t))
	}
	var orders [][]int
	merges(left, nil, &orders)
	for _, ord := range orders {
		s := newSide(3)
		for _, o := range start {
			s.do(o)
		}
		res := make([][]byte, len(threads))
		at := make([]int, len(threads))
		for _, t := range ord {
			res[t] = append(res[t], s.do(threads[t][at[t]]))
			at[t]++
		}
		legal[outcome(res, s.rest())] = true
	}

	s := newSide(3)
	for _, o := range start {
		s.do(o)
	}
	res := make([][]byte, len(threads))
	vsym.Races()
	vsym.Explore(bound)
	var wg sync.WaitGroup
	wg.Add(len(threads))
	for t := range threads {
		t := t
		go func() {
			r := make([]byte, 0, 4)
			for _, o := range threads[t] {
				r = append(r, s.do(o))
			}
			res[t] = r
			wg.Done()
		}()
	}
	wg.Wait()
	vsym.Sequential()
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
	got := outcome(res, s.rest())
	vsym.Assert(legal[got], "operations at the same time do not have the effect of any order of them")
}

// C38_Pairs: two handlers using the tracker at the same time.
//
//gosym:bounds three peers and pieces; seven scenarios of two threads with 1-3 operations each (bitfield, have, leave, next piece), up to 3 (thorough 4) preemptions at any shared access or lock
//gosym:race
//gosym:stress 200
//gosym:cpu 250 2500
//gosym:paths 100000 1000000
func C38_Pairs() {
	all := []int{0, 1, 2}
	plans := []struct {
		start   []op
		threads [][]op
	}{
		{nil, [][]op{{{'b', 0, all}, {'n', 0, nil}}, {{'b', 1, all}, {'n', 1, nil}}}},
		{[]op{{'b', 0, all}, {'b', 1, all}}, [][]op{{{'n', 0, nil}, {'n', 0, nil}}, {{'n', 1, nil}, {'n', 1, nil}}}},
		{[]op{{'b', 0, all}, {'b', 1, all}, {'n', 0, nil}}, [][]op{{{'u', 0, nil}}, {{'n', 1, nil}, {'n', 1, nil}, {'n', 1, nil}}}},
		{[]op{{'b', 0, all}}, [][]op{{{'u', 0, nil}}, {{'b', 1, []int{1}}, {'n', 1, nil}}}},
		{[]op{{'b', 0, all}, {'b', 1, []int{0}}}, [][]op{{{'u', 0, nil}, {'r', 0, []int{1}}}, {{'u', 1, nil}, {'n', 0, nil}}}},
		{nil, [][]op{{{'r', 0, []int{0}}, {'r', 0, []int{1}}, {'n', 0, nil}}, {{'r', 1, []int{1}}, {'n', 1, nil}}}},
		{[]op{{'b', 2, []int{2}}}, [][]op{{{'r', 0, []int{2}}, {'u', 0, nil}}, {{'n', 2, nil}, {'u', 2, nil}}}},
	}
	p := plans[vsym.Choose("plan", len(plans))]
	bound := 3
	if vsym.Thorough() {
		bound = 4
	}
	linear(p.start, p.threads, bound)
}

// C38_Three: three handlers using the tracker at the same time.
//
//gosym:bounds three peers and pieces; three scenarios of three threads with 1-2 operations each, up to 2 (thorough 3) preemptions at any shared access or lock
//gosym:race
//gosym:stress 200
//gosym:cpu 250 2500
//gosym:paths 100000 1000000
func C38_Three() {
	all := []int{0, 1, 2}
	plans := []struct {
		start   []op
		threads [][]op
	}{
		{nil, [][]op{{{'b', 0, all}, {'n', 0, nil}}, {{'b', 1, all}, {'n', 1, nil}}, {{'b', 2, all}}}},
		{[]op{{'b', 0, all}, {'b', 1, all}, {'b', 2, all}, {'n', 2, nil}}, [][]op{{{'n', 0, nil}}, {{'n', 1, nil}, {'n', 1, nil}}, {{'u', 2, nil}}}},
		{[]op{{'b', 0, []int{0, 1}}}, [][]op{{{'u', 0, nil}}, {{'b', 1, []int{0}}, {'n', 1, nil}}, {{'r', 2, []int{0}}, {'n', 2, nil}}}},
	}
	p := plans[vsym.Choose("plan", len(plans))]
	bound := 2
	if vsym.Thorough() {
		bound = 3
	}
	linear(p.start, p.threads, bound)
}
