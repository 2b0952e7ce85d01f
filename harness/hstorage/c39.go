package hstorage

import (
	"gotor/zzverif/vsym"
)

// C39_ReadWrite: reads against writes.
//
//gosym:bounds two or three threads, each one or two operations on pieces of one or two files (a piece within one file and one over both), two threads with up to 2 and three with 1 (thorough: one more) preemptions at any shared access, lock or file transfer (each transfer in two parts)
//gosym:race
//gosym:stress 200
//gosym:cpu 250 2500
//gosym:paths 40000 400000
func C39_ReadWrite() {
	l := layout{[]int64{6, 4}, 4} // piece 0 in file 0, piece 1 over both, piece 2 in file 1
	old := mixed("old", 10, 101, 0, 3)
	full := mixed("data", 10, 1, 0, 3, 9)
	vsym.Assume(old[0] != full[0])
	s := newStore(l, digests(l, full))
	s.open(old)
	vsym.Races()
	type op struct {
		write bool
		i     int64
	}
	plans := [][][]op{
		{{{true, 0}}, {{false, 0}}},
		{{{true, 2}}, {{false, 2}, {false, 2}}},
		{{{true, 0}}, {{true, 1}}, {{false, 0}}},
		{{{true, 1}}, {{false, 0}}, {{false, 2}}},
		{{{true, 0}}, {{true, 0}}, {{false, 0}}},
		{{{true, 1}}, {{true, 2}, {false, 0}}},
		{{{false, 0}}, {{false, 0}}, {{true, 0}}},
	}
	plan := plans[vsym.Choose("plan", len(plans))]
	bound := 4 - len(plan)
	if vsym.Thorough() {
		bound++
	}
	vsym.Explore(bound)
	done := make(chan bool)
	for _, ops := range plan {
		ops := ops
		go func() {
			for _, o := range ops {
				a, b := l.span(o.i)
				if o.write {
					n, err := s.fio.WritePiece(o.i, full[a:b])
					vsym.Assert(err == nil && n == b-a, "a concurrent write of the right data fails")
				} else {
					buf := make([]byte, l.pl)
					n, err := s.fio.ReadPiece(o.i, buf)
					vsym.Assert(err == nil && n == b-a, "a concurrent read fails")
					if o.i != 1 {
						vsym.Assert(same(buf[:n], old[a:b]) || same(buf[:n], full[a:b]), "a read sees part of a write")
					} else {
						// each file's part is one transfer
						vsym.Assert(same(buf[:2], old[a:a+2]) || same(buf[:2], full[a:a+2]), "a read sees part of a write")
						vsym.Assert(same(buf[2:n], old[a+2:b]) || same(buf[2:n], full[a+2:b]), "a read sees part of a write")
					}
				}
			}
			done <- true
		}()
	}
	for range plan {
		<-done
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a file stays locked")
	want := clone(old)
	for _, ops := range plan {
		for _, o := range ops {
			if o.write {
				a, b := l.span(o.i)
				copy(want[a:b], full[a:b])
			}
		}
	}
	vsym.Assert(same(s.content(), want), "concurrent writes do not leave exactly their data")
}

// C39_Reads: two reads at a time.
//
//gosym:bounds two threads that each read any one piece (of three) of two files (thorough: twice), or three that read one once, with up to 1 (thorough 2) preemptions
//gosym:race
//gosym:stress 200
//gosym:cpu 400 2500
//gosym:paths 40000 400000
func C39_Reads() {
	l := layout{[]int64{6, 4}, 4}
	data := mixed("data", 10, 1, 0, 3, 9)
	s := newStore(l, digests(l, data))
	s.open(data)
	vsym.Races()
	threads, times := 2, 1
	bound := 1
	if vsym.Choose("threads", 2) == 1 {
		threads = 3
	} else if vsym.Thorough() {
		times = 2
	}
	var is []int64
	for t := 0; t < threads; t++ {
		i := int64(vsym.Choose("piece", 3))
		vsym.Assume(t == 0 || is[t-1] <= i) // the order of the threads is arbitrary
		is = append(is, i)
	}
	if vsym.Thorough() {
		bound++
	}
	vsym.Explore(bound)
	done := make(chan bool)
	for _, i := range is {
		i := i
		go func() {
			a, b := l.span(i)
			for k := 0; k < times; k++ {
				buf := make([]byte, l.pl)
				n, err := s.fio.ReadPiece(i, buf)
				vsym.Assert(err == nil && n == b-a, "a concurrent read fails")
				vsym.Assert(same(buf[:n], data[a:b]), "a read next to another one gives other bytes")
			}
			done <- true
		}()
	}
	for range is {
		<-done
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a file stays locked")
}
