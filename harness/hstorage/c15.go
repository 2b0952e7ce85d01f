package hstorage

import (
	"os"

	"gotor/zzverif/vsym"
)

// C15_Write: one write of anything to any index.
//
//gosym:bounds seven layouts of 1-4 files (zero-length files, pieces over up to four files, short last pieces, a piece length above the total); a store with arbitrary bytes; every 64-bit piece index; data right, with any one byte arbitrary, with any one hash byte arbitrary, entirely arbitrary, or any number of bytes from 0 to two more than the piece with a matching hash
//gosym:cover written refused
//gosym:cpu 200 2000
func C15_Write() {
	l := layouts[vsym.Choose("layout", len(layouts))]
	n := l.pieces()
	idx := vsym.Int64("index")
	if idx >= 0 && idx < n {
		idx = vsym.Concrete(idx)
	}
	valid := idx >= 0 && idx < n
	p := int64(0)
	if valid {
		p = idx
	}
	a, b := l.span(p)
	full := mixed("data", l.total(), 1, a, b-1)
	hs := []byte(digests(l, full))
	data := clone(full[a:b])
	match := true
	if valid {
		switch vsym.Choose("data", 5) {
		case 0:
		case 1:
			k := vsym.Choose("byte", len(data))
			data[k] = vsym.Byte("wrong byte")
			match = data[k] == full[a+int64(k)]
		case 2:
			k := int64(vsym.Choose("hash byte", 20))
			x := vsym.Byte("wrong hash")
			match = hs[20*p+k] == x
			hs[20*p+k] = x
		case 3:
			data = vsym.Bytes("other", len(data))
			match = same(data, full[a:b])
		case 4:
			m := int64(vsym.Choose("length", int(b-a)+3))
			data = mixed("other", m, 77, 0)
			copy(hs[20*p:], vsym.Digest(data))
			match = m == b-a
		}
	}
	s := newStore(l, string(hs))
	before := mixed("before", l.total(), 101, a-1, a, b-1, b)
	s.open(before)
	got := clone(data)
	wn, err := s.fio.WritePiece(idx, got)
	vsym.Assert(same(got, data), "writing a piece changes the caller's data")
	after := s.content()
	if err != nil {
		vsym.Assert(!valid || !match, "the right data of a piece is refused")
		vsym.Assert(same(after, before), "a refused write changes a file")
		vsym.Cover("refused")
	} else {
		vsym.Assert(valid, "a write to a piece that does not exist succeeds")
		vsym.Assert(match, "data that is not the piece's is written")
		vsym.Assert(wn == b-a, "the number of bytes written is wrong")
		want := clone(before)
		copy(want[a:b], data)
		vsym.Assert(same(after, want), "a write does not change exactly the bytes of the piece")
		vsym.Cover("written")
	}
	// every piece reads as stored
	for i := int64(0); i < n; i++ {
		x, y := l.span(i)
		buf := make([]byte, l.pl)
		rn, err := s.fio.ReadPiece(i, buf)
		vsym.Assert(err == nil && rn == y-x, "a stored piece cannot be read")
		vsym.Assert(same(buf[:rn], after[x:y]), "a piece reads differently from what is stored")
	}
	vsym.Assert(same(s.content(), after), "reading changes a file")
	vsym.Assert(vsym.HeldLocks() == 0, "a file stays locked")
}

// C15_Read: reads of any index into buffers of any size.
//
//gosym:bounds the same layouts with arbitrary bytes stored; every 64-bit piece index; buffers of 0 to two more than the piece's bytes
//gosym:cover read refused
func C15_Read() {
	l := layouts[vsym.Choose("layout", len(layouts))]
	n := l.pieces()
	idx := vsym.Int64("index")
	size := l.pl
	if idx >= 0 && idx < n {
		idx = vsym.Concrete(idx)
		a, b := l.span(idx)
		size = b - a
	} else if size > 10 {
		size = 10
	}
	s := newStore(l, digests(l, make([]byte, l.total())))
	content := mixed("stored", l.total(), 50, 0, l.total()/2, l.total()-1)
	s.open(content)
	m := vsym.Choose("buffer", int(size)+3)
	buf := mixed("buf", int64(m), 200)
	orig := clone(buf)
	rn, err := s.fio.ReadPiece(idx, buf)
	if idx < 0 || idx >= n {
		vsym.Assert(err != nil, "a piece that does not exist can be read")
		vsym.Cover("refused")
	} else if int64(m) < size {
		vsym.Assert(err != nil, "a piece is read into too small a buffer")
		vsym.Cover("refused")
	} else {
		a, b := l.span(idx)
		vsym.Assert(err == nil && rn == b-a, "a stored piece cannot be read")
		vsym.Assert(same(buf[:rn], content[a:b]), "a piece reads differently from what is stored")
		vsym.Assert(same(buf[rn:], orig[rn:]), "reading writes beyond the piece")
		vsym.Cover("read")
	}
	vsym.Assert(same(s.content(), content), "reading changes a file")
}

// C15_History: writes and reads in any order.
//
//gosym:bounds three layouts, sequences of 3 (thorough 4) writes of any piece, each with right data, data with a wrong byte or data of another piece; files prepared afresh
//gosym:cpu 200 2000
func C15_History() {
	l := layouts[1+vsym.Choose("layout", 3)]
	n := l.pieces()
	full := mixed("data", l.total(), 1, 0, l.total()-1)
	s := newStore(l, digests(l, full))
	s.open(nil)
	want := make([]byte, l.total())
	steps := 3
	if vsym.Thorough() {
		steps = 4
	}
	for k := 0; k < steps; k++ {
		i := int64(vsym.Choose("index", int(n)))
		a, b := l.span(i)
		data := clone(full[a:b])
		ok := true
		switch vsym.Choose("kind", 3) {
		case 1:
			data[len(data)-1] ^= 0x80
			ok = false
		case 2:
			c, d := l.span((i + 1) % n)
			data = clone(full[c:d])
			ok = same(data, full[a:b])
		}
		_, err := s.fio.WritePiece(i, data)
		vsym.Assert((err == nil) == ok, "a write succeeds exactly for the piece's data")
		if ok {
			copy(want[a:b], full[a:b])
		}
		vsym.Assert(same(s.content(), want), "the files do not hold exactly the pieces written")
		buf := make([]byte, l.pl)
		rn, err := s.fio.ReadPiece(i, buf)
		vsym.Assert(err == nil && same(buf[:rn], want[a:b]), "a piece reads differently from what is stored")
	}
}

// C15_Far: pieces beyond 32-bit offsets, mostly made of zeros.
//
//gosym:bounds files of 2^32+5*2^20-1, 1 and 6*2^20 bytes in pieces of 2^22; the first and last piece and those around offsets 2^31, 2^32 and the end of the first file; zero but for an arbitrary first, middle and last byte, written over other bytes; the bytes next to the piece and 2^32 and 2^31 before and after it
//gosym:cover done
//gosym:cpu 120 1000
//gosym:steps 100000000
//gosym:native-ms 20000
func C15_Far() {
	const pl = 1 << 22
	l := layout{[]int64{1<<32 + 5<<20 - 1, 1, 6 << 20}, pl}
	n := l.pieces()
	ps := []int64{0, 1<<9 - 1, 1 << 9, 1<<10 - 1, 1 << 10, 1<<10 + 1, n - 1}
	i := ps[vsym.Choose("piece", len(ps))]
	a, b := l.span(i)
	data := make([]byte, b-a)
	data[0], data[len(data)/2], data[len(data)-1] = vsym.Byte("data"), vsym.Byte("data"), vsym.Byte("data")
	hs := make([]byte, 20*n)
	copy(hs[20*i:], vsym.Digest(data))
	s := newStore(l, string(hs))
	// nonzero bytes in the piece, which are overwritten, and elsewhere
	old := map[int64]byte{a: 1, a + 1: 2, a + pl/4: 3, b - 2: 4, b - 1: 5}
	keep := map[int64]byte{}
	for j, x := range []int64{a - 1, b, b + 1, a + 1<<31, a + 1<<32, b - 1 + 1<<32, a - 1<<31, a - 1<<32} {
		if x >= 0 && x < l.total() {
			keep[x] = byte(100 + j)
			old[x] = byte(100 + j)
		}
	}
	off := int64(0)
	for k, m := range l.lens {
		at := map[int64]byte{}
		for x, v := range old {
			if x >= off && x < off+m {
				at[x-off] = v
			}
		}
		sparse(s.paths[k], m, at)
		off += m
	}
	s.open(nil)
	wn, err := s.fio.WritePiece(i, data)
	vsym.Assert(err == nil && wn == b-a, "the right data of a piece is refused")
	buf := make([]byte, pl)
	rn, err := s.fio.ReadPiece(i, buf)
	vsym.Assert(err == nil && rn == b-a, "a stored piece cannot be read")
	vsym.Assert(same(buf[:rn], data), "a piece reads differently from what is stored")
	get := func(x int64) byte {
		off := int64(0)
		for k, m := range l.lens {
			if x < off+m {
				f, err := os.Open(s.paths[k])
				vsym.Assert(err == nil, "a file is gone")
				var c [1]byte
				f.ReadAt(c[:], x-off)
				f.Close()
				return c[0]
			}
			off += m
		}
		return 0
	}
	for x, v := range keep {
		vsym.Assert(get(x) == v, "writing a piece changes other bytes")
	}
	vsym.Assert(get(a) == data[0] && get(a+1) == 0 && get(a+pl/4) == 0 || b-a < pl, "a write does not store exactly the bytes of the piece")
	vsym.Assert(get(b-1) == data[len(data)-1], "a write does not store exactly the bytes of the piece")
	for k, m := range l.lens {
		st, err := os.Stat(s.paths[k])
		vsym.Assert(err == nil && st.Size() == m, "writing a piece changes the size of a file")
	}
	vsym.Cover("done")
}
