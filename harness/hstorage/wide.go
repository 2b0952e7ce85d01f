package hstorage

import (
	"gotor/bf"
	"gotor/swarm"
	"gotor/torrent/fileio"
	"gotor/zzverif/vsym"
)

// spread is a layout of many small files.
func spread(files int, pl int64) layout {
	l := layout{pl: pl}
	for i := 0; i < files; i++ {
		l.lens = append(l.lens, []int64{1, 2, 0, 1, 3}[i%5])
	}
	return l
}

// C15_Files: pieces that lie in many files.
//
//gosym:bounds 5, 9, 17, 33 or 70 files of 0-3 bytes in pieces of 100, 40 or 16 bytes; every piece is written, with an arbitrary byte in the middle, and read
func C15_Files() {
	l := spread([]int{5, 9, 17, 33, 70}[vsym.Choose("files", 5)], []int64{100, 40, 16}[vsym.Choose("piece length", 3)])
	full := mixed("data", l.total(), 1, l.total()/2)
	s := newStore(l, digests(l, full))
	s.open(nil)
	for i := l.pieces() - 1; i >= 0; i-- {
		a, b := l.span(i)
		n, err := s.fio.WritePiece(i, clone(full[a:b]))
		vsym.Assert(err == nil && n == b-a, "the right data of a piece is refused")
	}
	vsym.Assert(same(s.content(), full), "the files do not hold what was written")
	for i := int64(0); i < l.pieces(); i++ {
		a, b := l.span(i)
		buf := make([]byte, l.pl)
		n, err := s.fio.ReadPiece(i, buf)
		vsym.Assert(err == nil && n == b-a && same(buf[:n], full[a:b]), "a piece reads differently from what is stored")
	}
}

// C17_Files: failing to close one of many files.
//
//gosym:bounds 2, 9, 20 or 40 files, any one of them closed before
func C17_Files() {
	l := spread([]int{2, 9, 20, 40}[vsym.Choose("files", 4)], 7)
	s := newStore(l, digests(l, make([]byte, l.total())))
	s.open(nil)
	if vsym.Choose("bad", 2) == 1 {
		vsym.Assert(s.fio.Close(s.paths[vsym.Choose("file", len(l.lens))]) == nil, "closing a file fails")
		vsym.Assert(s.fio.CloseAll() != nil, "closing a file again is no failure")
	} else {
		vsym.Assert(s.fio.CloseAll() == nil, "closing the files fails")
	}
}

// C18_Pieces: many pieces.
//
//gosym:bounds 33, 129 or 300 pieces of one byte in one file, all right but one or two, or all wrong but these; the first one among the first three, the last five and the middle, the other next to it or 32 on, the first one different in any of the last two bits, or not
//gosym:cpu 150 600
func C18_Pieces() {
	n := int64([]int{33, 129, 300}[vsym.Choose("pieces", 3)])
	l := layout{[]int64{n}, 1}
	data := mixed("data", n, 1)
	disk := clone(data)
	good := make([]bool, n)
	most := vsym.Choose("most", 2) == 1
	if !most {
		for i := range disk {
			disk[i] ^= 0x55
		}
	}
	for i := range good {
		good[i] = most
	}
	ps := []int64{0, 1, 2, n / 2, n - 5, n - 3, n - 2, n - 1}
	first := ps[vsym.Choose("odd", len(ps))]
	for _, p := range []int64{first, (first + int64([]int{0, 1, 32}[vsym.Choose("and", 3)])) % n} {
		if most {
			d := byte(1)
			if p == first {
				d = vsym.Byte("difference")
				vsym.Assume(d < 4)
			}
			disk[p] = data[p] ^ d
			good[p] = d == 0
		} else {
			disk[p] = data[p]
			good[p] = true
		}
	}
	tor := torrentOf(l, digests(l, data), vsym.Dir())
	fl := tor.Info().Files()
	existing(fl[0].LocalPath(), disk)
	fio := fileio.NewFileIO(tor.Info())
	vsym.Assert(fio.OCATAll(fl) == nil, "preparing files fails")
	b := bf.NewBitfield(n)
	sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: b}
	vsym.Assert(sw.Validate() == nil, "validation fails")
	for i := range good {
		vsym.Assert(b.Get(int64(i)) == good[i], "a piece is marked although its bytes are wrong, or not although they are right")
	}
}
