package hstorage

import (
	"os"

	"gotor/bf"
	"gotor/swarm"
	"gotor/torrent/fileio"
	"gotor/zzverif/vsym"
)

// C18_Validate: any mix of good and bad pieces.
//
//gosym:bounds six layouts of 1-4 files and 1-5 pieces; every subset of the pieces bad, each in any one byte by any difference; a bitfield that starts empty or full
//gosym:cover ok
//gosym:cpu 200 2000
func C18_Validate() {
	ls := []layout{
		{[]int64{5}, 2},
		{[]int64{3, 1, 4}, 3},
		{[]int64{2, 0, 3}, 2},
		{[]int64{1, 1, 1, 2}, 4},
		{[]int64{4, 4}, 4},
		{[]int64{9}, 2},
	}
	k := vsym.Choose("layout", len(ls))
	l := ls[k]
	n := l.pieces()
	data := mixed("data", l.total(), 1, 0, l.total()-1)
	disk := clone(data)
	good := make([]bool, n)
	for i := int64(0); i < n; i++ {
		good[i] = true
		a, b := l.span(i)
		if vsym.Choose("touched", 2) == 1 {
			at := b - 1
			if n <= 3 {
				at = a + int64(vsym.Choose("byte", int(b-a)))
			}
			disk[at] = vsym.Byte("disk")
			good[i] = disk[at] == data[at]
		}
	}
	tor := torrentOf(l, digests(l, data), vsym.Dir())
	fl := tor.Info().Files()
	off := int64(0)
	for i, m := range l.lens {
		existing(fl[i].LocalPath(), disk[off:off+m])
		off += m
	}
	fio := fileio.NewFileIO(tor.Info())
	vsym.Assert(fio.OCATAll(fl) == nil, "preparing files fails")
	b := bf.NewBitfield(n)
	if vsym.Choose("full", 2) == 1 {
		b.Fill()
	}
	sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: b}
	vsym.Assert(sw.Validate() == nil, "validation fails")
	for i := int64(0); i < n; i++ {
		vsym.Assert(b.Get(i) == good[i], "a piece is marked although its bytes are wrong, or not although they are right")
	}
	vsym.Cover("ok")
}

// C18_Hash: any one byte of a hash.
//
//gosym:bounds two pieces, any one byte of any hash arbitrary
func C18_Hash() {
	l := layout{[]int64{3, 2}, 3}
	data := mixed("data", 5, 1, 0, 4)
	hs := []byte(digests(l, data))
	k := vsym.Choose("hash byte", 40)
	old := hs[k]
	hs[k] = vsym.Byte("hash")
	tor := torrentOf(l, string(hs), vsym.Dir())
	fl := tor.Info().Files()
	existing(fl[0].LocalPath(), data[:3])
	existing(fl[1].LocalPath(), data[3:])
	fio := fileio.NewFileIO(tor.Info())
	vsym.Assert(fio.OCATAll(fl) == nil, "preparing files fails")
	b := bf.NewBitfield(2)
	sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: b}
	vsym.Assert(sw.Validate() == nil, "validation fails")
	vsym.Assert(b.Get(int64(k/20)) == (hs[k] == old), "a piece is marked although its hash differs")
	vsym.Assert(b.Get(int64(1-k/20)), "a good piece is not marked")
}

// C18_Same: pieces with equal contents, and so equal hashes.
//
//gosym:bounds 2-4 pieces of 2 bytes with equal contents, the last one 2 or 1 bytes, every subset of them bad in one byte by any difference; one file or a file per piece
//gosym:cover ok
func C18_Same() {
	n := int64(2 + vsym.Choose("pieces", 3))
	short := int64(vsym.Choose("short", 2))
	l := layout{[]int64{2*n - short}, 2}
	if vsym.Choose("files", 2) == 1 {
		l.lens = nil
		for i := int64(0); i < n-1; i++ {
			l.lens = append(l.lens, 2)
		}
		l.lens = append(l.lens, 2-short)
	}
	x, y := vsym.Byte("data"), vsym.Byte("data")
	data := make([]byte, l.total())
	for i := range data {
		data[i] = x
		if i%2 == 1 {
			data[i] = y
		}
	}
	disk := clone(data)
	good := make([]bool, n)
	for i := int64(0); i < n; i++ {
		good[i] = true
		a, _ := l.span(i)
		if vsym.Choose("touched", 2) == 1 {
			disk[a] = vsym.Byte("disk")
			good[i] = disk[a] == data[a]
		}
	}
	tor := torrentOf(l, digests(l, data), vsym.Dir())
	fl := tor.Info().Files()
	off := int64(0)
	for i, m := range l.lens {
		existing(fl[i].LocalPath(), disk[off:off+m])
		off += m
	}
	fio := fileio.NewFileIO(tor.Info())
	vsym.Assert(fio.OCATAll(fl) == nil, "preparing files fails")
	b := bf.NewBitfield(n)
	sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: b}
	vsym.Assert(sw.Validate() == nil, "validation fails")
	for i := int64(0); i < n; i++ {
		vsym.Assert(b.Get(i) == good[i], "a piece is marked although its bytes are wrong, or not although they are right")
	}
	vsym.Cover("ok")
}

// C18_Unreadable: a piece that cannot be read is an error.
//
//gosym:bounds four layouts of 1-4 files; any one file with bytes in it closed or cut to any shorter length after it was prepared
//gosym:cover failed
func C18_Unreadable() {
	l := layouts[vsym.Choose("layout", 4)]
	data := mixed("data", l.total(), 1, 0, l.total()-1)
	tor := torrentOf(l, digests(l, data), vsym.Dir())
	fl := tor.Info().Files()
	off := int64(0)
	for i, m := range l.lens {
		existing(fl[i].LocalPath(), data[off:off+m])
		off += m
	}
	fio := fileio.NewFileIO(tor.Info())
	vsym.Assert(fio.OCATAll(fl) == nil, "preparing files fails")
	bad := vsym.Choose("file", len(l.lens))
	vsym.Assume(l.lens[bad] > 0)
	path := fl[bad].LocalPath()
	if vsym.Choose("closed", 2) == 1 {
		vsym.Assert(fio.Close(path) == nil, "closing a file fails")
	} else if err := os.Truncate(path, int64(vsym.Choose("cut", int(l.lens[bad])))); err != nil {
		panic(err)
	}
	sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: bf.NewBitfield(l.pieces())}
	vsym.Assert(sw.Validate() != nil, "validation succeeds although a piece cannot be read")
	vsym.Cover("failed")
}
