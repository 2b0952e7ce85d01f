// Package htorrent: layout, metainfo, paths, infohash and creation (C10-C14).
package htorrent

import (
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

func min(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func hashes(n int64) string {
	b := make([]byte, 20*n)
	for i := range b {
		b[i] = byte(i/20*7 + i%20)
	}
	return string(b)
}

// layout checks everything about the layout of files of the given lengths.
func layout(lens []int64, pl int64) {
	var total int64
	var fes []filesd.EntryBase
	for i, l := range lens {
		total += l
		fes = append(fes, filesd.MakeFileEntry(string([]byte{'f', byte('0' + i)}), l))
	}
	n := total / pl
	if total%pl != 0 {
		n++
	}
	n = vsym.Concrete(n)
	ti, err := info.NewTorInfo("t", pl, hashes(n), fes)
	vsym.Assert(err == nil, "a consistent layout is refused")
	vsym.Assert(ti.NumPieces() == n && ti.PieceLen() == pl && ti.Length() == total, "piece count, piece length or total length is wrong")
	if n > 0 {
		last := total - (n-1)*pl
		vsym.Assert(ti.LastPieceLen() == last && last >= 1 && last <= pl, "the last piece length is wrong")
	}
	fl := ti.Files()
	vsym.Assert(len(fl) == len(lens), "files are lost")

	f, off := 0, int64(0) // next byte expected
	for p := int64(0); p < n; p++ {
		locs, err := ti.PieceLookup(p)
		vsym.Assert(err == nil, "a piece of the torrent is refused")
		var sum int64
		for _, l := range locs {
			r := l.ReadAmnt()
			vsym.Assert(r >= 0, "a segment has a negative length")
			if r == 0 {
				continue
			}
			for f < len(lens) && off == lens[f] {
				f++
				off = 0
			}
			vsym.Assert(f < len(lens), "segments go beyond the last file")
			vsym.Assert(l.Path() == fes[f].LocalPath(), "a segment lies in another file")
			vsym.Assert(l.SeekAmnt() == off, "a segment does not start where the last one ended")
			vsym.Assert(r <= lens[f]-off, "a segment goes beyond the end of its file")
			off += r
			sum += r
		}
		vsym.Assert(sum == min(pl, total-p*pl), "the segments of a piece do not total its length")
	}
	for f < len(lens) && off == lens[f] {
		f++
		off = 0
	}
	vsym.Assert(f == len(lens), "not every byte of every file is in a piece")

	var g int64
	for i, l := range lens {
		e := &fl[i]
		vsym.Assert(e.Length() == l && e.TorPath() == fes[i].TorPath(), "a file has another length or path")
		if l > 0 {
			vsym.Assert(e.StartPiece() == g/pl && e.StartPieceOff() == g%pl, "a file starts elsewhere")
			vsym.Assert(e.EndPiece() == (g+l-1)/pl && e.EndPieceOff() == (g+l-1)%pl, "a file ends elsewhere")
		}
		g += l
	}
	for p := int64(0); p < n; p++ {
		got := fl.GetFiles(p)
		k := 0
		g = 0
		for i, l := range lens {
			if l > 0 && g < (p+1)*pl && g+l > p*pl {
				for k < len(got) && got[k].Length() == 0 {
					k++
				}
				vsym.Assert(k < len(got) && got[k].TorPath() == fes[i].TorPath(), "a file with bytes in a piece is not listed for it")
				k++
			}
			g += l
		}
		for k < len(got) && got[k].Length() == 0 {
			k++
		}
		vsym.Assert(k == len(got), "a file without bytes in a piece is listed for it")
	}
	_, err = ti.PieceLookup(n)
	vsym.Assert(err != nil, "a piece beyond the last one is found")
	_, err = ti.PieceLookup(-1)
	vsym.Assert(err != nil, "a negative piece is found")
}

// C10_Small: every small layout.
//
//gosym:bounds 1-3 (thorough 1-4) files of 0-6 bytes each (arbitrary; for 3 files 0-4 unless thorough), piece lengths 1-4 (thorough 1-5)
//gosym:cover done empty
//gosym:cpu 200 2400
func C10_Small() {
	nf, np := 3, 4
	if vsym.Thorough() {
		nf, np = 4, 5
	}
	n := 1 + vsym.Choose("files", nf)
	pl := int64(1 + vsym.Choose("piece length", np))
	max := int64(6)
	if n == 3 && !vsym.Thorough() {
		max = 4
	}
	var lens []int64
	for i := 0; i < n; i++ {
		if i == 1 && !vsym.Thorough() {
			lens = append(lens, int64(vsym.Choose("middle", 5)))
			continue
		}
		lens = append(lens, vsym.Range("len", 0, max))
	}
	if n > 1 && lens[0] == 0 {
		vsym.Cover("empty")
	}
	layout(lens, pl)
	vsym.Cover("done")
}

// C10_Shape: more files, each near a multiple of the piece length.
//
//gosym:bounds 5 (thorough 6) files, each of 0, 1, one piece less one, one piece, or one piece plus one bytes, for one piece length of 3 bytes
//gosym:cover done
//gosym:cpu 100 1500
func C10_Shape() {
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	var lens []int64
	for i := 0; i < n; i++ {
		lens = append(lens, []int64{0, 1, 2, 3, 4}[vsym.Choose("len", 5)])
	}
	layout(lens, 3)
	vsym.Cover("done")
}

// C10_Large: realistic piece lengths, sizes arbitrary around the boundaries.
//
//gosym:bounds 2 files of up to 2 pieces each, arbitrary to within 3 bytes of every multiple of the piece length, piece lengths 16384, 16385, 262144, 1048576, 5242881, 2^32, 2^40+1
//gosym:cover done
//gosym:cpu 160 1500
func C10_Large() {
	pls := []int64{16384, 16385, 262144, 1048576, 5242881, 1 << 32, 1<<40 + 1}
	pl := pls[vsym.Choose("piece length", len(pls))]
	var lens []int64
	for i := 0; i < 2; i++ {
		k := int64(vsym.Choose("pieces", 3))
		lo := k*pl - 3
		if lo < 0 {
			lo = 0
		}
		lens = append(lens, lo+vsym.Range("off", 0, k*pl+3-lo))
	}
	layout(lens, pl)
	vsym.Cover("done")
}

// C10_Any: files of any size at all for a realistic piece length.
//
//gosym:bounds 2 files of 0 to 65536+5 bytes, arbitrary; piece length 32768
//gosym:cover done
//gosym:cpu 100 1000
func C10_Any() {
	const pl = 32768
	layout([]int64{vsym.Range("a", 0, 2*pl+5), vsym.Range("b", 0, 2*pl+5)}, pl)
	vsym.Cover("done")
}

// C10_Many: many pieces and many files.
//
//gosym:bounds 40 files of a fixed pattern of sizes around two of 0-9, 15-17 or 40 bytes; piece lengths 1, 7 and 16
//gosym:cover done
//gosym:cpu 100 1000
func C10_Many() {
	pl := []int64{1, 7, 16}[vsym.Choose("piece length", 3)]
	sizes := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 40}
	var lens []int64
	for i := 0; i < 40; i++ {
		lens = append(lens, int64(i*i%23))
	}
	lens[11] = sizes[vsym.Choose("a", len(sizes))]
	lens[12] = sizes[vsym.Choose("b", len(sizes))]
	layout(lens, pl)
	vsym.Cover("done")
}
