package htorrent

import (
	"os"
	"path/filepath"

	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

// created checks a created torrent against the contents of its files.
func created(ti *info.TorInfo, name string, pl int64, paths []string, data [][]byte) {
	var all []byte
	for _, d := range data {
		all = append(all, d...)
	}
	fl := ti.Files()
	vsym.Assert(len(fl) == len(data), "a created torrent has another number of files")
	for i := range data {
		vsym.Assert(fl[i].Length() == int64(len(data[i])), "a file has the wrong length")
		vsym.Assert(fl[i].TorPath() == paths[i], "a file has the wrong path")
	}
	n := (int64(len(all)) + pl - 1) / pl
	vsym.Assert(ti.NumPieces() == n && int64(len(ti.Hashes())) == 20*n, "a created torrent does not have one hash per piece")
	vsym.Assert(ti.Name() == name && ti.PieceLen() == pl && ti.Length() == int64(len(all)), "a created torrent has another name, piece length or length")
	for p := int64(0); p < n; p++ {
		want := vsym.Digest(all[p*pl : min(int64(len(all)), (p+1)*pl)])
		vsym.Assert(ti.PieceHash(p) == string(want), "a piece's hash is not that of its bytes")
	}
}

func put(dir, p string, b []byte) {
	p = filepath.Join(dir, p)
	if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, b, 0600); err != nil {
		panic(err)
	}
}

// C14_Small: every small layout.
//
//gosym:bounds 1-3 files of 0-4 (thorough 0-6) bytes, one arbitrary in each, in directories, piece lengths 1-4 (thorough 1-6) and 16384
//gosym:cover one many
//gosym:cpu 200 2000
func C14_Small() {
	max, pm := 4, 4
	if vsym.Thorough() {
		max, pm = 6, 6
	}
	n := 1 + vsym.Choose("files", 3)
	pl := int64(1 + vsym.Choose("piece length", pm+1))
	if pl > int64(pm) {
		pl = 16384
	}
	dir := vsym.Dir()
	base := dir
	if n > 1 {
		base = dir + "/tor"
	}
	var paths []string
	var data [][]byte
	total := 0
	for i := 0; i < n; i++ {
		p := []string{"a/b/x", "b", "a/y"}[i]
		m := max
		if n == 3 && i != 1 {
			m = 2
		}
		d := make([]byte, vsym.Choose("length", m+1))
		for j := range d {
			d[j] = byte(16*i + j)
		}
		if len(d) > 0 {
			d[len(d)/2] = vsym.Byte("data")
		}
		put(base, p, d)
		paths = append(paths, p)
		data = append(data, d)
		total += len(d)
	}
	ti, err := info.CreateTorInfo(paths, dir, "tor", pl)
	vsym.Assert(err == nil, "creating a torrent fails")
	created(ti, "tor", pl, paths, data)
	if n == 1 {
		vsym.Cover("one")
	} else {
		vsym.Cover("many")
	}
}

// C14_Buffer: contents around the size of the read buffer.
//
//gosym:bounds two files totalling 5 MiB - 1 to 5 MiB + 2 or (thorough; quick: for 5 MiB - 1 only) twice that, split at 1 byte, in the middle and 1 before the end, piece lengths 2^20, 2^20+1, 5 MiB - 1, 5 MiB, 5 MiB + 1 and 7 MiB; the bytes around file and piece boundaries arbitrary, the others fixed
//gosym:cover ok
//gosym:cpu 250 2500
//gosym:native-ms 20000
func C14_Buffer() {
	const mib = 1 << 20
	pl := []int64{mib, mib + 1, 5*mib - 1, 5 * mib, 5*mib + 1, 7 * mib}[vsym.Choose("piece length", 6)]
	per := 5 * mib / pl
	if per == 0 {
		per = 1
	}
	size := per * pl // of a read buffer of whole pieces
	total := size + int64(vsym.Choose("total", 4)) - 1
	if (vsym.Thorough() || pl == 5*mib-1 && total == size) && vsym.Choose("twice", 2) == 1 {
		total += size
	}
	all := make([]byte, total)
	for i := int64(0); i < 64; i++ {
		all[i*(total/64)] = byte(i)
	}
	cut := []int64{1, total / 2, total - 1, size, 0}[vsym.Choose("cut", 5)]
	if cut > total {
		vsym.Assume(false)
	}
	for _, at := range []int64{0, cut - 1, cut, pl - 1, pl, size - 1, size, total - 1} {
		if at >= 0 && at < total {
			all[at] = vsym.Byte("data")
		}
	}
	dir := vsym.Dir()
	put(dir+"/tor", "a", all[:cut])
	put(dir+"/tor", "b", all[cut:])
	ti, err := info.CreateTorInfo([]string{"a", "b"}, dir, "tor", pl)
	vsym.Assert(err == nil, "creating a torrent fails")
	created(ti, "tor", pl, []string{"a", "b"}, [][]byte{all[:cut], all[cut:]})
	vsym.Cover("ok")
}

// C14_Refused: unreadable files and invalid piece lengths.
//
//gosym:bounds every 64-bit piece length not above 0; a missing file, a missing directory, and a directory in place of a file, at any position of 1-3 files
func C14_Refused() {
	dir := vsym.Dir()
	n := 1 + vsym.Choose("files", 3)
	base := dir
	if n > 1 {
		base = dir + "/tor"
	}
	paths := []string{"a", "b", "c/d"}[:n]
	for _, p := range paths {
		put(base, p, []byte("xyz"))
	}
	pl := int64(2)
	switch vsym.Choose("what", 4) {
	case 0:
		pl = vsym.Int64("piece length")
		vsym.Assume(pl <= 0)
	case 1:
		paths[vsym.Choose("which", n)] = "missing"
	case 2:
		paths[vsym.Choose("which", n)] = "missing/file"
	case 3:
		put(base, "dir/sub", nil)
		paths[vsym.Choose("which", n)] = "dir"
	}
	ti, err := info.CreateTorInfo(paths, dir, "tor", pl)
	vsym.Assert(err != nil && ti == nil, "creating a torrent succeeds with an unreadable file or invalid piece length")
}
