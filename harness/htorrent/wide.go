package htorrent

import (
	"fmt"
	"strings"

	"gotor/bencode"
	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

// C12_Deep: long paths.
//
//gosym:bounds paths of 3-24 components, each of 1, 30 or 200 bytes, one of them anywhere any of seven shapes or (up to 5 components of up to 30 bytes) two arbitrary bytes, or all from there on dots
//gosym:cover ok refused
//gosym:cpu 150 600
func C12_Deep() {
	n := []int{3, 4, 5, 8, 12, 24}[vsym.Choose("components", 6)]
	long := strings.Repeat("q", []int{1, 30, 200}[vsym.Choose("long", 3)])
	comps := make([]string, n)
	for i := range comps {
		comps[i] = long
	}
	odd := []int{0, 1, 2, 3, 4, n / 2, n - 2, n - 1}[vsym.Choose("odd", 8)]
	if odd >= n {
		vsym.Stop()
	}
	k := vsym.Choose("shape", 9)
	if k == 7 && (n > 5 || len(long) > 30) {
		vsym.Stop()
	}
	if k == 8 {
		for i := odd; i < n; i++ {
			comps[i] = ".."
		}
	} else if k == 7 {
		comps[odd] = vsym.String("component", 2)
	} else {
		comps[odd] = []string{"..", ".", "", "a/..", "../..", "/", "..."}[k]
	}
	l := bencode.List{}
	for _, c := range comps {
		l = append(l, c)
	}
	d := bencode.Dict{"name": "t", "piece length": int64(5), "pieces": hashes(1), "files": bencode.List{bencode.Dict{"length": int64(2), "path": bencode.List{"other"}}, bencode.Dict{"length": int64(3), "path": l}}}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		vsym.Assert(!ordinary(comps[odd]), "ordinary names are refused")
		vsym.Cover("refused")
		return
	}
	parts := inside("/scratch/w", pathOf(ti, 1))
	if ordinary(comps[odd]) {
		vsym.Assert(strings.Join(parts, "/") == "t/"+strings.Join(comps, "/"), "ordinary components map to another path")
	}
	vsym.Cover("ok")
}

// C12_Files: many files.
//
//gosym:bounds 3, 10, 33 or 70 files, one of them anywhere with a path that is unsafe, or that of another one
//gosym:cover ok refused
func C12_Files() {
	n := []int{3, 10, 33, 70}[vsym.Choose("files", 4)]
	at := []int{0, 1, n / 2, n - 2, n - 1}[vsym.Choose("odd", 5)]
	kind := vsym.Choose("kind", 4)
	fs := bencode.List{}
	for i := 0; i < n; i++ {
		p := bencode.List{fmt.Sprintf("f%v", i), "x"}
		if i == at {
			switch kind {
			case 1:
				p = bencode.List{"..", "..", "x"}
			case 2:
				p = bencode.List{"a", "/etc"}
			case 3:
				p = bencode.List{fmt.Sprintf("f%v", (i+n/2)%n), "x"}
			}
		}
		fs = append(fs, bencode.Dict{"length": int64(1), "path": p})
	}
	d := bencode.Dict{"name": "t", "piece length": int64(n), "pieces": hashes(1), "files": fs}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		vsym.Assert(kind != 0, "ordinary names are refused")
		vsym.Cover("refused")
		return
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		inside("/scratch/w", pathOf(ti, i))
		vsym.Assert(!seen[pathOf(ti, i)], "two files have the same path")
		seen[pathOf(ti, i)] = true
	}
	vsym.Cover("ok")
}

// C10_Files: many small files.
//
//gosym:bounds 8, 20, 33 or 70 files of 1-3 bytes, one of them at five places of 0, 1, 5 or 100 bytes; pieces of 7 or 64 bytes
//gosym:cpu 150 600
func C10_Files() {
	n := []int{8, 20, 33, 70}[vsym.Choose("files", 4)]
	at := []int{0, 1, n / 2, n - 2, n - 1}[vsym.Choose("odd", 5)]
	pl := []int64{7, 64}[vsym.Choose("piece length", 2)]
	fs := bencode.List{}
	var lens []int64
	total := int64(0)
	for i := 0; i < n; i++ {
		m := int64(1 + i%3)
		if i == at {
			m = []int64{0, 1, 5, 100}[vsym.Choose("size", 4)]
		}
		total += m
		lens = append(lens, m)
		fs = append(fs, bencode.Dict{"length": m, "path": bencode.List{fmt.Sprintf("f%v", i)}})
	}
	np := (total + pl - 1) / pl
	ti, err := info.FromDict(bencode.Dict{"name": "t", "piece length": pl, "pieces": hashes(np), "files": fs}, "w")
	vsym.Assert(err == nil && ti.NumPieces() == np && ti.Length() == total, "a right torrent is refused, or has another size")
	f, off := 0, int64(0)
	for p := int64(0); p < np; p++ {
		locs, err := ti.PieceLookup(p)
		vsym.Assert(err == nil, "a piece cannot be looked up")
		sum := int64(0)
		for _, loc := range locs {
			if loc.Loc.ReadAmnt == 0 {
				continue
			}
			for lens[f] == off {
				f, off = f+1, 0
			}
			e := loc.Entry
			vsym.Assert(e.TorPath() == fmt.Sprintf("f%v", f) && loc.Loc.SeekAmnt == off && loc.Loc.ReadAmnt <= lens[f]-off, "the segments of the pieces do not follow each other")
			off += loc.Loc.ReadAmnt
			sum += loc.Loc.ReadAmnt
		}
		want := pl
		if p == np-1 {
			want = total - p*pl
			vsym.Assert(ti.LastPieceLen() == want, "the last piece has another length")
		}
		vsym.Assert(sum == want, "a piece does not total its length")
	}
}

// C14_Files: torrents of many files.
//
//gosym:bounds 3, 12, 33 or 70 files of 0-3 bytes with an arbitrary byte in the last one, pieces of 1, 7 or 64 bytes
//gosym:cpu 150 600
func C14_Files() {
	n := []int{3, 12, 33, 70}[vsym.Choose("files", 4)]
	pl := []int64{1, 7, 64}[vsym.Choose("piece length", 3)]
	dir := vsym.Dir()
	var paths []string
	var data [][]byte
	for i := 0; i < n; i++ {
		b := make([]byte, []int{1, 3, 0, 2}[(n-i)%4])
		for k := range b {
			b[k] = byte(i + k)
		}
		if len(b) > 0 && i == n-1 {
			b[0] = vsym.Byte("data")
		}
		p := fmt.Sprintf("d%v/f%v", (i*7)%5, i)
		paths = append(paths, p)
		data = append(data, b)
		put(dir+"/tor", p, b)
	}
	ti, err := info.CreateTorInfo(paths, dir, "tor", pl)
	vsym.Assert(err == nil, "creating a torrent fails")
	created(ti, "tor", pl, paths, data)
}
