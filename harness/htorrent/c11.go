package htorrent

import (
	"gotor/bencode"
	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

// consistent checks a loaded torrent against the dictionary's numbers.
func consistent(ti *info.TorInfo, name string, pl int64, h string, lens []int64) {
	var total int64
	for _, l := range lens {
		vsym.Assert(l >= 0, "a negative file length is accepted")
		vsym.Assert(total+l >= total, "file lengths that overflow are accepted")
		total += l
	}
	vsym.Assert(pl > 0, "a piece length that is not positive is accepted")
	vsym.Assert(len(h)%20 == 0, "a hash string that is not a multiple of 20 bytes is accepted")
	n := int64(len(h) / 20)
	// exactly one hash per piece: (n-1)*pl < total <= n*pl
	if n == 0 {
		vsym.Assert(total == 0, "bytes without a hash are accepted")
	} else {
		vsym.Assert(total > 0 && (total-1)/pl == n-1, "there is not exactly one hash per piece")
		vsym.Assert(ti.LastPieceLen() == total-(n-1)*pl, "the last piece length is wrong")
	}
	vsym.Assert(ti.Name() == name && ti.PieceLen() == pl && ti.Hashes() == h && ti.NumPieces() == n && ti.Length() == total, "a loaded torrent has other values than its dictionary")
	fl := ti.Files()
	vsym.Assert(len(fl) == len(lens), "a loaded torrent has another number of files")
	for i, l := range lens {
		vsym.Assert(fl[i].Length() == l, "a file has another length than in the dictionary")
	}
	for i := int64(0); i < n; i++ {
		vsym.Assert(ti.PieceHash(i) == h[20*i:20*i+20], "a piece has another hash than in the dictionary")
		_, err := ti.PieceLookup(i)
		vsym.Assert(err == nil, "a piece of a loaded torrent is not found")
	}
}

func hashStr() string {
	ls := []int{0, 1, 19, 20, 21, 39, 40, 41, 60}
	b := make([]byte, ls[vsym.Choose("hash len", len(ls))])
	for i := range b {
		b[i] = byte(i)
	}
	copy(b, vsym.Bytes("hash", 1))
	return string(b)
}

var (
	fixedLens = []int64{0, 1, 5, 6, 7, 40, 1 << 40, 1<<63 - 1}
	fixedPls  = []int64{-1, 0, 1, 2, 3, 16384, 1 << 62, 1<<63 - 1, -1 << 63}
)

// C11_PieceLen: every piece length against lengths.
//
//gosym:bounds single-file info dictionaries: every 64-bit piece length against lengths 0, 1, 5, 6, 7, 40, and every 64-bit length against piece lengths -2^63, -1, 0, 1, 2, 3, 16384, 2^62, 2^63-1; 0-60 bytes of hashes
//gosym:cover ok refused
//gosym:cpu 160 1500
func C11_PieceLen() {
	var pl, l int64
	if vsym.Choose("which", 2) == 0 {
		pl = vsym.Int64("piece length")
		l = fixedLens[vsym.Choose("length", 6)]
	} else {
		l = vsym.Int64("length")
		pl = fixedPls[vsym.Choose("piece length", len(fixedPls))]
	}
	h := hashStr()
	d := bencode.Dict{"name": "n", "piece length": pl, "pieces": h, "length": l}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		good := pl > 0 && l >= 0 && len(h)%20 == 0
		if good {
			n := int64(len(h) / 20)
			if n == 0 {
				good = l == 0
			} else {
				good = l > 0 && (l-1)/pl == n-1
			}
		}
		vsym.Assert(!good, "a consistent torrent is refused")
		vsym.Cover("refused")
		return
	}
	consistent(ti, "n", pl, h, []int64{l})
	vsym.Cover("ok")
}

// C11_Lengths: lists of files of any lengths.
//
//gosym:bounds 1-2 (thorough 3) files of every 64-bit length each, piece lengths 1, 16384, 2^62, 2^63-1, 0-60 bytes of hashes
//gosym:cover ok refused
//gosym:cpu 160 1500
func C11_Lengths() {
	pls := []int64{1, 16384, 1 << 62, 1<<63 - 1}
	pl := pls[vsym.Choose("piece length", len(pls))]
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	n := 1 + vsym.Choose("files", max)
	var lens []int64
	l := bencode.List{}
	for i := 0; i < n; i++ {
		x := vsym.Int64("length")
		lens = append(lens, x)
		l = append(l, bencode.Dict{"length": x, "path": bencode.List{string([]byte{byte('a' + i)})}})
	}
	h := hashStr()
	d := bencode.Dict{"name": "n", "piece length": pl, "pieces": h, "files": l}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		vsym.Cover("refused")
		return
	}
	consistent(ti, "n", pl, h, lens)
	vsym.Cover("ok")
}

// C11_Hashes: every length of the hash string.
//
//gosym:bounds hash strings of every length of 0-130 bytes, for one or two files, one of 0-50 and one of 1 bytes, piece lengths 1, 7 and 2^40
//gosym:cover ok refused
//gosym:cpu 100 400
func C11_Hashes() {
	h := string(make([]byte, vsym.Choose("hash len", 131)))
	pl := []int64{1, 7, 1 << 40}[vsym.Choose("piece length", 3)]
	a := vsym.Range("length", 0, 50)
	d := bencode.Dict{"name": "n", "piece length": pl, "pieces": h, "length": a}
	lens := []int64{a}
	if vsym.Choose("two", 2) == 1 {
		d = bencode.Dict{"name": "n", "piece length": pl, "pieces": h, "files": bencode.List{
			bencode.Dict{"length": a, "path": bencode.List{"a"}}, bencode.Dict{"length": int64(1), "path": bencode.List{"b"}}}}
		lens = []int64{a, 1}
	}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		vsym.Cover("refused")
		return
	}
	consistent(ti, "n", pl, h, lens)
	vsym.Cover("ok")
}

// wrong is a value of another type than the key wants.
func wrong(want int) interface{} {
	vals := []interface{}{"str", int64(5), bencode.List{"a"}, bencode.Dict{"a": "b"}}
	k := vsym.Choose("type", 3)
	if k >= want {
		k++
	}
	return vals[k]
}

// C11_Keys: missing and mistyped keys.
//
//gosym:bounds single- and multi-file info dictionaries with any one of name, piece length, pieces, length or files, a file's length, a file's path, or a path component missing or of any other type; with one hash or none; empty file lists with a hash, empty paths, files that are no dictionaries; also as the info value of a torrent file
//gosym:cover refused
func C11_Keys() {
	multi := vsym.Choose("multi", 2) == 1
	f := bencode.Dict{"length": int64(3), "path": bencode.List{"x", "y"}}
	files := bencode.List{f, bencode.Dict{"length": int64(2), "path": bencode.List{"z"}}}
	d := bencode.Dict{"name": "n", "piece length": int64(5), "pieces": hashes(1)}
	if multi {
		d["files"] = files
	} else {
		d["length"] = int64(5)
	}
	_, err := info.FromDict(d, "/scratch/w")
	vsym.Assert(err == nil, "a consistent torrent is refused")
	n := 4
	if multi {
		n = 11
	}
	missing := vsym.Choose("missing", 2) == 1
	set := func(m bencode.Dict, k string, want int) {
		if missing {
			delete(m, k)
		} else {
			m[k] = wrong(want)
		}
	}
	switch vsym.Choose("what", n) {
	case 0:
		set(d, "name", 0)
	case 1:
		set(d, "piece length", 1)
	case 2:
		set(d, "pieces", 0)
	case 3:
		if multi {
			set(d, "files", 2)
		} else {
			set(d, "length", 1)
		}
	case 4:
		set(f, "length", 1)
	case 5:
		set(f, "path", 2)
	case 6:
		f["path"] = bencode.List{}
	case 7:
		f["path"] = bencode.List{"x", wrong(0)}
	case 8:
		f["path"] = bencode.List{wrong(0), "x"}
	case 9:
		files[vsym.Choose("which", 2)] = wrong(3)
	case 10:
		// no files but hashes
		d["files"] = bencode.List{}
		ti, err := info.FromDict(d, "/scratch/w")
		vsym.Assert(err != nil && ti == nil, "hashes without files are accepted")
		return
	}
	if _, ok := d["pieces"].(string); ok && vsym.Choose("hashes", 2) == 1 {
		// as if there were no files
		d["pieces"] = ""
	}
	ti, err := info.FromDict(d, "/scratch/w")
	vsym.Assert(err != nil && ti == nil, "a dictionary with a missing or mistyped key is accepted")
	vsym.Cover("refused")
}

// C11_Bytes: whatever decodes to a dictionary is handled.
//
//gosym:bounds two info dictionaries as bytes (single file, two files with nested paths) with any two consecutive bytes replaced, one of them arbitrary and the other one of "ie9-"
//gosym:cover refused ok
//gosym:cpu 160 1500
func C11_Bytes() {
	h := hashes(1)
	infos := []string{
		"d6:lengthi5e4:name1:n12:piece lengthi5e6:pieces20:" + h + "e",
		"d5:filesld6:lengthi3e4:pathl1:x2:yzeed6:lengthi2e4:pathl1:aeee4:name1:n12:piece lengthi5e6:pieces20:" + h + "e",
	}
	b := []byte(infos[vsym.Choose("info", len(infos))])
	p := vsym.Choose("pos", len(b)-1-20)
	m := []byte{vsym.Byte("m"), 0}
	m[1] = "ie9-"[vsym.Choose("other", 4)]
	if vsym.Choose("swap", 2) == 1 {
		m[0], m[1] = m[1], m[0]
	}
	copy(b[p:], m)
	v, err := bencode.Decode(b)
	if err != nil {
		return
	}
	d, ok := v.(bencode.Dict)
	if !ok {
		return
	}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		vsym.Cover("refused")
		return
	}
	pl, _ := d["piece length"].(int64)
	hs, _ := d["pieces"].(string)
	name, _ := d["name"].(string)
	var lens []int64
	if l, ok := d["length"].(int64); ok {
		lens = append(lens, l)
	} else {
		l, _ := d["files"].(bencode.List)
		for _, f := range l {
			x, _ := f.(bencode.Dict)
			n, _ := x["length"].(int64)
			lens = append(lens, n)
		}
	}
	consistent(ti, name, pl, hs, lens)
	vsym.Cover("ok")
}
