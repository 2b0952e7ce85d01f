package htorrent

import (
	"os"
	"strconv"

	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

func bstr(s string) string { return strconv.Itoa(len(s)) + ":" + s }
func bint(n int64) string  { return "i" + strconv.FormatInt(n, 10) + "e" }

func save(data string) string {
	p := vsym.Dir() + "/t.torrent"
	if err := os.WriteFile(p, []byte(data), 0600); err != nil {
		panic(err)
	}
	return p
}

// order lists three things in any order.
func order(k int) []int {
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[k]
}

// infoBytes is an info dictionary as some other client may have written it.
func infoBytes(name string, h string) string {
	body := []string{
		bstr("length") + bint(5),
		bstr("name") + bstr(name),
		bstr("piece length") + bint(5),
		bstr("pieces") + bstr(h),
	}
	switch vsym.Choose("info", 8) {
	case 0: // canonical
	case 1: // keys out of order
		body = []string{body[3], body[1], body[0], body[2]}
	case 2: // unknown keys of every type
		body = append(body, bstr("private")+bint(1), bstr("x")+bstr("y"), bstr("z")+"l"+bint(-3)+"de"+"e")
	case 3: // a key twice
		body = append([]string{bstr("name") + bstr("other")}, body...)
	case 4: // an info dictionary inside
		body = append(body, bstr("info")+"d"+bstr("name")+bstr("no")+"e")
	case 5: // many files
		body[0] = bstr("files") + "l" + "d" + bstr("length") + bint(2) + bstr("path") + "l" + bstr("a") + bstr("b") + "e" + "e" +
			"d" + bstr("path") + "l" + bstr("c") + "e" + bstr("length") + bint(3) + bstr("md5sum") + bstr("m") + "e" + "e"
	case 6: // empty strings
		body = append(body, bstr("e")+"0:")
	case 7: // strings that look like bencoding
		body = append(body, bstr("q")+bstr("4:infod4:name1:xe"), bstr("r")+bstr("e"))
	}
	s := "d"
	for _, b := range body {
		s += b
	}
	return s + "e"
}

// C13_File: the infohash is of the info value as it is in the file.
//
//gosym:bounds torrent files with announce, info and one other key in every order; eight shapes of info value (canonical, unordered keys, extra keys, duplicate keys, nested info, file lists, empty strings, strings that look like bencoding); six shapes of other entries (none, creation date, a dictionary or string containing an info value, a second info before, bytes after the end); announce, name and hash bytes arbitrary
//gosym:cover ok
//gosym:cpu 100 1000
func C13_File() {
	h := []byte(hashes(1))
	copy(h[7:], vsym.Bytes("hash", 2))
	nb := vsym.Byte("name")
	vsym.Assume(nb != '/' && nb != '.')
	name := "n" + string([]byte{nb})
	raw := infoBytes(name, string(h))
	ann := "http://" + vsym.String("announce", 2)
	items := []string{bstr("announce") + bstr(ann), bstr("info") + raw, ""}
	o := 0
	tail := ""
	switch k := vsym.Choose("other", 6); k {
	case 0:
	case 1:
		items[2] = bstr("creation date") + bint(int64(1234567890))
		o = vsym.Choose("order", 6)
	case 2:
		items[2] = bstr("extra") + "d" + bstr("announce") + bstr("no") + bstr("info") + "d" + bstr("name") + bstr("no") + "ee"
		o = vsym.Choose("order", 6)
	case 3:
		items[2] = bstr("comment") + bstr("x4:infod4:name1:xe")
		o = vsym.Choose("order", 6)
	case 4:
		// the last one counts, everywhere
		items[2] = items[1]
		items[1] = bstr("info") + "d" + bstr("length") + bint(6) + bstr("name") + bstr("first") + bstr("piece length") + bint(6) + bstr("pieces") + bstr(hashes(1)) + "e"
		if vsym.Choose("between", 2) == 1 {
			items[0], items[1] = items[1], items[0]
		}
	case 5:
		tail = "d4:info0:e\x00\r\n"
	}
	s := "d"
	for _, i := range order(o) {
		s += items[i]
	}
	s += "e" + tail
	tor, err := torrent.FromTorrentFile(save(s), "/scratch/w")
	vsym.Assert(err == nil, "a torrent file is refused")
	vsym.Assert(tor.Infohash() == string(vsym.Digest([]byte(raw))), "the infohash is not the SHA-1 of the info value in the file")
	vsym.Assert(tor.Announce() == ann, "the announce URL is not the one in the file")
	vsym.Assert(tor.Info().Name() == name && tor.Info().Hashes() == string(h), "the torrent was not loaded from the info value that was hashed")
	vsym.ObsStr("announce", tor.Announce())
	vsym.ObsStr("name", tor.Info().Name())
	vsym.Cover("ok")
}

// ref is an independent scanner for bencoding: the end of the item at i, or -1.
func ref(b []byte, i int) int {
	if i >= len(b) {
		return -1
	}
	switch c := b[i]; {
	case c == 'i':
		for i++; i < len(b) && b[i] != 'e'; i++ {
			if b[i] != '-' && (b[i] < '0' || b[i] > '9') {
				return -1
			}
		}
		if i >= len(b) {
			return -1
		}
		return i + 1
	case c == 'l' || c == 'd':
		for i++; i < len(b) && b[i] != 'e'; {
			if i = ref(b, i); i < 0 {
				return -1
			}
		}
		if i >= len(b) {
			return -1
		}
		return i + 1
	case c >= '0' && c <= '9':
		_, e := refStr(b, i)
		return e
	}
	return -1
}

func refStr(b []byte, i int) (string, int) {
	n := 0
	st := i
	for ; i < len(b) && b[i] >= '0' && b[i] <= '9'; i++ {
		n = 10*n + int(vsym.Concrete(int64(b[i]-'0')))
		if n > 1000 {
			return "", -1
		}
	}
	if i == st || i >= len(b) || b[i] != ':' || i+1+n > len(b) {
		return "", -1
	}
	return string(b[i+1 : i+1+n]), i + 1 + n
}

// C13_Corrupt: any one byte of a torrent file replaced by any other.
//
//gosym:bounds a 118-byte torrent file with an extra key on each level, any one of its bytes arbitrary, and the same file cut short at any point
//gosym:cover ok refused
//gosym:cpu 160 1500
func C13_Corrupt() {
	raw := "d" + bstr("length") + bint(5) + bstr("name") + bstr("n") + bstr("piece length") + bint(5) + bstr("pieces") + bstr("abcdefghijklmnopqrst") + "e"
	s := "d" + bstr("announce") + bstr("u") + bstr("info") + raw + bstr("z") + bint(1) + "e"
	b := []byte(s)
	if vsym.Choose("how", 2) == 0 {
		k := vsym.Choose("at", len(b))
		b[k] = vsym.Byte("byte")
	} else {
		b = b[:vsym.Choose("cut", len(b))]
	}
	tor, err := torrent.FromTorrentFile(save(string(b)), "/scratch/w")
	if err != nil {
		vsym.Assert(string(b) != s, "a torrent file is refused")
		vsym.Cover("refused")
		return
	}
	// find the values independently
	vsym.Assert(b[0] == 'd', "a file that is no dictionary is accepted")
	i := 1
	val := ""
	ann := ""
	found := false
	for i < len(b) && b[i] != 'e' {
		k, e := refStr(b, i)
		vsym.Assert(e > 0, "a file with a malformed key is accepted")
		j := ref(b, e)
		vsym.Assert(j > 0, "a file with a malformed value is accepted")
		if k == "info" {
			val = string(b[e:j])
			found = true
		} else if k == "announce" {
			ann, _ = refStr(b, e)
		}
		i = j
	}
	vsym.Assert(found, "a file without an info value is accepted")
	vsym.Assert(tor.Infohash() == string(vsym.Digest([]byte(val))), "the infohash is not the SHA-1 of the info value in the file")
	vsym.Assert(tor.Announce() == ann, "the announce URL is not the one in the file")
	vsym.Cover("ok")
}

// C13_Refused: files that have no infohash or announce URL.
//
//gosym:bounds files that are empty, missing, or any other bencoded type; announce or info missing, of any other type, or only nested deeper
func C13_Refused() {
	raw := "d" + bstr("length") + bint(5) + bstr("name") + bstr("n") + bstr("piece length") + bint(5) + bstr("pieces") + bstr(hashes(1)) + "e"
	ann := bstr("announce") + bstr("http://x")
	inf := bstr("info") + raw
	cases := []string{
		"", "de", "le", bint(3), bstr("d4:infode"), "l" + ann + inf + "e",
		"d" + ann + "e", "d" + inf + "e",
		"d" + ann + bstr("info") + bstr(raw) + "e", "d" + ann + bstr("info") + bint(1) + "e", "d" + ann + bstr("info") + "l" + raw + "ee",
		"d" + bstr("announce") + bint(1) + inf + "e", "d" + bstr("announce") + "l" + bstr("http://x") + "e" + inf + "e", "d" + bstr("announce") + "de" + inf + "e",
		"d" + ann + bstr("x") + "d" + inf + "ee", "d" + inf + bstr("x") + "d" + ann + "ee",
		"d" + ann + inf, "d" + ann + bstr("Info") + raw + "e", "d" + ann + bstr("inf") + raw + "e",
	}
	k := vsym.Choose("case", len(cases)+1)
	p := vsym.Dir() + "/missing.torrent"
	if k < len(cases) {
		p = save(cases[k])
	}
	tor, err := torrent.FromTorrentFile(p, "/scratch/w")
	vsym.Assert(err != nil && tor == nil, "a file without a guaranteed infohash and announce URL is accepted")
}

// C13_Parts: the infohash of a torrent built from parts.
//
//gosym:bounds names and path components of 1-2 arbitrary bytes, every piece length of 1-20 and 2^20, 0-3 files of 0-20 bytes, arbitrary hash bytes; arbitrary announce URL of 0-3 bytes
//gosym:cover ok
//gosym:cpu 100 1000
func C13_Parts() {
	nb := vsym.Bytes("name", 1+vsym.Choose("name len", 2))
	name := string(nb)
	pls := []int64{1, 3, 9, 20, 1 << 20}
	pl := pls[vsym.Choose("piece length", len(pls))]
	nf := 1 + vsym.Choose("files", 3)
	var fes []filesd.EntryBase
	var total int64
	list := "l"
	var l0 int64
	for i := 0; i < nf; i++ {
		l := []int64{0, 4, 20}[vsym.Choose("length", 3)]
		c := vsym.Byte("path")
		vsym.Assume(c != '/')
		p := string([]byte{c})
		fes = append(fes, filesd.MakeFileEntry("d/"+p, l))
		list += "d" + bstr("length") + bint(l) + bstr("path") + "l" + bstr("d") + bstr(p) + "e" + "e"
		total += l
		l0 = l
	}
	list += "e"
	vsym.Assume(total > 0)
	n := (total + pl - 1) / pl
	h := []byte(hashes(n))
	copy(h[10:], vsym.Bytes("hash", 2))
	ti, err := info.NewTorInfo(name, pl, string(h), fes)
	vsym.Assert(err == nil, "a consistent torrent is refused")
	ann := vsym.String("announce", vsym.Choose("announce len", 4))
	tor, err := torrent.NewTorrent(ti, ann)
	vsym.Assert(err == nil, "a consistent torrent is refused")
	enc := "d"
	if nf == 1 {
		enc += bstr("length") + bint(l0)
	} else {
		enc += bstr("files") + list
	}
	enc2 := bstr("name") + bstr(name) + bstr("piece length") + bint(pl) + bstr("pieces") + bstr(string(h)) + bstr("private") + bint(0) + "e"
	vsym.Assert(tor.Infohash() == string(vsym.Digest([]byte(enc+enc2))), "the infohash is not the SHA-1 of the canonical encoding")
	vsym.Assert(tor.Announce() == ann, "the announce URL changed")
	vsym.Assert(tor.Info() == ti, "the info changed")
	vsym.Cover("ok")
}
