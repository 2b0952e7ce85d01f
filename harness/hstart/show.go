package hstart

import (
	"encoding/hex"
	"net"
	"strings"

	"gotor/torrent"
	"gotor/zzverif/vsym"
)

func says(text, what, msg string) { vsym.Assert(strings.Contains(text, what), msg) }

// mixIn replaces a byte.
func mixIn(s string, at int, b byte) string {
	x := []byte(s)
	x[at] = b
	return string(x)
}

// C47_Torrent: what is printed about a torrent.
//
//gosym:bounds one file of 0, 5 or 2000 bytes or three files of 3, 0 and 1500 bytes, piece lengths 2-1024, any one byte of the announce URL, the name or a file's name (but for newlines) arbitrary
//gosym:cover single multi
//gosym:cpu 200 2000
func C47_Torrent() {
	var s *site
	switch vsym.Choose("layout", 4) {
	case 0:
		s = newSite([]int64{0}, 2)
	case 1:
		s = newSite([]int64{5}, 2)
	case 2:
		s = newSite([]int64{2000}, 1024)
	case 3:
		s = newSite([]int64{3, 0, 1500}, 1000)
	}
	ann := []byte("http://h/a?k=v")
	b := vsym.Byte("byte")
	switch k := vsym.Choose("where", 2+len(s.lens)); k {
	case 0:
		ann[vsym.Choose("at", len(ann))] = b
	case 1:
		vsym.Assume(b != '/')
		s.name = "name"
		s.name = mixIn(s.name, vsym.Choose("char", 4), b)
	default:
		// a line per file is what is looked for
		vsym.Assume(b != '/' && b != '\n')
		s.names[k-2] = mixIn("file"+s.names[k-2][:1], vsym.Choose("char", 5), b)
	}
	s.info = s.metainfo()
	write(s.torrent, []byte("d8:announce"+bs(string(ann))+"4:info"+s.info+"e"))
	t, e := torrent.FromTorrentFile(s.torrent, s.wd)
	vsym.Assert(e == nil, "a right torrent is refused")
	text := t.String()
	says(text, "["+s.name+"]", "the name is not printed")
	says(text, "["+string(ann)+"]", "the announce URL is not printed")
	says(text, "["+hex.EncodeToString(vsym.Digest([]byte(s.info)))+"]", "the infohash is not printed")
	says(text, "["+num(s.pieces())+" x ", "the number of pieces is not printed")
	says(text, "["+num(s.total())+" b]", "the length is not printed")
	if len(s.lens) == 1 {
		vsym.Cover("single")
		return
	}
	vsym.Cover("multi")
	size := []string{"3B", "0B", "1.46484375KiB"}
	at := strings.Index(text, "Files:")
	vsym.Assert(at >= 0, "the files are not listed")
	lines := strings.Split(text[at:], "\n")[1:]
	for i, n := range s.names {
		vsym.Assert(i < len(lines) && strings.HasSuffix(lines[i], " : "+n), "a file is not listed in its place")
		says(lines[i], size[i], "the length of a file is not printed")
	}
}

// C47_Infohash: infohashes with special bytes at their edges.
//
//gosym:bounds a torrent of 5 bytes, infohashes with two zero bytes at the start, end or in the middle, a zero byte or 0xff at both ends, a space, newline or small byte at an end
func C47_Infohash() {
	s := newSite([]int64{5}, 2)
	names := []string{"n95872", "n174651", "n111069", "n79885", "n212832", "n210", "n71", "n17"}
	s.name = names[vsym.Choose("torrent", len(names))]
	s.info = s.metainfo()
	write(s.torrent, []byte("d8:announce10:http://h/a4:info"+s.info+"e"))
	t, e := torrent.FromTorrentFile(s.torrent, s.wd)
	vsym.Assert(e == nil, "a right torrent is refused")
	says(t.String(), "["+hex.EncodeToString(vsym.Digest([]byte(s.info)))+"]", "the infohash is not printed")
}

// C47_Swarm: what is printed about a client.
//
//gosym:bounds counts and interval up to 9999 (one arbitrary), 0-6 peers with one arbitrary byte
//gosym:cpu 200 2000
func C47_Swarm() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	c := [3]int64{71, 8234, 1800}
	k := vsym.Choose("which", 4)
	if k < 3 {
		c[k] = vsym.Range("count", 0, 9999)
	}
	n := vsym.Choose("peers", 7)
	var list []byte
	for i := 0; i < n; i++ {
		list = append(list, compact([4]byte{10, 2, byte(i), 99}, uint16(700+i))...)
	}
	if k == 3 && n > 0 {
		list[6*(n-1)+vsym.Choose("at", 6)] = vsym.Byte("peer")
	}
	s.tracker.Body = body(c[0], c[1], c[2], string(list))
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	text := sw.String()
	says(text, sw.Tor.String(), "the torrent is not printed")
	for i, w := range []string{"Seeders: [", "Leechers: [", " Interval: ["} {
		says(text, w+num(c[i])+"]", "the tracker's state is not printed")
	}
	says(text, "("+num(int64(n))+")", "the number of peers is not printed")
	for i := 0; i < n; i++ {
		b := list[6*i:]
		a := net.TCPAddr{IP: net.IPv4(b[0], b[1], b[2], b[3]), Port: int(b[4])<<8 | int(b[5])}
		says(text, "("+a.String()+")", "a peer is not printed")
	}
}
