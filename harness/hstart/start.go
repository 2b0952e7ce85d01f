// Package hstart: starting and running a whole client (C41-C48).
package hstart

import (
	"flag"
	"io"
	"net"
	"os"
	"strconv"
	"time"

	"gotor/swarm"
	"gotor/utils"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// parse reads the options as main does; ok is false when they are rejected.
func parse(args ...string) (o *utils.Opts, ok bool) {
	os.Args = append([]string{"gotor"}, args...)
	flag.CommandLine = flag.NewFlagSet("gotor", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.CommandLine.Usage = func() {}
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return utils.GetOpts(), true
}

func bs(s string) string { return strconv.Itoa(len(s)) + ":" + s }

func num(v int64) string { return strconv.FormatInt(v, 10) }

// site is everything a client starts from: a torrent file, a working directory
// and a tracker.
type site struct {
	lens    []int64
	names   []string
	name    string
	pl      int64
	data    []byte
	disk    [][]byte // nil: no file
	wd      string
	torrent string
	info    string
	port    uint16
	up, dn  string
	tracker *models.Tracker
}

// body is a response of the tracker.
func body(complete, incomplete, interval int64, peers string) []byte {
	return []byte("d8:completei" + num(complete) + "e10:incompletei" + num(incomplete) + "e8:intervali" + num(interval) + "e5:peers" + bs(peers) + "e")
}

func newSite(lens []int64, pl int64) *site {
	s := &site{lens: lens, pl: pl, name: "T", wd: vsym.Dir() + "/w", torrent: vsym.Dir() + "/t.torrent", port: models.FreePort(), up: "-1B", dn: "-1B"}
	s.names = []string{"a", "sub/b", "c", "d"}[:len(lens)]
	s.data = make([]byte, s.total())
	for i := range s.data {
		s.data[i] = byte(i*7 + i>>8*3 + 1)
	}
	s.disk = make([][]byte, len(lens))
	s.tracker = &models.Tracker{Body: body(1, 2, 3, "")}
	models.RandFixed = true
	return s
}

func (s *site) total() (t int64) {
	for _, n := range s.lens {
		t += n
	}
	return t
}

func (s *site) pieces() int64 { return (s.total() + s.pl - 1) / s.pl }

func (s *site) span(i int64) (int64, int64) {
	a, b := i*s.pl, (i+1)*s.pl
	if t := s.total(); b > t {
		b = t
	}
	return a, b
}

// path is where a file of the torrent belongs.
func (s *site) path(i int) string {
	if len(s.lens) == 1 {
		return s.wd + "/T"
	}
	return s.wd + "/T/" + s.names[i]
}

// fill puts the right contents on disk.
func (s *site) fill() {
	off := int64(0)
	for i, n := range s.lens {
		s.disk[i] = append([]byte{}, s.data[off:off+n]...)
		off += n
	}
}

// metainfo is the info dictionary.
func (s *site) metainfo() string {
	var hs []byte
	for i := int64(0); i < s.pieces(); i++ {
		a, b := s.span(i)
		hs = append(hs, vsym.Digest(s.data[a:b])...)
	}
	d := "d"
	if len(s.lens) > 1 {
		d += "5:filesl"
		for i, n := range s.lens {
			path := bs(s.names[i])
			if s.names[i] == "sub/b" {
				path = "3:sub1:b"
			}
			d += "d6:lengthi" + num(n) + "e4:pathl" + path + "ee"
		}
		d += "e"
	} else {
		d += "6:lengthi" + num(s.lens[0]) + "e"
	}
	return d + "4:name" + bs(s.name) + "12:piece lengthi" + num(s.pl) + "e6:pieces" + bs(string(hs)) + "e"
}

func write(path string, data []byte) {
	i := len(path) - 1
	for path[i] != '/' {
		i--
	}
	if e := os.MkdirAll(path[:i], 0755); e != nil {
		panic(e)
	}
	if e := os.WriteFile(path, data, 0644); e != nil {
		panic(e)
	}
}

// lay puts everything in place.
func (s *site) lay() {
	s.info = s.metainfo()
	write(s.torrent, []byte("d8:announce"+bs("http://h/a?k=v")+"4:info"+s.info+"e"))
	for i, d := range s.disk {
		if d != nil {
			write(s.path(i), d)
		}
	}
	s.tracker.Install()
}

// opts are the options to start with.
func (s *site) opts() *utils.Opts {
	o, ok := parse("-i", s.torrent, "-w", s.wd, "-p", num(int64(s.port)), "-u", s.up, "-d", s.dn)
	vsym.Assert(ok, "right options are rejected")
	return o
}

// run makes the client.
func (s *site) run() (*swarm.Swarm, error) {
	sw, e := swarm.NewSwarm(s.opts())
	vsym.Assert((sw == nil) != (e == nil), "a client comes with an error, or neither comes")
	return sw, e
}

// have says which pieces are right once the files have their lengths.
func (s *site) have() []bool {
	var after []byte
	for i, n := range s.lens {
		f := make([]byte, n)
		copy(f, s.disk[i])
		after = append(after, f...)
	}
	h := make([]bool, s.pieces())
	for i := range h {
		a, b := s.span(int64(i))
		h[i] = string(after[a:b]) == string(s.data[a:b])
	}
	return h
}

func compact(ip [4]byte, port uint16) string {
	return string([]byte{ip[0], ip[1], ip[2], ip[3], byte(port >> 8), byte(port)})
}

// C42_Files: files in any state.
//
//gosym:bounds three layouts of 1-3 files and 2-5 pieces; each file absent, complete, one byte short or two long, with any one byte of it arbitrary
//gosym:cover some all none
//gosym:cpu 200 2000
func C42_Files() {
	ls := []*site{newSite([]int64{5}, 2), newSite([]int64{3, 0, 4}, 3), newSite([]int64{1, 4}, 2)}
	s := ls[vsym.Choose("layout", len(ls))]
	s.fill()
	for i, n := range s.lens {
		switch vsym.Choose("state", 4) {
		case 1:
			s.disk[i] = nil
		case 2:
			if n > 0 {
				s.disk[i] = s.disk[i][:n-1]
			}
		case 3:
			s.disk[i] = append(s.disk[i], 1, 2)
		}
		if m := len(s.disk[i]); m > 0 {
			s.disk[i][vsym.Choose("at", m)] = vsym.Byte("byte")
		}
	}
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	left, n := int64(0), 0
	have := s.have()
	for i := range have {
		vsym.Assert(sw.Bf.Get(int64(i)) == have[i], "a piece is marked although its bytes are wrong, or not although they are right")
		if have[i] {
			n++
		} else {
			a, b := s.span(int64(i))
			left += b - a
		}
	}
	vsym.Assert(sw.Bf.Nset() == int64(n) && sw.Bf.Complete() == (n == len(have)), "the number of pieces is wrong")
	switch n {
	case 0:
		vsym.Cover("none")
	case len(have):
		vsym.Cover("all")
	default:
		vsym.Cover("some")
	}
	off := int64(0)
	for i, m := range s.lens {
		b, e := os.ReadFile(s.path(i))
		vsym.Assert(e == nil && int64(len(b)) == m, "a file does not have its length")
		want := make([]byte, m)
		copy(want, s.disk[i])
		vsym.Assert(string(b) == string(want), "starting changes bytes of a file")
		off += m
	}
	vsym.Assert(s.tracker.N == 1, "starting does not announce exactly once")
	q, e := s.tracker.Query()
	vsym.Assert(e == nil && len(q["left"]) == 1 && q["left"][0] == num(left), "what is left is not the length of the missing pieces")
	// The missing pieces, and only those, are asked for
	w := &swarm.PeerHandler{}
	for i := range have {
		sw.PPT.Register(w, uint32(i))
	}
	for i := n; i < len(have); i++ {
		p, ok := sw.PPT.NextPiece(w)
		vsym.Assert(ok && !have[p], "a missing piece is not to be had, or a present one is")
	}
	_, ok := sw.PPT.NextPiece(w)
	vsym.Assert(!ok, "more pieces are to be had than are missing")
	// Missing pieces can be stored, all can be read
	buf := make([]byte, s.pl)
	for i := range have {
		a, b := s.span(int64(i))
		if !have[i] {
			m, e := sw.Fileio.WritePiece(int64(i), s.data[a:b])
			vsym.Assert(e == nil && m == b-a, "a missing piece cannot be stored")
		}
		m, e := sw.Fileio.ReadPiece(int64(i), buf)
		vsym.Assert(e == nil && string(buf[:m]) == string(s.data[a:b]), "a piece does not read as its data")
	}
}

// C42_Equal: pieces with the same contents.
//
//gosym:bounds a file of 4 pieces of 2 bytes, the last one complete or short; any two of the pieces have the same contents, or all have; up to two bytes of the file on disk arbitrary, or the file ends anywhere
//gosym:cpu 200 2000
func C42_Equal() {
	s := newSite([]int64{7 + int64(vsym.Choose("short", 2))}, 2)
	switch a := vsym.Choose("first", 4); a {
	case 3:
		for i := range s.data {
			s.data[i] = byte(9 + i%2)
		}
	default:
		b := a + 1 + vsym.Choose("second", 3)
		if b > 3 {
			vsym.Stop()
		}
		copy(s.data[2*b:], s.data[2*a:2*a+2])
	}
	s.fill()
	if n := vsym.Choose("size", 9); n < 8 {
		s.disk[0] = s.disk[0][:len(s.disk[0])*n/8]
	} else {
		s.disk[0][vsym.Choose("at", len(s.data))] = vsym.Byte("byte")
		s.disk[0][vsym.Choose("and", len(s.data))] = vsym.Byte("another")
	}
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	for i, h := range s.have() {
		vsym.Assert(sw.Bf.Get(int64(i)) == h, "a piece is marked although its bytes are wrong, or not although they are right")
	}
}

// C42_Pieces: many pieces.
//
//gosym:bounds 40, 130 or 300 pieces of one byte, all right on disk but one, or all wrong but one, at the start, in the middle or one of the last three places, it different in any of the last two bits, or right
//gosym:cpu 150 600
func C42_Pieces() {
	n := []int{40, 130, 300}[vsym.Choose("pieces", 3)]
	s := newSite([]int64{int64(n)}, 1)
	s.fill()
	if vsym.Choose("most", 2) == 1 {
		for i := range s.disk[0] {
			s.disk[0][i] ^= 0x55
		}
	}
	at := []int{0, n / 2, n - 3, n - 2, n - 1}[vsym.Choose("odd", 5)]
	d := vsym.Byte("difference")
	vsym.Assume(d < 4)
	s.disk[0][at] = s.data[at] ^ d
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	for i, h := range s.have() {
		vsym.Assert(sw.Bf.Get(int64(i)) == h, "a piece is marked although its bytes are wrong, or not although they are right")
	}
}

// C42_Announce: what is announced, and what the tracker answers.
//
//gosym:bounds any port from 1 on, or any one of the peer counts and the interval of 0-9999, or a list of 0-3 peers with any two neighbouring bytes arbitrary, the last one on the client's own port or not
//gosym:cover ok
//gosym:cpu 200 2000
func C42_Announce() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	c := [3]int64{7, 8, 9}
	n := 0
	peers := ""
	switch vsym.Choose("arbitrary", 3) {
	case 0:
		s.port = uint16(vsym.Range("port", 1, 65535))
	case 1:
		c[vsym.Choose("count", 3)] = vsym.Range("value", 0, 9999)
	case 2:
		n = vsym.Choose("peers", 4)
		b := []byte(compact([4]byte{1, 2, 3, 4}, 5) + compact([4]byte{200, 0, 9, 77}, 60000) + compact([4]byte{127, 0, 0, 1}, 1))[:6*n]
		if n > 0 {
			copy(b[vsym.Choose("at", 6*n-1):], vsym.Bytes("bytes", 2))
			if vsym.Choose("same", 2) == 1 {
				// a peer with the client's own port
				b[6*n-2], b[6*n-1] = byte(s.port>>8), byte(s.port)
			}
		}
		peers = string(b)
	}
	s.tracker.Body = body(c[0], c[1], c[2], peers)
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	vsym.Assert(s.tracker.N == 1, "starting does not announce exactly once")
	r := s.tracker.Req
	vsym.Assert(r.URL.Host == "h" && r.URL.Path == "/a", "the announce goes elsewhere")
	q, e := s.tracker.Query()
	vsym.Assert(e == nil, "a standard parser rejects the query")
	exp := map[string]string{"k": "v", "info_hash": string(vsym.Digest([]byte(s.info))), "peer_id": sw.Id, "port": num(int64(s.port)), "uploaded": "0", "downloaded": "0", "left": "0", "compact": "1"}
	vsym.Assert(len(q) == len(exp), "the query has other parameters than it must")
	for k, v := range exp {
		vsym.Assert(len(q[k]) == 1 && q[k][0] == v, "a parameter is missing or has another value")
	}
	vsym.Assert(len(sw.Id) == 20 && sw.Id[:8] == "-GT0000-", "the peer id is not well formed")
	vsym.Assert(sw.Port == s.port, "the client has another port than the options")
	vsym.Assert(sw.Tor.Infohash() == exp["info_hash"] && sw.Tor.Announce() == "http://h/a?k=v", "the client has another torrent")
	vsym.Assert(sw.State.Seeders() == uint64(c[0]) && sw.State.Leechers() == uint64(c[1]) && sw.State.Interval() == uint64(c[2]), "the tracker's state is not what it answered")
	vsym.Assert(len(sw.Peers) == n, "peers are lost or made up")
	for i, p := range sw.Peers {
		b := peers[6*i:]
		vsym.Assert(p.Ip().Equal(net.IPv4(b[0], b[1], b[2], b[3])) && p.Port() == uint16(b[4])<<8|uint16(b[5]), "a peer has another address than the tracker says")
	}
	vsym.Assert(sw.Bf.Complete() && sw.Stats != nil && sw.Stats.Left() == 0, "a complete download is not complete")
	vsym.Cover("ok")
}

// C42_Refused: steps that fail.
//
//gosym:bounds a torrent file that is missing, cut off at any byte or hostile, a directory in place of a file (also of an empty one), two names of one file that make it too short to be read, a tracker that refuses the connection, breaks off after any number of bytes, fails or answers nonsense (first byte arbitrary)
//gosym:cover before tracker
//gosym:cpu 200 2000
func C42_Refused() {
	s := newSite([]int64{4, 3}, 2)
	s.fill()
	s.lay()
	meta := "d8:announce" + bs("http://h/a?k=v") + "4:info" + s.info + "e"
	asked := 0
	switch vsym.Choose("what", 10) {
	case 0:
		s.torrent += "x"
	case 1:
		write(s.torrent, []byte(meta[:vsym.Choose("cut", len(meta))]))
	case 2:
		s.info = "d5:filesld6:lengthi7e4:pathl2:..1:xeee" + "4:name1:T12:piece lengthi7e6:pieces" + bs(string(vsym.Digest(s.data))) + "e"
		write(s.torrent, []byte("d8:announce"+bs("http://h/a?k=v")+"4:info"+s.info+"e"))
	case 3:
		i := vsym.Choose("file", 2)
		os.Remove(s.path(i))
		if e := os.MkdirAll(s.path(i), 0755); e != nil {
			panic(e)
		}
	case 4:
		s.tracker.Fail = -1
		asked = 1
	case 5:
		s.tracker.Fail = 1 + vsym.Choose("bytes", len(s.tracker.Body))
		asked = 1
	case 6:
		s.tracker.Body = []byte("d14:failure reason4:nopee")
		asked = 1
	case 7:
		b := vsym.Byte("first")
		vsym.Assume(b != 'd')
		s.tracker.Body[0] = b
		asked = 1
	case 8:
		// Two names of one file, which gets the length of the second: the
		// first can be opened, but not read
		a := int64(2 + vsym.Choose("longer", 4))
		b := int64(vsym.Choose("shorter", int(a)))
		t := newSite([]int64{a, b}, a)
		t.names = []string{"x", "y"}
		t.lay()
		write(t.path(0), t.data[:a])
		if e := os.Symlink(t.path(0), t.path(1)); e != nil {
			panic(e)
		}
		s = t
	case 9:
		t := newSite([]int64{2, 1, 0}, 2)
		t.fill()
		i := vsym.Choose("directory", 3)
		t.disk[i] = nil
		t.lay()
		os.Remove(t.path(i))
		if e := os.MkdirAll(t.path(i), 0755); e != nil {
			panic(e)
		}
		s = t
	}
	sw, e := s.run()
	vsym.Assert(sw == nil && e != nil, "a client starts although a step failed")
	vsym.Assert(s.tracker.N == asked, "the tracker is asked although an earlier step failed, or more than once")
	if asked == 0 {
		vsym.Cover("before")
	} else {
		vsym.Cover("tracker")
	}
}

// sink notes when each transfer got through.
type sink struct {
	start time.Time
	at    []time.Duration
}

func (s *sink) Write(b []byte) (int, error) {
	s.at = append(s.at, time.Since(s.start))
	return len(b), nil
}

func (s *sink) Read(b []byte) (int, error) {
	s.at = append(s.at, time.Since(s.start))
	return len(b), nil
}

// C42_Rates: the limits of the options apply.
//
//gosym:bounds upload and download limits out of none, 1B, 7B, 2K and 1M; three transfers that each fill the window, in both directions
//gosym:cover limited unlimited
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 20000
func C42_Rates() {
	s := newSite([]int64{4}, 2)
	s.fill()
	opts := []string{"-1", "1B", "7", "2k", "1M"}
	rates := []int64{-1, 1, 7, 2048, 1 << 20}
	u, d := vsym.Choose("up", 5), vsym.Choose("dn", 5)
	s.up, s.dn = opts[u], opts[d]
	s.lay()
	sw, e := s.run()
	vsym.Assert(e == nil, "a right torrent does not start")
	go sw.RLIO.Run()
	vsym.Settle()
	for _, w := range []bool{true, false} {
		rate := rates[d]
		if w {
			rate = rates[u]
		}
		n := rate
		if n < 0 {
			n = 64
		}
		k := &sink{start: time.Now()}
		for i := 0; i < 3; i++ {
			// Just below the limit, then the rest of it
			part := n
			if i == 0 && n > 1 {
				part = n - 1
			}
			if w {
				e = sw.RLIO.Write(k, make([]byte, part))
			} else {
				e = sw.RLIO.Read(k, make([]byte, part))
			}
			vsym.Assert(e == nil, "a transfer fails")
			if i == 0 && n > 1 {
				if w {
					e = sw.RLIO.Write(k, make([]byte, 1))
				} else {
					e = sw.RLIO.Read(k, make([]byte, 1))
				}
				vsym.Assert(e == nil, "a transfer fails")
			}
		}
		last := k.at[len(k.at)-1]
		if rate < 0 {
			vsym.Assert(last < 500*time.Millisecond, "transfers are delayed without a limit")
			vsym.Cover("unlimited")
		} else {
			vsym.Assert(last > 900*time.Millisecond && last < 2500*time.Millisecond, "the limit of the options does not apply")
			vsym.Cover("limited")
		}
	}
}

// C46_Started: a started client's upload limit.
//
//gosym:bounds upload limits of 10, 17 and 40 bytes per second; one or two peers that connect, or one out of the tracker's list and at most one that connects, each of which asks for three pieces of 4 bytes; all replies come, at the pace of the limit
//gosym:cover connects listed
//gosym:spin 2000
//gosym:loose
//gosym:stress 1
//gosym:native-ms 30000
func C46_Started() {
	s := newSite([]int64{15}, 4)
	s.fill()
	k := vsym.Choose("limit", 3)
	limit := []int{10, 17, 40}[k]
	s.up = []string{"10B", "17", "40b"}[k]
	ask := cat(request(0, 0, 4), request(1, 0, 4), request(2, 0, 4))
	replies := cat(piece(0, 0, s.data[:4]), piece(1, 0, s.data[4:8]), piece(2, 0, s.data[8:12]))
	var sw *swarm.Swarm
	var ts []*talk
	var hello [][]byte
	n := 1 + vsym.Choose("more", 2)
	if vsym.Choose("listed", 2) == 1 {
		s.info = s.metainfo()
		t := &talk{answer: s.shake(theirId + "l")}
		sw = s.begin(t.address())
		ts, hello = append(ts, t), append(hello, cat(s.shake(sw.Id), unchoke))
		n--
		vsym.Cover("listed")
	} else {
		sw = s.begin("")
		vsym.Cover("connects")
	}
	for ; n > 0; n-- {
		t := s.dial()
		t.say(s.shake(theirId + string([]byte{byte('a' + n)})))
		ts, hello = append(ts, t), append(hello, cat(s.shake(sw.Id), msg(5, sw.Bf.Data()...), unchoke))
	}
	for i, t := range ts {
		vsym.Assert(t.hears(hello[i]), "a peer gets no session")
	}
	for _, t := range ts {
		t.say(ask)
	}
	time.Sleep(500 * time.Millisecond)
	got := 0
	for i, t := range ts {
		got += len(t.heard()) - len(hello[i])
	}
	// Two windows at most
	vsym.Assert(got <= 2*(limit+16), "more is sent than the upload limit allows")
	time.Sleep(time.Duration(3*len(ts))*time.Second + 200*time.Millisecond)
	for i, t := range ts {
		vsym.Assert(t.hears(cat(hello[i], replies)), "replies do not come, or not at the pace of the limit")
	}
}
