// Package htracker: announces and responses (C19, C20, C22).
package htracker

import (
	"net/url"
	"strconv"

	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/tracker"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

func newTorrent(announce string) *torrent.Torrent {
	ti, err := info.NewTorInfo("t", 4, "aaaaaaaaaaaaaaaaaaaa", []filesd.EntryBase{filesd.MakeFileEntry("f", 3)})
	if err != nil {
		panic(err)
	}
	tor, err := torrent.NewTorrent(ti, announce)
	if err != nil {
		panic(err)
	}
	return tor
}

const okBody = "d8:completei1e10:incompletei2e8:intervali3e5:peers0:e"

func num(v uint64) string { return strconv.FormatUint(v, 10) }

// announce makes one request and compares it with what it must be.
func announce(ann string, stats *tracker.Stats, port uint16, id string, up, dn, left uint64) {
	tr := &models.Tracker{Body: []byte(okBody)}
	tr.Install()
	tor := newTorrent(ann)
	want, err := url.Parse(ann)
	if err != nil {
		panic(err)
	}
	_, err = tracker.Get(tor, stats, port, id)
	vsym.Assert(err == nil && tr.N == 1, "an announce fails or is not sent once")
	r := tr.Req
	vsym.Assert(r.Method == "GET" || r.Method == "", "an announce is not a GET")
	vsym.Assert(r.URL.Scheme == want.Scheme && r.URL.Host == want.Host && (r.Host == "" || r.Host == want.Host), "an announce goes to another host")
	vsym.Assert(r.URL.EscapedPath() == want.EscapedPath() && r.URL.Fragment == "" || r.URL.Path == want.Path, "an announce has another path")
	q, err := url.ParseQuery(r.URL.RawQuery)
	vsym.Assert(err == nil, "a standard parser rejects the query")
	exp := want.Query()
	exp["info_hash"] = []string{tor.Infohash()}
	exp["peer_id"] = []string{id}
	exp["port"] = []string{num(uint64(port))}
	exp["uploaded"] = []string{num(up)}
	exp["downloaded"] = []string{num(dn)}
	exp["left"] = []string{num(left)}
	exp["compact"] = []string{"1"}
	vsym.Assert(len(q) == len(exp), "the query has other parameters than it must")
	for k, vs := range exp {
		got := q[k]
		vsym.Assert(len(got) == len(vs), "a parameter is missing or repeated")
		for i := range vs {
			vsym.Assert(got[i] == vs[i], "a parameter has another value")
		}
	}
	vsym.Cover("ok")
}

// C19_Infohash: any infohash and peer id.
//
//gosym:bounds infohashes with any two neighbouring bytes of 20 arbitrary and peer ids of 20 bytes with any two arbitrary, the other bytes fixed (among them letters, digits, reserved, high and zero bytes)
//gosym:cover ok
//gosym:sha1
//gosym:cpu 150 1500
func C19_Infohash() {
	vsym.SymbolicDigest()
	tor := newTorrent("http://tracker.example/announce")
	h := tor.Infohash()
	fixed := "a%+ &=~\xff\x00\x80Zz09-._/?#"
	at := vsym.Choose("at", 20)
	id := []byte("-GT0000-%+ &=~\xff\x00abcd")
	if at%2 == 0 {
		for i := 0; i < 20; i++ {
			if i != at && i != at+1 {
				vsym.Assume(h[i] == fixed[i])
			}
		}
		id[at/2] = vsym.Byte("id")
	} else {
		for i := 0; i < 20; i++ {
			vsym.Assume(h[i] == fixed[i])
		}
		id[at] = vsym.Byte("id")
		id[(at+1)%20] = vsym.Byte("id")
	}
	announce("http://tracker.example/announce", tracker.NewStats(1, 2, 3), 6881, string(id), 2, 1, 3)
}

// C19_Numbers: any port and counters.
//
//gosym:bounds every 16-bit port or every 64-bit value of one counter, the others fixed; counters also after updates
//gosym:cover ok
//gosym:cpu 100 1000
func C19_Numbers() {
	port := uint16(80)
	up, dn, left := uint64(5), uint64(1<<64-1), uint64(0)
	switch vsym.Choose("which", 4) {
	case 0:
		port = vsym.Uint16("port")
	case 1:
		up = vsym.Uint64("up")
	case 2:
		dn = vsym.Uint64("dn")
	case 3:
		left = vsym.Uint64("left")
	}
	st := tracker.NewStats(dn, up, left)
	if vsym.Choose("update", 2) == 1 {
		st = tracker.NewStats(dn-1, up-2, left)
		vsym.Assume(dn >= 1 && up >= 2)
		st.IncDnloaded(1)
		st.IncUploaded(2)
		st.DecLeft(1)
		if left > 0 {
			left--
		}
	}
	announce("http://h/a", st, port, "-GT0000-abcdefghijkl", up, dn, left)
}

// C19_URL: announce URLs.
//
//gosym:bounds eleven shapes of announce URL (ports, IPv6 hosts, escaped paths, queries with escapes, plus signs, empty and repeated parameters), and a path and a query with arbitrary URL characters in two places
//gosym:cover ok
//gosym:cpu 100 1500
func C19_URL() {
	urls := []string{
		"http://h/announce", "https://tracker.example:8443/x/y/announce", "http://[::1]:80/a", "http://h", "http://h/", "http://h/a%2Fb/c%20d",
		"http://h/a?passkey=0123456789abcdef", "http://h/a?x=%26%3D&y=a+b&z=", "http://h/a?k=1&k=2", "http://h/a?flag", "http://user@h/a?q=%FF",
	}
	k := vsym.Choose("url", len(urls)+2)
	var u string
	if k < len(urls) {
		u = urls[k]
	} else {
		c := vsym.Bytes("char", 2)
		for _, x := range c {
			vsym.Assume(x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x == '-' || x == '.' || x == '_' || x == '~' || x == '/' || x == ':' || x == '@' || x == '!' || x == '$' || x == '*' || x == ',')
		}
		if k == len(urls) {
			u = "http://h/" + string(c)
		} else {
			u = "http://h/a?p" + string(c[:1]) + "=v" + string(c[1:])
			vsym.Assume(c[0] != 'o')
		}
	}
	announce(u, tracker.NewStats(7, 8, 9), 1, "-GT0000-abcdefghijkl", 8, 7, 9)
}

// C19_Bad: malformed announce URLs.
//
//gosym:bounds URLs of 0-3 arbitrary bytes, and sixteen malformed ones with an arbitrary byte; connections that fail
//gosym:cover refused
//gosym:cpu 150 1500
func C19_Bad() {
	bad := []string{"", ":", "http//x", "ftp://h/a", "udp://h:80/a", "http://", "http://?x", "://h", "http://h:port/", "http://[::1/", "http://h/%zz", "http://a b/", "mailto:x", "%", "/announce", "http:/h"}
	tr := &models.Tracker{Body: []byte(okBody)}
	tr.Install()
	var u string
	switch vsym.Choose("kind", 3) {
	case 0:
		u = vsym.String("url", vsym.Choose("len", 4))
	case 1:
		u = bad[vsym.Choose("url", len(bad))]
		if vsym.Choose("more", 2) == 1 {
			u += vsym.String("byte", 1)
		}
	case 2:
		u = "http://h/a"
		tr.Fail = -1
	}
	resp, err := tracker.Get(newTorrent(u), tracker.NewStats(0, 0, 0), 1, "-GT0000-abcdefghijkl")
	p, e2 := url.Parse(u)
	if e2 != nil || p.Host == "" || p.Scheme != "http" && p.Scheme != "https" || tr.Fail < 0 {
		vsym.Assert(err != nil && resp == nil, "a malformed announce URL gives no error")
		vsym.Cover("refused")
	}
}

// C22_Stats: any history of updates.
//
//gosym:bounds every sequence of 5 (thorough 7) updates of any 64-bit amounts to any initial values, as long as the totals fit 64 bits
//gosym:cover floor
//gosym:cpu 100 1500
func C22_Stats() {
	up, dn, left := vsym.Uint64("up0"), vsym.Uint64("dn0"), vsym.Uint64("left0")
	s := tracker.NewStats(dn, up, left)
	steps := 5
	if vsym.Thorough() {
		steps = 7
	}
	for i := 0; i <= steps; i++ {
		vsym.Assert(s.Uploaded() == up, "the uploaded total is wrong")
		vsym.Assert(s.Dnloaded() == dn, "the downloaded total is wrong")
		vsym.Assert(s.Left() == left, "the bytes left are wrong")
		if i == steps {
			break
		}
		x := vsym.Uint64("amount")
		switch vsym.Choose("op", 3) {
		case 0:
			vsym.Assume(up+x >= up)
			s.IncUploaded(x)
			up += x
		case 1:
			vsym.Assume(dn+x >= dn)
			s.IncDnloaded(x)
			dn += x
		case 2:
			s.DecLeft(x)
			if x >= left {
				left = 0
				vsym.Cover("floor")
			} else {
				left -= x
			}
		}
	}
}
