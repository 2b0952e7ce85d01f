package htracker

import (
	"net"
	"strconv"
	"strings"

	"gotor/peer"
	"gotor/tracker"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

func bs(s string) string { return strconv.Itoa(len(s)) + ":" + s }

// ask sends an announce and gives the client the response.
func ask(body string, fail int) (*tracker.Response, error) {
	tr := &models.Tracker{Body: []byte(body), Fail: fail}
	tr.Install()
	resp, err := tracker.Get(newTorrent("http://h/a"), tracker.NewStats(0, 0, 0), 1, "-GT0000-abcdefghijkl")
	vsym.Assert((err == nil) == (resp != nil), "a response comes with an error, or neither comes")
	return resp, err
}

func isPeer(p peer.Info, id string, ip net.IP, port uint16) {
	vsym.Assert(p.Ip().Equal(ip), "a peer has another address than the response says")
	vsym.Assert(p.Port() == port, "a peer has another port than the response says")
	vsym.Assert(p.Id() == id, "a peer has another id than the response says")
}

// C20_Compact: compact peer lists.
//
//gosym:bounds compact strings of 0-13 and 18 bytes, the address or the port of one entry arbitrary, the other entries fixed and different
//gosym:cover ok refused
//gosym:cpu 150 1500
func C20_Compact() {
	n := vsym.Choose("len", 15)
	if n == 14 {
		n = 18
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(10*i + 3)
	}
	if n >= 6 {
		at := 6 * vsym.Choose("entry", n/6)
		if vsym.Choose("port", 2) == 1 {
			copy(b[at+4:], vsym.Bytes("bytes2", 2))
		} else {
			copy(b[at:], vsym.Bytes("bytes4", 4))
		}
	}
	resp, err := ask("d8:completei1e10:incompletei2e8:intervali3e5:peers"+bs(string(b))+"e", 0)
	if n%6 != 0 {
		vsym.Assert(err != nil, "a compact string that is no multiple of 6 bytes is accepted")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(err == nil, "a compact response is refused")
	vsym.Assert(len(resp.Peers) == n/6, "peers are lost or made up")
	for i, p := range resp.Peers {
		e := b[6*i : 6*i+6]
		isPeer(p, "", net.IPv4(e[0], e[1], e[2], e[3]), uint16(e[4])<<8|uint16(e[5]))
	}
	vsym.Cover("ok")
}

// C20_List: peer dictionaries.
//
//gosym:bounds 0-3 peer dictionaries; one of them with any of 17 address strings (IPv4, IPv6, not addresses) or with an arbitrary byte in its address, with any 64-bit port, or an arbitrary id
//gosym:cover ok refused
//gosym:cpu 150 1500
func C20_List() {
	n := vsym.Choose("peers", 4)
	which := 0
	if n > 0 {
		which = vsym.Choose("which", n)
	}
	list := "l"
	var ids, ips []string
	var ports []int64
	valid := true
	for i := 0; i < n; i++ {
		id, ip, port := "-XX0000-abcdefghijk"+string([]byte{byte('0' + i)}), "10.0.0."+strconv.Itoa(i), int64(6881+i)
		if i == which {
			switch vsym.Choose("what", 4) {
			case 0:
				id = vsym.String("id", 1) + id[1:]
			case 1:
				all := []string{"0.0.0.0", "255.255.255.255", "::1", "2001:db8::ff", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "fe80::1%eth0", "1.2.3", "1.2.3.256", "01.2.3.4", "1.2.3.4.5", "localhost", "peer.example", " 1.2.3.4", "1.2.3.4:80", ":", "1::2::3"}
				ip = all[vsym.Choose("ip", len(all))]
			case 2:
				ip = "1.2" + vsym.String("ip", 1) + "3.4"
			case 3:
				port = vsym.Int64("port")
			}
		}
		list += "d2:ip" + bs(ip) + "7:peer id" + bs(id) + "4:porti" + strconv.FormatInt(port, 10) + "ee"
		ids, ips, ports = append(ids, id), append(ips, ip), append(ports, port)
		valid = valid && net.ParseIP(ip) != nil && port >= 0 && port <= 65535
	}
	resp, err := ask("d8:completei1e10:incompletei2e8:intervali3e5:peers"+list+"ee", 0)
	if !valid {
		vsym.Assert(err != nil, "an unusable peer address is accepted")
		vsym.Cover("refused")
		return
	}
	vsym.Assert(err == nil, "a response is refused")
	vsym.Assert(len(resp.Peers) == n, "peers are lost or made up")
	for i, p := range resp.Peers {
		isPeer(p, ids[i], net.ParseIP(ips[i]), uint16(ports[i]))
	}
	vsym.Cover("ok")
}

// C20_State: numbers, warnings and failures.
//
//gosym:bounds every value from 0 to 2^63-1 of one of interval, complete, incomplete and min interval; warnings of 1-3 and failure reasons of 0-3 arbitrary bytes, alone or with everything else; keys in both orders
//gosym:cover ok failure
//gosym:cpu 100 1000
func C20_State() {
	v := []int64{1, 2, 3, 4}
	k := vsym.Choose("which", 5)
	if k < 4 {
		v[k] = vsym.Int64("number")
		vsym.Assume(v[k] >= 0)
	}
	warn := ""
	items := []string{
		"8:completei" + strconv.FormatInt(v[0], 10) + "e",
		"10:incompletei" + strconv.FormatInt(v[1], 10) + "e",
		"8:intervali" + strconv.FormatInt(v[2], 10) + "e",
	}
	min := vsym.Choose("min", 2) == 1 || k == 3
	if min {
		items = append(items, "12:min intervali"+strconv.FormatInt(v[3], 10)+"e")
	}
	items = append(items, "5:peers"+bs("\x01\x02\x03\x04\x00\x05"), "10:tracker id3:abc")
	if vsym.Choose("warning", 2) == 1 {
		warn = vsym.String("warn", 1+vsym.Choose("len", 3))
		items = append(items, "15:warning message"+bs(warn))
	}
	fail := ""
	failed := vsym.Choose("failure", 2) == 1
	if failed {
		fail = vsym.String("reason", vsym.Choose("reason len", 4))
		items = append(items, "14:failure reason"+bs(fail))
		if vsym.Choose("alone", 2) == 1 {
			items = items[len(items)-1:]
		}
	}
	body := "d"
	rev := vsym.Choose("reverse", 2) == 1
	for i := range items {
		if rev {
			i = len(items) - 1 - i
		}
		body += items[i]
	}
	resp, err := ask(body+"e", 0)
	if failed {
		vsym.Assert(err != nil, "a failure is not reported")
		vsym.Assert(strings.Contains(err.Error(), fail), "the error does not contain the failure reason")
		vsym.Cover("failure")
		return
	}
	vsym.Assert(err == nil, "a response is refused")
	s := resp.State
	vsym.Assert(s.Seeders() == uint64(v[0]) && s.Leechers() == uint64(v[1]) && s.Interval() == uint64(v[2]), "a number is not the one in the response")
	if min {
		vsym.Assert(s.MinInterval() == uint64(v[3]), "the minimum interval is not the one in the response")
	} else {
		vsym.Assert(s.MinInterval() == 0, "a minimum interval is made up")
	}
	vsym.Assert(s.Warning() == warn, "the warning is not the one in the response")
	vsym.Assert(len(resp.Peers) == 1, "peers are lost or made up")
	isPeer(resp.Peers[0], "", net.IPv4(1, 2, 3, 4), 5)
	vsym.Cover("ok")
}

// C20_Fields: missing and mistyped fields.
//
//gosym:bounds any one of complete, incomplete, interval, peers, and a peer's ip or port missing, of another type or (numbers) negative; peers that are no dictionaries; bodies that are no dictionaries, empty or cut short anywhere, by the response or by the connection
//gosym:cover refused
func C20_Fields() {
	vals := []string{"", "1:x", "i-1e", "le", "de", "li1ee"}
	peers := func(p string) string { return "d8:completei1e10:incompletei2e8:intervali3e5:peers" + p + "e" }
	whole := peers(bs("abcdef"))
	var body string
	fail := 0
	switch vsym.Choose("what", 7) {
	case 0:
		keys := []string{"8:complete", "10:incomplete", "8:interval"}
		bad := vsym.Choose("key", 3)
		v := vals[vsym.Choose("value", len(vals))]
		body = "d"
		for i, k := range keys {
			if i != bad {
				body += k + "i7e"
			} else if v != "" {
				body += k + v
			}
		}
		body += "5:peers6:abcdefe"
	case 1:
		v := []string{"i5e", "de", "d2:ip7:1.2.3.44:porti1ee"}[vsym.Choose("value", 3)]
		body = peers(v)
	case 2:
		body = "d8:completei1e10:incompletei2e8:intervali3ee"
	case 3:
		v := []string{"", "2:ipi1e", "2:iple", "2:ip0:"}[vsym.Choose("value", 4)]
		body = peers("ld" + v + "7:peer id1:x4:porti1eee")
	case 4:
		v := []string{"", "4:port1:1", "4:portle", "4:porti-1e", "4:porti65536e", "4:porti9223372036854775807e"}[vsym.Choose("value", 6)]
		body = peers("ld2:ip7:1.2.3.47:peer id1:x" + v + "ee")
	case 5:
		v := []string{"li1ee", "l1:xe", "llee", "ld2:ip7:1.2.3.47:peer id1:x4:porti1ee1:xe"}[vsym.Choose("value", 4)]
		body = peers(v)
	case 6:
		switch vsym.Choose("cut", 3) {
		case 0:
			body = whole[:vsym.Choose("at", len(whole))]
		case 1:
			body = whole
			fail = 1 + vsym.Choose("at", len(whole))
		case 2:
			body = []string{"le", "i5e", "5:hello", "<html>", "\x00"}[vsym.Choose("body", 5)]
		}
	}
	_, err := ask(body, fail)
	vsym.Assert(err != nil, "a response with missing or mistyped fields is accepted")
	vsym.Cover("refused")
}

// C20_Any: no response crashes the client.
//
//gosym:bounds bodies of 0-4 (thorough 0-6) arbitrary bytes; a response with compact peers and one with peer dictionaries, any one byte arbitrary
//gosym:cpu 250 2500
func C20_Any() {
	max := 4
	if vsym.Thorough() {
		max = 6
	}
	var b []byte
	switch vsym.Choose("kind", 3) {
	case 0:
		b = vsym.Bytes("body", vsym.Choose("len", max+1))
	case 1:
		b = []byte("d8:completei1e10:incompletei2e8:intervali30e5:peers6:abcdef15:warning message1:we")
		b[vsym.Choose("at", len(b))] = vsym.Byte("byte")
	case 2:
		b = []byte("d8:completei1e10:incompletei2e8:intervali30e5:peersld2:ip7:1.2.3.47:peer id1:x4:porti80eeee")
		b[vsym.Choose("at", len(b))] = vsym.Byte("byte")
	}
	resp, err := ask(string(b), 0)
	if err == nil {
		_ = resp.String()
	}
}

// C20_Many: long peer lists.
//
//gosym:bounds compact strings of 42, 43, 50, 51, 100, 128, 200, 255, 256, 257 and 300 (thorough also 1000, 4096 and 10923) peers and lists of 42, 51, 100, 129, 255, 256, 257 and 300 peer dictionaries, two bytes of the first, a middle or the last peer arbitrary
//gosym:cover compact list
//gosym:steps 40000000
//gosym:cpu 150 1500
func C20_Many() {
	sizes := []int{42, 43, 50, 51, 100, 128, 200, 255, 256, 257, 300}
	compact := vsym.Choose("compact", 2) == 1
	if compact && vsym.Thorough() {
		sizes = append(sizes, 1000, 4096, 10923)
	}
	n := sizes[vsym.Choose("size", len(sizes))]
	which := []int{0, n / 2, n - 1}[vsym.Choose("which", 3)]
	b := make([]byte, 6*n)
	for i := 0; i < n; i++ {
		b[6*i], b[6*i+1], b[6*i+2], b[6*i+3] = 10, byte(i>>8), byte(i), 7
		b[6*i+4], b[6*i+5] = byte(i>>8)+1, byte(i)
	}
	if !compact {
		port := vsym.Uint16("port")
		list := make([]byte, 0, 80*n)
		for i := 0; i < n; i++ {
			p := strconv.Itoa(i)
			if i == which {
				p = strconv.Itoa(int(port))
			}
			list = append(list, "d2:ip"+bs("10.1."+strconv.Itoa(i/200)+"."+strconv.Itoa(i%200))+"7:peer id"+bs("-XX0000-"+strconv.Itoa(100000000000+i))+"4:porti"+p+"ee"...)
		}
		resp, err := ask("d8:completei1e10:incompletei2e8:intervali3e5:peersl"+string(list)+"ee", 0)
		vsym.Assert(err == nil, "a long list is refused")
		vsym.Assert(len(resp.Peers) == n, "peers are lost or made up")
		for i, p := range resp.Peers {
			want := uint16(i)
			if i == which {
				want = port
			}
			isPeer(p, "-XX0000-"+strconv.Itoa(100000000000+i), net.IPv4(10, 1, byte(i/200), byte(i%200)), want)
		}
		vsym.Cover("list")
		return
	}
	b[6*which+2], b[6*which+5] = vsym.Byte("a"), vsym.Byte("b")
	resp, err := ask("d8:completei1e10:incompletei2e8:intervali3e5:peers"+bs(string(b))+"e", 0)
	vsym.Assert(err == nil, "a long compact response is refused")
	vsym.Assert(len(resp.Peers) == n, "peers are lost or made up")
	for i, p := range resp.Peers {
		e := b[6*i : 6*i+6]
		isPeer(p, "", net.IPv4(e[0], e[1], e[2], e[3]), uint16(e[4])<<8|uint16(e[5]))
	}
	vsym.Cover("compact")
}
