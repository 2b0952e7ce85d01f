// Package hpeer: peer addresses and identities (C21).
package hpeer

import (
	"net"

	"gotor/peer"
	"gotor/zzverif/vsym"
)

// number reads a decimal without signs or leading zeros; -1 if it is none.
func number(s string) int64 {
	if s == "" || len(s) > 1 && s[0] == '0' {
		return -1
	}
	var v int64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		v = 10*v + int64(s[i]-'0')
	}
	return v
}

func addr(id string, ip net.IP, port uint16) {
	want := append(net.IP(nil), ip...)
	p := peer.MakePeer(id, ip, port)
	vsym.Assert(p.Id() == id && p.Port() == port && p.Ip().Equal(want), "a peer does not have the id, address or port it was made with")
	a := p.Addr()
	host, ps, err := net.SplitHostPort(a)
	vsym.Assert(err == nil, "an address string is not host:port")
	vsym.Assert(number(ps) == int64(port), "an address string has another port")
	got := net.ParseIP(host)
	vsym.Assert(got != nil && got.Equal(want), "an address string has another host")
	vsym.ObsStr("addr", a)
}

// C21_V4: IPv4 addresses.
//
//gosym:bounds every IPv4 address in 4-byte form with every second byte and the port arbitrary, and in 16-byte form; ids of 0-2 arbitrary bytes and 20 bytes
//gosym:cpu 150 2000
func C21_V4() {
	ip := net.IP{10, 0, 255, 1}
	n := 2
	if vsym.Thorough() {
		n = 4
	}
	k := vsym.Choose("from", 2)
	for i := 0; i < n; i++ {
		ip[(i*2+k+i/2)%4] = vsym.Byte("ip")
	}
	if vsym.Choose("long", 2) == 1 {
		ip = net.IPv4(ip[0], ip[1], ip[2], ip[3])
	}
	ids := []string{"", vsym.String("id", 2), "-GT0000-abcdefghijkl"}
	addr(ids[vsym.Choose("id", 3)], ip, vsym.Uint16("port"))
}

// C21_V6: IPv6 addresses.
//
//gosym:bounds nine shapes of IPv6 address (zero runs at the start, in the middle, at the end, twice, none, IPv4-mapped-like), two bytes arbitrary, and every port of one digit or above 65000
//gosym:cpu 250 2500
//gosym:paths 20000 200000
func C21_V6() {
	shapes := []string{"2001:db8::1", "::1", "::", "fe80::1:2:3:4", "1:2:3:4:5:6:7:8", "1:0:0:2:0:0:0:3", "ff02:0:1:0:1:0:1:0", "::ffff:0:102:304", "1:2:3:4:5:6:7:0"}
	ip := net.ParseIP(shapes[vsym.Choose("shape", len(shapes))])
	at := []int{0, 6, 14}[vsym.Choose("at", 3)]
	ip[at] = vsym.Byte("ip")
	ip[at+1] = vsym.Byte("ip")
	port := vsym.Uint16("port")
	vsym.Assume(port < 10 || port > 65000)
	addr("x", ip, port)
}

func mk(k string, ports bool) (string, net.IP, uint16) {
	id := ""
	switch vsym.Choose(k+" id", 4) {
	case 0:
	case 1:
		id = vsym.String(k+"id", 1)
	case 2:
		id = vsym.String(k+"id2", 2) + " @ 1.2.3.4:5"
	case 3:
		id = "-GT0000-abcdefghijk" + vsym.String(k+"id3", 1)
	}
	var ip net.IP
	switch vsym.Choose(k+" ip", 4) {
	case 0:
		ip = net.IP{1, 2, 3, vsym.Byte(k + "ip")}
	case 1:
		ip = net.IPv4(1, 2, 3, vsym.Byte(k+"ip"))
	case 2:
		ip = net.ParseIP("fe80::")
		ip[15] = vsym.Byte(k + "ip")
	case 3:
		ip = net.ParseIP("::1:0")
		ip[1] = vsym.Byte(k + "ip")
	}
	port := vsym.Uint16(k + "port")
	if !ports {
		vsym.Assume(port < 10)
	}
	return id, ip, port
}

func distinct(ports bool) {
	id1, ip1, p1 := mk("a", ports)
	id2, ip2, p2 := mk("b", ports)
	a := peer.MakePeer(id1, ip1, p1)
	b := peer.MakePeer(id2, ip2, p2)
	if a.String() == b.String() {
		vsym.Assert(id1 == id2 && ip1.Equal(ip2) && p1 == p2, "two different peers have the same identifying string")
	}
}

// C21_Distinct: two peers with the same identifying string are the same.
//
//gosym:bounds two peers with four shapes of id (empty, an arbitrary byte, a string that looks like the identifying string of another peer after two arbitrary bytes, 20 bytes), four shapes of address with an arbitrary byte, ports of one digit
//gosym:cpu 500 1000
//gosym:paths 80000 400000
func C21_Distinct() {
	distinct(false)
}

// C21_DistinctPorts: the same with every port.
//
//gosym:bounds as C21_Distinct, with every port
//gosym:thorough
//gosym:cpu 500 4000
//gosym:paths 80000 400000
func C21_DistinctPorts() {
	distinct(true)
}

// C21_Ports: peers at one address.
//
//gosym:bounds two peers with the same id of two arbitrary bytes at the same address, each with every port; two peers with 20 arbitrary bytes of id each; and one whose id has 1-20 bytes, one of them arbitrary, against one whose id differs there
//gosym:cpu 100 400
func C21_Ports() {
	switch vsym.Choose("ids", 3) {
	case 0:
		id := vsym.String("id", 2)
		p1, p2 := vsym.Uint16("p1"), vsym.Uint16("p2")
		a := peer.MakePeer(id, net.IP{1, 2, 3, 4}, p1)
		b := peer.MakePeer(id, net.IP{1, 2, 3, 4}, p2)
		vsym.Assert((a.String() == b.String()) == (p1 == p2), "the identifying string does not tell the ports apart, or tells equal ones apart")
		vsym.Assert((a.Addr() == b.Addr()) == (p1 == p2), "the address does not tell the ports apart, or tells equal ones apart")
		return
	case 1:
		id1, id2 := vsym.String("id1", 20), vsym.String("id2", 20)
		a := peer.MakePeer(id1, net.IP{1, 2, 3, 4}, 5)
		b := peer.MakePeer(id2, net.IP{1, 2, 3, 4}, 5)
		vsym.Assert((a.String() == b.String()) == (id1 == id2), "the identifying string does not tell the ids apart, or tells equal ones apart")
		return
	}
	n := 1 + vsym.Choose("n", 20)
	at := vsym.Choose("at", n)
	x, y := vsym.Byte("x"), vsym.Byte("y")
	mkid := func(c byte) string {
		b := []byte("-GT0000-abcdefghijkl")[:n]
		b[at] = c
		return string(b)
	}
	a := peer.MakePeer(mkid(x), net.IP{1, 2, 3, 4}, 5)
	b := peer.MakePeer(mkid(y), net.IP{1, 2, 3, 4}, 5)
	vsym.Assert((a.String() == b.String()) == (x == y), "the identifying string does not tell the ids apart, or tells equal ones apart")
}
