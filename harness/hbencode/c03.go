package hbencode

import (
	"gotor/bencode"
	"gotor/zzverif/vsym"
)

// Verdicts of the reference grammar.
const (
	exact   = iota // begins with a complete canonical item
	bad            // the first item is truncated or malformed in a way the property names
	lenient        // decodable but not canonical (leading zeros of a length, key order): no claim
)

// ref parses the item at p. The rules are those of BEP 3.
func ref(b []byte, p, depth int) (w *sv, end int, verdict int) {
	if p >= len(b) {
		return nil, p, bad
	}
	switch {
	case b[p] == 'i':
		q := p + 1
		neg := false
		if q < len(b) && b[q] == '-' {
			neg = true
			q++
		}
		st := q
		var u uint64
		over := false
		for q < len(b) && b[q] >= '0' && b[q] <= '9' {
			d := uint64(b[q] - '0')
			if q-st >= 18 && u > (1<<63)/10+1 {
				over = true
			}
			u = u*10 + d
			q++
		}
		if q >= len(b) || b[q] != 'e' || q == st {
			return nil, q, bad
		}
		if q-st > 1 && b[st] == '0' || neg && b[st] == '0' {
			return nil, q, bad
		}
		if q-st > 19 || over || !neg && u > 1<<63-1 || neg && u > 1<<63 {
			return nil, q, bad
		}
		i := int64(u)
		if neg {
			i = -i
		}
		return &sv{kind: 'i', i: i}, q + 1, exact
	case b[p] == 'l':
		w = &sv{kind: 'l'}
		verdict = exact
		q := p + 1
		for {
			if q >= len(b) {
				return nil, q, bad
			}
			if b[q] == 'e' {
				return w, q + 1, verdict
			}
			x, e, v := ref(b, q, depth+1)
			if v == bad {
				return nil, e, bad
			}
			if v == lenient {
				verdict = lenient
			}
			w.items = append(w.items, x)
			q = e
		}
	case b[p] == 'd':
		w = &sv{kind: 'd'}
		verdict = exact
		q := p + 1
		for {
			if q >= len(b) {
				return nil, q, bad
			}
			if b[q] == 'e' {
				return w, q + 1, verdict
			}
			k, e, v := refStr(b, q)
			if v == bad {
				return nil, e, bad
			}
			if v == lenient || len(k) == 0 || len(w.keys) > 0 && !less(w.keys[len(w.keys)-1], k) {
				verdict = lenient
			}
			x, e2, v2 := ref(b, e, depth+1)
			if v2 == bad {
				return nil, e2, bad
			}
			if v2 == lenient {
				verdict = lenient
			}
			w.keys = append(w.keys, k)
			w.items = append(w.items, x)
			q = e2
		}
	}
	s, e, v := refStr(b, p)
	return &sv{kind: 's', s: s}, e, v
}

func refStr(b []byte, p int) (string, int, int) {
	q := p
	n := 0
	v := exact
	for q < len(b) && b[q] >= '0' && b[q] <= '9' {
		if n <= len(b) {
			n = n*10 + int(b[q]-'0')
		}
		q++
	}
	if q == p || q >= len(b) || b[q] != ':' {
		return "", q, bad
	}
	if q-p > 1 && b[p] == '0' {
		v = lenient
	}
	q++
	if n > len(b)-q {
		return "", q, bad
	}
	if n == 0 {
		v = lenient // the encoder never writes an empty string
	}
	return string(b[q : q+n]), q + n, v
}

func decodeProp(b []byte) {
	w, _, verdict := ref(b, 0, 0)
	orig := string(b)
	v, err := bencode.Decode(b)
	vsym.Assert(string(b) == orig, "decoding changed the input")
	switch verdict {
	case exact:
		vsym.Cover("exact")
		vsym.Assert(err == nil, "a complete canonical item is refused")
		vsym.Assert(equal(v, w), "the decoded value is not the one the bytes denote")
	case bad:
		vsym.Cover("bad")
		vsym.Assert(err != nil, "a truncated or malformed item is accepted")
	default:
		vsym.Cover("lenient")
	}
}

// C03_Any: every byte string up to the bound.
//
//gosym:bounds all byte strings of 0-6 (thorough 0-9) bytes
//gosym:cover exact bad lenient
//gosym:cpu 120 2400
func C03_Any() {
	max := 6
	if vsym.Thorough() {
		max = 9
	}
	b := vsym.Bytes("b", vsym.Choose("len", max+1))
	decodeProp(b)
}

// C03_Int: integers of every length and content up to beyond 64 bits.
//
//gosym:bounds 'i', an optional sign, 0-21 characters, 'e' and one arbitrary byte; up to 4 characters are digits but for one that is arbitrary; longer ones run along the 64-bit limit with the first, a middle and the last two characters arbitrary digits (one of them any character)
//gosym:cover exact bad
//gosym:cpu 80 1500
func C03_Int() {
	n := vsym.Choose("digits", 22)
	b := []byte{'i'}
	if vsym.Choose("sign", 2) == 1 {
		b = append(b, '-')
	}
	at := len(b)
	b = append(b, "922337203685477580777"[:n]...)
	var pos []int
	if n <= 4 {
		for i := 0; i < n; i++ {
			pos = append(pos, at+i)
		}
	} else {
		pos = []int{at, at + n/2, at + n - 2, at + n - 1}
	}
	odd := 0
	if len(pos) > 1 {
		odd = vsym.Choose("odd", len(pos))
	}
	for i, p := range pos {
		b[p] = vsym.Byte("d")
		if i != odd {
			vsym.Assume(b[p] >= '0' && b[p] <= '9')
		}
	}
	b = append(b, 'e')
	b = append(b, vsym.Byte("after"))
	decodeProp(b)
}

// C03_Length: string lengths of every size against what is there.
//
//gosym:bounds length prefixes of 1-21 digits and a colon before 0, 3 or 12 bytes, alone (arbitrary bytes), as a list member and as a dictionary key (fixed bytes); up to 3 digits arbitrary, longer prefixes run along zero, the 32-bit, the signed and the unsigned 64-bit limit with the last two digits arbitrary
//gosym:cover exact bad lenient
//gosym:cpu 60 800
func C03_Length() {
	sizes := []int{0, 3, 12}
	n := 1 + vsym.Choose("digits", 21)
	var d []byte
	if n <= 3 {
		d = vsym.Bytes("d", n)
	} else {
		pats := []string{"000000000000000000000", "922337203685477580777", "184467440737095516166", "429496729600000000000"}
		d = []byte(pats[vsym.Choose("pattern", len(pats))][:n])
		d[n-1] = vsym.Byte("last")
		d[n-2] = vsym.Byte("last but one")
	}
	for i := range d {
		vsym.Assume(d[i] >= '0' && d[i] <= '9')
	}
	var b []byte
	k := sizes[vsym.Choose("body len", len(sizes))]
	body := []byte("a1:bi0e2:cde")[:k]
	switch vsym.Choose("where", 3) {
	case 0:
		body = vsym.Bytes("body", k)
	case 1:
		b = append(b, 'l')
	case 2:
		b = append(b, 'd')
	}
	b = append(b, d...)
	b = append(b, ':')
	b = append(b, body...)
	b = append(b, "ee"...)
	spare := make([]byte, len(b), len(b)+32)
	copy(spare, b)
	decodeProp(spare)
}

var skeletons = []string{
	"d1:ai1e1:bl1:xi22eee", "li1el2:yyed1:kd1:zi0eeee", "d4:spam4:eggs3:zzzi-42ee", "l12:abcdefghijkl1:be", "d1:ad1:bd1:cd1:di5eeeee",
	"lllleeee", "i-9223372036854775808e", "ld1:al1:be1:bde4:ccccle1:di7eee", "10:0123456789",
}

// C03_Mutated: structured inputs with arbitrary bytes anywhere in them.
//
//gosym:bounds 9 canonical items of up to 34 bytes with two consecutive bytes replaced, one by an arbitrary byte and one by any of "ie:9-" (thorough: any 3 consecutive bytes arbitrary), followed by nothing or an arbitrary byte
//gosym:cover exact bad
//gosym:cpu 200 2400
func C03_Mutated() {
	w := 2
	if vsym.Thorough() {
		w = 3
	}
	b := []byte(skeletons[vsym.Choose("skeleton", len(skeletons))])
	p := vsym.Choose("pos", len(b)-w+1)
	m := vsym.Bytes("m", w)
	if !vsym.Thorough() {
		// one of the two is arbitrary, the other of the kind the format uses
		k := vsym.Choose("which", 2)
		m[k] = "ie:9-"[vsym.Choose("other", 5)]
	}
	copy(b[p:], m)
	if vsym.Choose("tail", 2) == 1 {
		b = append(b, vsym.Byte("t"))
	}
	decodeProp(b)
}

// C03_Truncated: every proper prefix of an item is an error, and what follows
// a complete item is ignored.
//
//gosym:bounds 9 canonical items of up to 34 bytes, every cut, every 3-byte continuation of the complete item
//gosym:cover cut whole
func C03_Truncated() {
	s := skeletons[vsym.Choose("skeleton", len(skeletons))]
	cut := vsym.Choose("cut", len(s)+1)
	if cut < len(s) {
		v, err := bencode.Decode([]byte(s[:cut]))
		_ = v
		vsym.Assert(err != nil, "a truncated item is accepted")
		vsym.Cover("cut")
		return
	}
	decodeProp(append([]byte(s), vsym.Bytes("after", 3)...))
	vsym.Cover("whole")
}

// C03_Large: long strings and their boundaries.
//
//gosym:bounds canonical strings of 9, 10, 99, 100, 255, 256, 1000, 65536 and 1048576 bytes with arbitrary first and last bytes, complete or one byte short
//gosym:cover cut whole
func C03_Large() {
	lens := []int{9, 10, 99, 100, 255, 256, 1000, 65536, 1048576}
	n := lens[vsym.Choose("len", len(lens))]
	b := append(refLen(n), make([]byte, n)...)
	p := len(b) - n
	b[p] = vsym.Byte("first")
	b[len(b)-1] = vsym.Byte("last")
	if vsym.Choose("cut", 2) == 1 {
		_, err := bencode.Decode(b[:len(b)-1])
		vsym.Assert(err != nil, "a truncated string is accepted")
		vsym.Cover("cut")
		return
	}
	v, err := bencode.Decode(b)
	s, ok := v.(string)
	vsym.Assert(err == nil && ok, "a canonical string is refused")
	vsym.Assert(len(s) == n && s == string(b[p:]), "a decoded string has other bytes")
	vsym.Cover("whole")
}
