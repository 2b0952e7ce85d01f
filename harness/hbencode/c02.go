package hbencode

import (
	"gotor/bencode"
	"gotor/zzverif/vsym"
)

func canonical(v interface{}, w *sv) {
	enc, err := bencode.Encode(v)
	vsym.Assert(err == nil, "an encodable value is refused")
	want := refEncode(w)
	vsym.Assert(string(enc) == string(want), "the encoding is not the canonical one")
	vsym.Assert(same(v, w), "encoding changed the value")
}

// C02_Int: minimal decimal form of every integer.
//
//gosym:bounds all values of int8, int16, int32, int64 and int
//gosym:cover done
func C02_Int() {
	v, i := anyInt()
	enc, err := bencode.Encode(v)
	vsym.Assert(err == nil, "an integer is refused")
	n := len(enc)
	vsym.Assert(n >= 3 && enc[0] == 'i' && enc[n-1] == 'e', "an integer is not delimited by i and e")
	d := enc[1 : n-1]
	neg := d[0] == '-'
	if neg {
		d = d[1:]
	}
	vsym.Assert(len(d) > 0 && (d[0] != '0' || len(d) == 1 && !neg), "an integer is not in minimal form")
	var u uint64
	for _, c := range d {
		vsym.Assert(c >= '0' && c <= '9', "an integer has a character that is not a digit")
		u = u*10 + uint64(c-'0')
	}
	if neg {
		u = -u
	}
	vsym.Assert(len(d) <= 19 && int64(u) == i && (i < 0) == neg, "an integer is encoded as another one")
	vsym.Cover("done")
}

// C02_String: lengths in minimal decimal form, bytes unchanged.
//
//gosym:bounds strings of 1-12, 99-101, 255, 256, 999, 1000, 9999, 10000, 65536, 100000 bytes; the first and last four bytes (all, up to 12) arbitrary
//gosym:cover done
func C02_String() {
	lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 65536, 100000}
	n := lens[vsym.Choose("len", len(lens))]
	s := longStr(n)
	canonical(s, &sv{kind: 's', s: s})
	vsym.Cover("done")
}

// C02_Keys: key order for arbitrary keys, any insertion and iteration order.
//
//gosym:bounds dictionaries of up to 3 entries (thorough 4) with distinct arbitrary keys of 1-3 bytes; all map iteration orders
//gosym:cover done prefix high
//gosym:loose
//gosym:cpu 60 1200
func C02_Keys() {
	vsym.MapOrder(true)
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	n := 2 + vsym.Choose("n", max)
	d := bencode.Dict{}
	w := &sv{kind: 'd'}
	for j := 0; j < n; j++ {
		l := 1 + vsym.Choose("len", 2)
		if n == 2 {
			l += vsym.Choose("more", 2)
		}
		k := vsym.String("key", l)
		for _, o := range w.keys {
			vsym.Assume(o != k)
		}
		d[k] = int64(j)
		w.keys = append(w.keys, k)
		w.items = append(w.items, &sv{kind: 'i', i: int64(j)})
	}
	if w.keys[0][0] == w.keys[1][0] {
		vsym.Cover("prefix")
	}
	if w.keys[0][0] >= 0x80 {
		vsym.Cover("high")
	}
	canonical(d, w)
	vsym.Cover("done")
}

// C02_LongKeys: keys that differ in length by a decimal digit, or only late.
//
//gosym:bounds dictionaries of 2 entries with keys of 1, 2, 9, 10, 11, 20 or 100 bytes whose last two bytes are arbitrary and which share the rest
//gosym:cover done
func C02_LongKeys() {
	lens := []int{1, 2, 9, 10, 11, 20, 100}
	d := bencode.Dict{}
	w := &sv{kind: 'd'}
	for j := 0; j < 2; j++ {
		n := lens[vsym.Choose("len", len(lens))]
		b := make([]byte, n)
		for i := range b {
			b[i] = 'k'
		}
		if n >= 2 {
			copy(b[n-2:], vsym.Bytes("end", 2))
		} else {
			copy(b, vsym.Bytes("end", 1))
		}
		k := string(b)
		if j == 1 {
			vsym.Assume(w.keys[0] != k)
		}
		d[k] = "v"
		w.keys = append(w.keys, k)
		w.items = append(w.items, &sv{kind: 's', s: "v"})
	}
	canonical(d, w)
	vsym.Cover("done")
}

// C02_Nested: canonical form of every shape of small nested values.
//
//gosym:bounds every nesting of lists and dictionaries to depth 2 with at most 2 members each and 5 (thorough 7) values in all, strings and keys of 1 (thorough 1-2) arbitrary bytes, integers of -9..9 (thorough -128..127)
//gosym:cover done
//gosym:cpu 200 2400
func C02_Nested() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	v, w := build(2, 2, n)
	canonical(v, w)
	vsym.Cover("done")
}

// C02_Many: larger dictionaries, where the sort works in another way.
//
//gosym:bounds dictionaries of 13, 33 or 60 entries; one key (2 bytes), or for 13 entries two (2 and 1 bytes) arbitrary, the others fixed
//gosym:cover done
func C02_Many() {
	sizes := []int{13, 33, 60}
	n := sizes[vsym.Choose("n", len(sizes))]
	d := bencode.Dict{}
	w := &sv{kind: 'd'}
	add := func(k string, i int) {
		d[k] = i
		w.keys = append(w.keys, k)
		w.items = append(w.items, &sv{kind: 'i', i: int64(i)})
	}
	for j := 0; j < n-2; j++ {
		add(string([]byte{byte(j*37 + 1), byte(j*11 + 3), byte(j)}), j)
	}
	a := vsym.String("a", 2)
	b := "\x7f\x00zz"
	if n == 13 {
		b = vsym.String("b", 1)
	}
	add(a, n)
	add(b, n+1)
	canonical(d, w)
	vsym.Cover("done")
}

type other struct{ x int }

// C02_Refused: values without a bencoding are refused at any depth.
//
//gosym:bounds one unencodable leaf (nil, bool, floats, unsigned integers, bytes, plain maps and slices, pointers, structs, empty strings, empty keys) under every nesting of up to 3 (thorough 5) lists and dictionaries, with or without siblings before and after
//gosym:cover done key
func C02_Refused() {
	i := vsym.Range("i", 0, 9)
	leaves := []interface{}{nil, i == 0, float64(1), float32(1), uint(i), uint8(i), uint16(i), uint32(i), uint64(i), []byte("ab"),
		map[string]interface{}{"a": "b"}, []interface{}{"a"}, &i, other{1}, "", complex(1, 1), []string{"a"}, &bencode.Dict{"a": "b"}}
	k := vsym.Choose("leaf", len(leaves)+1)
	var v interface{}
	if k < len(leaves) {
		v = leaves[k]
	} else {
		v = bencode.Dict{"": "x"}
		vsym.Cover("key")
	}
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	depth := vsym.Choose("depth", n)
	for j := 0; j < depth; j++ {
		switch vsym.Choose("wrap", 4) {
		case 0:
			v = bencode.List{v}
		case 1:
			v = bencode.List{"a", v, i}
		case 2:
			v = bencode.Dict{"k": v}
		case 3:
			v = bencode.Dict{"a": i, "k": v, "z": "s"}
		}
	}
	enc, err := bencode.Encode(v)
	vsym.Assert(err != nil, "a value without a bencoding is encoded")
	_ = enc
	vsym.Cover("done")
}

// C02_Unchanged: a value is exactly what it was after it has been encoded,
// down to the types of its integers, and encodes to the same bytes again.
//
//gosym:bounds one arbitrary integer of type int, int8, int16, int32 or int64, or a 2-byte string, in a list or dictionary with a sibling, inside 0-2 more lists or dictionaries
//gosym:cover done
func C02_Unchanged() {
	v, _ := anyInt()
	if vsym.Choose("string", 2) == 1 {
		v = vsym.String("s", 2)
	}
	l := bencode.List{"a", v, int8(7)}
	d := bencode.Dict{"k": v, "z": int16(-3)}
	var top interface{} = l
	if vsym.Choose("dict", 2) == 1 {
		top = d
	}
	n := vsym.Choose("depth", 3)
	for j := 0; j < n; j++ {
		if vsym.Choose("wrap", 2) == 0 {
			top = bencode.List{top, int32(5)}
		} else {
			top = bencode.Dict{"in": top, "out": int32(5)}
		}
	}
	was := top
	a, err := bencode.Encode(top)
	vsym.Assert(err == nil, "an encodable value is refused")
	b, err := bencode.Encode(top)
	vsym.Assert(err == nil && string(a) == string(b), "a second encoding differs from the first")
	for j := 0; j < n; j++ {
		switch x := was.(type) {
		case bencode.List:
			vsym.Assert(len(x) == 2 && x[1] == interface{}(int32(5)), "encoding changed a value")
			was = x[0]
		case bencode.Dict:
			vsym.Assert(len(x) == 2 && x["out"] == interface{}(int32(5)), "encoding changed a value")
			was = x["in"]
		}
	}
	vsym.Assert(len(l) == 3 && l[0] == interface{}("a") && l[1] == v && l[2] == interface{}(int8(7)), "encoding changed a value")
	vsym.Assert(len(d) == 2 && d["k"] == v && d["z"] == interface{}(int16(-3)), "encoding changed a value")
	vsym.Cover("done")
}
