// Package hbencode holds the harnesses for package bencode.
package hbencode

import (
	"gotor/bencode"
	"gotor/zzverif/vsym"
)

// sv is a value as the harness sees it: what was built, independent of the
// code under test.
type sv struct {
	kind  byte // 's', 'i', 'l', 'd'
	s     string
	i     int64
	items []*sv
	keys  []string
}

// equal compares a decoded value with the expected one; integers must be int64.
func equal(v interface{}, w *sv) bool {
	switch w.kind {
	case 's':
		s, ok := v.(string)
		return ok && s == w.s
	case 'i':
		i, ok := v.(int64)
		return ok && i == w.i
	case 'l':
		l, ok := v.(bencode.List)
		if !ok || len(l) != len(w.items) {
			return false
		}
		for k := range l {
			if !equal(l[k], w.items[k]) {
				return false
			}
		}
		return true
	case 'd':
		d, ok := v.(bencode.Dict)
		if !ok || len(d) != len(w.items) {
			return false
		}
		for k := range w.items {
			x, ok := d[w.keys[k]]
			if !ok || !equal(x, w.items[k]) {
				return false
			}
		}
		return true
	}
	return false
}

// same compares a value that was encoded with what it was built from: the
// integers keep their own types.
func same(v interface{}, w *sv) bool {
	if w.kind != 'i' {
		if w.kind == 'l' {
			l, ok := v.(bencode.List)
			if !ok || len(l) != len(w.items) {
				return false
			}
			for k := range l {
				if !same(l[k], w.items[k]) {
					return false
				}
			}
			return true
		}
		if w.kind == 'd' {
			d, ok := v.(bencode.Dict)
			if !ok || len(d) != len(w.items) {
				return false
			}
			for k := range w.items {
				x, ok := d[w.keys[k]]
				if !ok || !same(x, w.items[k]) {
					return false
				}
			}
			return true
		}
		return equal(v, w)
	}
	switch x := v.(type) {
	case int:
		return int64(x) == w.i
	case int8:
		return int64(x) == w.i
	case int16:
		return int64(x) == w.i
	case int32:
		return int64(x) == w.i
	case int64:
		return x == w.i
	}
	return false
}

// refEncode is the bencoding of w with sorted keys, written independently.
func refEncode(w *sv) []byte {
	switch w.kind {
	case 's':
		return append(refLen(len(w.s)), w.s...)
	case 'i':
		return append(append([]byte{'i'}, refDec(w.i)...), 'e')
	case 'l':
		r := []byte{'l'}
		for _, x := range w.items {
			r = append(r, refEncode(x)...)
		}
		return append(r, 'e')
	}
	r := []byte{'d'}
	idx := make([]int, len(w.keys))
	for i := range idx {
		idx[i] = i
	}
	for i := range idx {
		for j := i; j > 0 && less(w.keys[idx[j]], w.keys[idx[j-1]]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	for _, i := range idx {
		r = append(r, refLen(len(w.keys[i]))...)
		r = append(r, w.keys[i]...)
		r = append(r, refEncode(w.items[i])...)
	}
	return append(r, 'e')
}

// less is byte-wise lexicographic order.
func less(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func refLen(n int) []byte { return append(refDec(int64(n)), ':') }

func refDec(i int64) []byte {
	if i == 0 {
		return []byte{'0'}
	}
	u := uint64(i)
	if i < 0 {
		u = -u
	}
	var rev []byte
	for u > 0 {
		rev = append(rev, byte('0'+u%10))
		u /= 10
	}
	var r []byte
	if i < 0 {
		r = append(r, '-')
	}
	for k := len(rev) - 1; k >= 0; k-- {
		r = append(r, rev[k])
	}
	return r
}

// roundTrip is the property for one value.
func roundTrip(v interface{}, w *sv) {
	enc, err := bencode.Encode(v)
	vsym.Assert(err == nil, "an encodable value is refused")
	dec, err := bencode.Decode(enc)
	vsym.Assert(err == nil, "the encoding of a value does not decode")
	vsym.Assert(equal(dec, w), "decoding the encoding gives another value")
}

func symStr(name string, max int) string {
	n := 1 + vsym.Choose(name+" len", max)
	return vsym.String(name, n)
}

func anyInt() (interface{}, int64) {
	switch vsym.Choose("int type", 5) {
	case 0:
		i := vsym.Int8("i8")
		return i, int64(i)
	case 1:
		i := vsym.Int16("i16")
		return i, int64(i)
	case 2:
		i := vsym.Int32("i32")
		return i, int64(i)
	case 3:
		i := vsym.Int64("i64")
		return i, i
	}
	i := vsym.Int64("int")
	return int(i), i
}

// C01_Int: every integer of every width.
//
//gosym:bounds all values of int8, int16, int32, int64 and int
//gosym:cover done
func C01_Int() {
	v, i := anyInt()
	roundTrip(v, &sv{kind: 'i', i: i})
	vsym.Cover("done")
}

// C01_String: string contents and lengths at the decimal boundaries.
//
//gosym:bounds strings of 1-12, 99-101, 255, 256, 999, 1000, 9999, 10000, 65536, 100000 (thorough: 1048577) bytes; the first and last four bytes (all, up to 12) arbitrary
//gosym:cover done
func C01_String() {
	lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 65536, 100000}
	if vsym.Thorough() {
		lens = append(lens, 1048577)
	}
	n := lens[vsym.Choose("len", len(lens))]
	s := longStr(n)
	roundTrip(s, &sv{kind: 's', s: s})
	vsym.Cover("done")
}

func longStr(n int) string {
	if n <= 12 {
		return vsym.String("s", n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "i0e:d4l-"[i%8]
	}
	copy(b, vsym.Bytes("head", 4))
	copy(b[n-4:], vsym.Bytes("tail", 4))
	return string(b)
}

// build makes an arbitrary value with at most depth container levels below
// this one, and its description.
func build(depth, width, slen int) (interface{}, *sv) {
	nodes := 5
	if slen > 1 {
		nodes = 7
	}
	return build1(depth, width, slen, &nodes)
}

func build1(depth, width, slen int, nodes *int) (interface{}, *sv) {
	*nodes--
	if width > *nodes {
		width = *nodes
	}
	k := 2
	if depth > 0 {
		k = 4
	}
	switch vsym.Choose("kind", k) {
	case 0:
		s := symStr("s", slen)
		return s, &sv{kind: 's', s: s}
	case 1:
		i := vsym.Range("i", -9, 9)
		if slen > 1 {
			i = int64(vsym.Int8("i8"))
		}
		return i, &sv{kind: 'i', i: i}
	case 2:
		n := vsym.Choose("n", width+1)
		l := bencode.List{}
		w := &sv{kind: 'l'}
		for j := 0; j < n; j++ {
			x, y := build1(depth-1, width, slen, nodes)
			l = append(l, x)
			w.items = append(w.items, y)
		}
		return l, w
	}
	n := vsym.Choose("n", width+1)
	d := bencode.Dict{}
	w := &sv{kind: 'd'}
	for j := 0; j < n; j++ {
		key := symStr("key", slen)
		for _, o := range w.keys {
			vsym.Assume(o != key)
		}
		x, y := build1(depth-1, width, slen, nodes)
		d[key] = x
		w.keys = append(w.keys, key)
		w.items = append(w.items, y)
	}
	return d, w
}

// C01_Nested: every shape of small nested values with arbitrary leaves.
//
//gosym:bounds every nesting of lists and dictionaries to depth 2 with at most 2 members each and 5 (thorough 7) values in all, strings and keys of 1 (thorough 1-2) arbitrary bytes, integers of -9..9 (thorough -128..127)
//gosym:cover done
//gosym:cpu 80 2400
func C01_Nested() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	v, w := build(2, 2, n)
	roundTrip(v, w)
	vsym.Cover("done")
}

// C01_Chain: values of every kind at the end of every short nesting.
//
//gosym:bounds every chain of 0-5 (thorough 0-8) lists and dictionaries of one or two members around an arbitrary 64-bit integer or 2-byte string
//gosym:cover done
//gosym:cpu 60 1500
func C01_Chain() {
	n := 6
	if vsym.Thorough() {
		n = 9
	}
	var v interface{}
	var w *sv
	if vsym.Choose("leaf", 2) == 0 {
		i := int64(1)<<40 + int64(vsym.Int32("i"))
		v, w = i, &sv{kind: 'i', i: i}
	} else {
		s := vsym.String("s", 2)
		v, w = s, &sv{kind: 's', s: s}
	}
	d := vsym.Choose("depth", n)
	for k := 0; k < d; k++ {
		switch vsym.Choose("wrap", 4) {
		case 0:
			v, w = bencode.List{v}, &sv{kind: 'l', items: []*sv{w}}
		case 1:
			v, w = bencode.List{v, int8(-3)}, &sv{kind: 'l', items: []*sv{w, {kind: 'i', i: -3}}}
		case 2:
			v, w = bencode.Dict{"k": v}, &sv{kind: 'd', keys: []string{"k"}, items: []*sv{w}}
		case 3:
			v, w = bencode.Dict{"k": "z", "a": v}, &sv{kind: 'd', keys: []string{"k", "a"}, items: []*sv{{kind: 's', s: "z"}, w}}
		}
	}
	roundTrip(v, w)
	vsym.Cover("done")
}

// C01_Deep: deep nesting and wide containers with arbitrary leaves.
//
//gosym:bounds chains of 300 alternating lists and dictionaries; lists and dictionaries of 300 members
//gosym:cover done
func C01_Deep() {
	i := vsym.Int16("leaf")
	s := vsym.String("leaf s", 2)
	var v interface{} = bencode.List{i, s}
	w := &sv{kind: 'l', items: []*sv{{kind: 'i', i: int64(i)}, {kind: 's', s: s}}}
	switch vsym.Choose("shape", 3) {
	case 0:
		for n := 0; n < 300; n++ {
			if n%2 == 0 {
				v = bencode.Dict{"k": v}
				w = &sv{kind: 'd', keys: []string{"k"}, items: []*sv{w}}
			} else {
				v = bencode.List{v, "x"}
				w = &sv{kind: 'l', items: []*sv{w, {kind: 's', s: "x"}}}
			}
		}
	case 1:
		l := bencode.List{}
		lw := &sv{kind: 'l'}
		for n := 0; n < 300; n++ {
			l = append(l, v)
			lw.items = append(lw.items, w)
		}
		v, w = l, lw
	case 2:
		d := bencode.Dict{}
		dw := &sv{kind: 'd'}
		for n := 0; n < 300; n++ {
			k := "key" + string(refDec(int64(n)))
			d[k] = v
			dw.keys = append(dw.keys, k)
			dw.items = append(dw.items, w)
		}
		v, w = d, dw
	}
	roundTrip(v, w)
	vsym.Cover("done")
}

// C01_Limit: the depth the decoder states it supports, and one more.
//
//gosym:bounds lists and dictionaries nested 9999, 10000 and 10001 deep
//gosym:cover in over
//gosym:steps 40000000
func C01_Limit() {
	n := 9999 + vsym.Choose("n", 3)
	dict := vsym.Choose("dict", 2) == 1
	leaf := int64(vsym.Int8("leaf"))
	vsym.Assume(leaf >= 0 && leaf < 10)
	open, end := "l", "e"
	if dict {
		open = "d1:k"
	}
	b := make([]byte, 0, n*6)
	for i := 0; i < n; i++ {
		b = append(b, open...)
	}
	b = append(b, 'i', byte('0'+leaf), 'e')
	for i := 0; i < n; i++ {
		b = append(b, end...)
	}
	v, err := bencode.Decode(b)
	if n > 10000 {
		vsym.Assert(err != nil, "nesting beyond the stated limit is accepted")
		vsym.Cover("over")
		return
	}
	vsym.Assert(err == nil, "nesting within the stated limit is refused")
	for i := 0; i < n; i++ {
		if dict {
			d, ok := v.(bencode.Dict)
			vsym.Assert(ok && len(d) == 1, "a nested value is lost")
			v = d["k"]
		} else {
			l, ok := v.(bencode.List)
			vsym.Assert(ok && len(l) == 1, "a nested value is lost")
			v = l[0]
		}
	}
	x, ok := v.(int64)
	vsym.Assert(ok && x == leaf, "the innermost value is another one")
	vsym.Cover("in")
}

// wide is a long list or a large dictionary.
type wide struct {
	kind, n int
	dict    bool
	leaf    int64
}

func newWide() *wide {
	x := &wide{kind: vsym.Choose("kind", 5), dict: vsym.Choose("dict", 2) == 1, n: 10050}
	x.leaf = int64(vsym.Int8("leaf"))
	vsym.Assume(x.leaf >= 0 && x.leaf < 10)
	if x.dict {
		x.n = 5050
	}
	return x
}

func (x *wide) key(i int) string {
	return string([]byte{'k', byte('0' + i/1000), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
}

func (x *wide) item(i int) interface{} {
	switch x.kind {
	case 0:
		return bencode.List{}
	case 1:
		return bencode.Dict{}
	case 2:
		return int64(i % 10)
	case 3:
		return "x"
	}
	return bencode.List{"x"}
}

func (x *wide) same(i int, v interface{}) bool {
	switch x.kind {
	case 0:
		l, ok := v.(bencode.List)
		return ok && len(l) == 0
	case 1:
		d, ok := v.(bencode.Dict)
		return ok && len(d) == 0
	case 2:
		return v == int64(i%10)
	case 3:
		return v == "x"
	}
	l, ok := v.(bencode.List)
	return ok && len(l) == 1 && l[0] == "x"
}

func (x *wide) value() interface{} {
	if x.dict {
		d := bencode.Dict{"z": x.leaf}
		for i := 0; i < x.n; i++ {
			d[x.key(i)] = x.item(i)
		}
		return d
	}
	l := make(bencode.List, x.n, x.n+1)
	for i := range l {
		l[i] = x.item(i)
	}
	return append(l, x.leaf)
}

// text is its canonical encoding.
func (x *wide) text() []byte {
	b := make([]byte, 0, 16*x.n)
	if x.dict {
		b = append(b, 'd')
	} else {
		b = append(b, 'l')
	}
	for i := 0; i < x.n; i++ {
		if x.dict {
			b = append(append(b, "5:"...), x.key(i)...)
		}
		switch x.kind {
		case 0:
			b = append(b, "le"...)
		case 1:
			b = append(b, "de"...)
		case 2:
			b = append(b, 'i', byte('0'+i%10), 'e')
		case 3:
			b = append(b, "1:x"...)
		default:
			b = append(b, "l1:xe"...)
		}
	}
	if x.dict {
		b = append(b, "1:z"...)
	}
	return append(b, 'i', byte('0'+x.leaf), 'e', 'e')
}

func (x *wide) check(w interface{}, err error) {
	vsym.Assert(err == nil, "a large value is not decoded")
	if x.dict {
		d, ok := w.(bencode.Dict)
		vsym.Assert(ok && len(d) == x.n+1, "entries of a large dictionary are lost")
		for i := 0; i < x.n; i++ {
			vsym.Assert(x.same(i, d[x.key(i)]), "an entry of a large dictionary is another one")
		}
		vsym.Assert(d["z"] == x.leaf, "an entry of a large dictionary is another one")
		vsym.Cover("dict")
		return
	}
	l, ok := w.(bencode.List)
	vsym.Assert(ok && len(l) == x.n+1, "elements of a long list are lost")
	for i := 0; i < x.n; i++ {
		vsym.Assert(x.same(i, l[i]), "an element of a long list is another one")
	}
	vsym.Assert(l[x.n] == x.leaf, "an element of a long list is another one")
	vsym.Cover("list")
}

// C01_Wide: long lists and large dictionaries.
//
//gosym:bounds a list of 10050 empty lists, empty dictionaries, integers, strings or lists of one element, or a dictionary of 5050 keys with such values, the last one followed by an arbitrary digit
//gosym:cover list dict
//gosym:steps 40000000
func C01_Wide() {
	x := newWide()
	b, err := bencode.Encode(x.value())
	vsym.Assert(err == nil, "a large value is not encoded")
	x.check(bencode.Decode(b))
}

// C02_Wide: the encoding of long lists and large dictionaries.
//
//gosym:bounds a list of 10050 empty lists, empty dictionaries, integers, strings or lists of one element, or a dictionary of 5050 keys with such values, the last one followed by an arbitrary digit
//gosym:steps 40000000
func C02_Wide() {
	x := newWide()
	b, err := bencode.Encode(x.value())
	vsym.Assert(err == nil, "a large value is not encoded")
	vsym.Assert(string(b) == string(x.text()), "the encoding of a large value is not canonical")
}

// C03_Wide: the encoding of long lists and large dictionaries.
//
//gosym:bounds the encoding of a list of 10050 empty lists, empty dictionaries, integers, strings or lists of one element, or a dictionary of 5050 keys with such values, the last one followed by an arbitrary digit
//gosym:cover list dict
//gosym:steps 40000000
func C03_Wide() {
	x := newWide()
	x.check(bencode.Decode(x.text()))
}
