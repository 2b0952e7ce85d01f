package hbencode

import (
	"gotor/bencode"
	"gotor/zzverif/vsym"
)

// C04_Get: every accessor on every stored type, present or absent.
//
//gosym:bounds dictionaries of two entries with arbitrary 1-2 byte keys; stored values of 13 types with arbitrary contents, read through 5 accessors with an arbitrary 1-2 byte key
//gosym:cover hit miss mistyped negative
//gosym:cpu 60 400
func C04_Get() {
	k1 := symStr("k1", 2)
	k2 := symStr("k2", 2)
	vsym.Assume(k1 != k2)
	q := symStr("q", 2)
	i := vsym.Int64("i")
	s := vsym.String("s", vsym.Choose("s len", 3))
	inner := bencode.Dict{"in": i}
	list := bencode.List{i, s}
	vals := []interface{}{i, s, inner, list, int(i), int32(i), uint64(i), int8(i), nil, true, []byte(s), map[string]interface{}{"in": i}, []interface{}{i}}
	t := vsym.Choose("type", len(vals))
	d := bencode.Dict{k1: vals[t], k2: "second"}
	present := q == k1
	second := q == k2
	if present {
		vsym.Cover("hit")
	} else if !second {
		vsym.Cover("miss")
	}
	switch vsym.Choose("accessor", 5) {
	case 0:
		g, err := d.GetString(q)
		if present && t == 1 {
			vsym.Assert(err == nil && g == s, "GetString does not give the stored string")
		} else if second {
			vsym.Assert(err == nil && g == "second", "GetString does not give the stored string")
		} else {
			vsym.Assert(err != nil, "GetString gives no error for a missing or mistyped key")
			vsym.Cover("mistyped")
		}
	case 1:
		g, err := d.GetInt(q)
		if present && t == 0 {
			vsym.Assert(err == nil && g == i, "GetInt does not give the stored integer")
		} else {
			vsym.Assert(err != nil, "GetInt gives no error for a missing or mistyped key")
		}
	case 2:
		g, err := d.GetUint(q)
		if present && t == 0 && i >= 0 {
			vsym.Assert(err == nil && g == uint64(i), "GetUint does not give the stored integer")
		} else {
			if present && t == 0 {
				vsym.Cover("negative")
			}
			vsym.Assert(err != nil, "GetUint gives no error for a missing, mistyped or negative value")
		}
	case 3:
		g, err := d.GetDict(q)
		if present && t == 2 {
			vsym.Assert(err == nil && g != nil && len(g) == 1 && g["in"] == interface{}(i), "GetDict does not give the stored dictionary")
		} else {
			vsym.Assert(err != nil, "GetDict gives no error for a missing or mistyped key")
		}
	case 4:
		g, err := d.GetList(q)
		if present && t == 3 {
			vsym.Assert(err == nil && len(g) == 2 && g[0] == interface{}(i) && g[1] == interface{}(s), "GetList does not give the stored list")
		} else {
			vsym.Assert(err != nil, "GetList gives no error for a missing or mistyped key")
		}
	}
	vsym.Assert(len(d) == 2, "reading changes the dictionary")
}

// C04_Decoded: accessors on a decoded dictionary.
//
//gosym:bounds decoded dictionaries with an arbitrary key of 1-2 bytes and an integer of 1-3 arbitrary characters
//gosym:cover ok neg
func C04_Decoded() {
	k := symStr("k", 2)
	n := 1 + vsym.Choose("n", 3)
	body := vsym.Bytes("body", n)
	enc := append(refLen(len(k)), k...)
	enc = append(enc, 'i')
	enc = append(enc, body...)
	enc = append(enc, 'e')
	b := append(append([]byte{'d'}, enc...), 'e')
	v, err := bencode.Decode(b)
	if err != nil {
		return
	}
	d := v.(bencode.Dict)
	w, _, verdict := ref(b, 0, 0)
	vsym.Assume(verdict == exact && len(w.items) == 1 && w.items[0].kind == 'i')
	want := w.items[0].i
	g, err := d.GetInt(k)
	vsym.Assert(err == nil && g == want, "GetInt does not give the decoded integer")
	u, err := d.GetUint(k)
	if want >= 0 {
		vsym.Assert(err == nil && u == uint64(want), "GetUint does not give the decoded integer")
		vsym.Cover("ok")
	} else {
		vsym.Assert(err != nil, "GetUint gives no error for a negative value")
		vsym.Cover("neg")
	}
}

// C04_Empty: empty strings, lists and dictionaries, nil ones, zero and the
// extreme integers are stored values like any other.
//
//gosym:bounds one entry holding an empty or nil list or dictionary, an empty string, or 0, 1, -1, the smallest or the largest integer, stored directly or one dictionary further in; all five accessors
//gosym:cover done
func C04_Empty() {
	ints := []int64{0, 1, -1, -1 << 63, 1<<63 - 1}
	i := ints[vsym.Choose("i", len(ints))]
	vals := []interface{}{bencode.List(nil), bencode.List{}, bencode.Dict(nil), bencode.Dict{}, "", i}
	t := vsym.Choose("type", len(vals))
	k := symStr("k", 2)
	d := bencode.Dict{k: vals[t]}
	if vsym.Choose("inner", 2) == 1 {
		var err error
		d, err = bencode.Dict{"outer": d}.GetDict("outer")
		vsym.Assert(err == nil && len(d) == 1, "GetDict does not give the stored dictionary")
	}
	l, err := d.GetList(k)
	vsym.Assert((err == nil) == (t < 2) && len(l) == 0, "GetList gives an error for an empty list, or none for another value")
	in, err := d.GetDict(k)
	vsym.Assert((err == nil) == (t == 2 || t == 3) && len(in) == 0, "GetDict gives an error for an empty dictionary, or none for another value")
	s, err := d.GetString(k)
	vsym.Assert((err == nil) == (t == 4) && s == "", "GetString gives an error for an empty string, or none for another value")
	g, err := d.GetInt(k)
	vsym.Assert((err == nil) == (t == 5) && (err != nil || g == i), "GetInt gives an error for a stored integer, or none for another value")
	u, err := d.GetUint(k)
	vsym.Assert((err == nil) == (t == 5 && i >= 0) && (err != nil || u == uint64(i)), "GetUint gives an error for a stored integer, or none for another value")
	vsym.Cover("done")
}
