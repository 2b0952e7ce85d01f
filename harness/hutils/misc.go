package hutils

import (
	"gotor/utils"
	"gotor/zzverif/models"
	"gotor/zzverif/vsym"
)

// C34_PeerId: ids from any clock and random source.
//
//gosym:bounds every clock value and every sequence of 64-bit random values in which at most 2 (thorough 4) of the 6-bit groups are 52 or more (natively: 200000 ids)
//gosym:loose
//gosym:native-ms 60000
//gosym:cpu 100 1500
func C34_PeerId() {
	vsym.SymbolicClock()
	models.RandSkips = 2
	if vsym.Thorough() {
		models.RandSkips = 4
	}
	n := vsym.Repeat(1, 200000)
	for i := 0; i < n; i++ {
		peerId()
	}
}

func peerId() {
	id := utils.NewPeerId()
	vsym.Assert(len(id) == 20, "a peer id is not 20 bytes")
	vsym.Assert(id[:8] == "-GT0000-", "a peer id does not start with the client prefix")
	for j := 8; j < len(id); j++ {
		c := id[j] | 0x20
		vsym.Assert(c >= 'a' && c <= 'z', "a peer id has a character that is not a letter")
	}
}

// C34_Unlucky: ids from unlucky random values.
//
//gosym:bounds every sequence of 64-bit random values in which 0-45 (thorough 0-90) 6-bit groups in a row, from the 1st, 7th or 12th on, are 52 or more and the others below 52, or in which only every second, third or fourth group is below 52
//gosym:rand
//gosym:cpu 100 600
func C34_Unlucky() {
	vsym.SymbolicClock()
	if k := vsym.Choose("regular", 4); k > 0 {
		models.RandPattern = func(g int) bool { return g%(k+1) != 0 }
	} else {
		max := 45
		if vsym.Thorough() {
			max = 90
		}
		first := []int{0, 6, 11}[vsym.Choose("first", 3)]
		n := vsym.Choose("bad", max+1)
		models.RandPattern = func(g int) bool { return g >= first && g < first+n }
	}
	peerId()
}

func same(a, b []byte) bool { return string(a) == string(b) }

// C35_Segment: splitting data.
//
//gosym:bounds data of 0-7 (thorough 0-12) arbitrary bytes and every positive 64-bit segment size; also 2^20-1, 2^20 and 2^20+1 bytes with sizes 2^18, 2^20-1, 2^20 and 2^62
//gosym:cover ok
func C35_Segment() {
	max := 7
	if vsym.Thorough() {
		max = 12
	}
	var data []byte
	var size int64
	if k := vsym.Choose("len", max+4); k <= max {
		data = vsym.Bytes("data", k)
		size = vsym.Int64("size")
		vsym.Assume(size > 0)
	} else {
		data = make([]byte, 1<<20-2+k-max)
		for i := 0; i < len(data); i += 1000 {
			data[i] = byte(i / 1000)
		}
		data[0], data[len(data)-1] = vsym.Byte("first"), vsym.Byte("last")
		size = []int64{1 << 18, 1<<20 - 1, 1 << 20, 1 << 62}[vsym.Choose("size", 4)]
	}
	orig := append([]byte(nil), data...)
	segs := utils.SegmentData(data, size)
	off := 0
	for i, s := range segs {
		vsym.Assert(len(s) > 0, "a segment is empty")
		vsym.Assert(off+len(s) <= len(data), "segments are longer than the data")
		if i < len(segs)-1 {
			vsym.Assert(int64(len(s)) == size, "a segment before the last has another size")
		} else {
			vsym.Assert(int64(len(s)) <= size, "the last segment is too long")
		}
		vsym.Assert(same(s, orig[off:off+len(s)]), "the segments are not the data")
		off += len(s)
	}
	vsym.Assert(off == len(data), "the segments are not all of the data")
	vsym.Assert(same(data, orig), "splitting changes the data")
	vsym.Cover("ok")
}

// C35_Hash: hashing slices.
//
//gosym:bounds 0-4 slices of 0-3 arbitrary bytes
func C35_Hash() {
	n := vsym.Choose("slices", 5)
	var ps [][]byte
	want := ""
	for i := 0; i < n; i++ {
		p := make([]byte, vsym.Choose("len", 4))
		for j := range p {
			p[j] = byte(i*4 + j)
		}
		if len(p) > 0 && i < 2 {
			p[0] = vsym.Byte("data")
		}
		ps = append(ps, p)
		want += string(vsym.Digest(p))
		vsym.Assert(utils.SHA1(p) == string(vsym.Digest(p)), "a hash is not the SHA-1")
	}
	vsym.Assert(utils.HashSlices(ps) == want, "the hash of slices is not the concatenation of their hashes")
}

// C35_RemoveSwap: removing one element.
//
//gosym:bounds slices of 1-6 arbitrary integers or strings, every index
func C35_RemoveSwap() {
	n := 1 + vsym.Choose("len", 6)
	k := vsym.Choose("index", n)
	var a []int64
	var b []string
	for i := 0; i < n; i++ {
		a = append(a, vsym.Int64("int"))
		b = append(b, vsym.String("string", i%3))
	}
	a0 := append([]int64(nil), a...)
	b0 := append([]string(nil), b...)
	ra := utils.RemoveSwap(a, int64(k))
	rb := utils.RemoveSwap(b, int64(k))
	vsym.Assert(len(ra) == n-1 && len(rb) == n-1, "removing an element does not remove one")
	// the others are all there: the last one takes the place of the removed
	for i := 0; i < n-1; i++ {
		if i == k {
			vsym.Assert(ra[i] == a0[n-1] && rb[i] == b0[n-1], "the last element is lost")
		} else {
			vsym.Assert(ra[i] == a0[i] && rb[i] == b0[i], "an element that was not removed is lost")
		}
	}
}

// C37_Bytes: every byte count.
//
//gosym:bounds every count from 0 to 2^63-1
//gosym:cover B KiB MiB GiB TiB PiB EiB
//gosym:cpu 200 2000
func C37_Bytes() {
	n := vsym.Int64("bytes")
	vsym.Assume(n >= 0)
	v, u := utils.Bytes4Humans(n)
	units := []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}
	mul := int64(1)
	k := 0
	for k < len(units) && units[k] != u {
		mul *= 1024
		k++
	}
	vsym.Assert(k < len(units), "the unit is none of B to EiB")
	f := float64(n)
	got := v * float64(mul)
	if got != f {
		// up to rounding
		d := got - f
		vsym.Assert(d <= f/(1<<50) && -d <= f/(1<<50), "the number times its unit is not the count")
	}
	vsym.Assert(v < 1024, "the number is 1024 or more")
	vsym.Assert(v >= 1 || k == 0, "the number is below 1 and the unit is not B")
	vsym.Cover(u)
}
