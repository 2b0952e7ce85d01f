// Package hbf: bitfields (C08, C09).
package hbf

import (
	"gotor/bf"
	"gotor/zzverif/vsym"
)

// The model holds one byte, 0 or 1, per index.
func bit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// agree compares every observable of b with the model.
func agree(b *bf.Bitfield, m []byte) {
	n := len(m)
	vsym.Assert(b.Nbits() == int64(n) && b.Nbytes() == int64((n+7)/8), "the size of a bitfield is wrong")
	set := int64(0)
	d := b.Data()
	vsym.Assert(len(d) == (n+7)/8, "the exported bytes have another size")
	var badRead, badBit byte
	for i := range m {
		badRead |= bit(b.Get(int64(i))) ^ m[i]
		badBit |= d[i/8]>>(7-uint(i%8))&1 ^ m[i]
		set += int64(m[i])
	}
	vsym.Assert(badRead == 0, "an index does not read as last written")
	vsym.Assert(badBit == 0, "a bit is exported at another position")
	vsym.Assert(b.Nset() == set, "the set count is not the number of set bits")
	vsym.Assert(b.Complete() == (b.Nset() == int64(n)), "complete does not mean that all bits are set")
}

func step(b *bf.Bitfield, m []byte) {
	switch vsym.Choose("op", 2) {
	case 0:
		v := vsym.Bool("val")
		idx := vsym.Choose("idx", len(m))
		b.Set(int64(idx), v)
		m[idx] = bit(v)
		vsym.Cover("set")
	case 1:
		b.Fill()
		for i := range m {
			m[i] = 1
		}
		vsym.Cover("fill")
	}
}

// C08_New: histories from a fresh bitfield.
//
//gosym:bounds bitfields of 1, 2, 7, 8, 9, 15, 16, 17 bits; all sequences of set, clear and fill operations with any indices, up to 3 for at most 9 (thorough 17) bits, up to 2 beyond
//gosym:cover set fill
//gosym:cpu 120 1500
func C08_New() {
	sizes := []int{1, 2, 7, 8, 9, 15, 16, 17}
	n := sizes[vsym.Choose("n", len(sizes))]
	ops := 2
	if n <= 9 || vsym.Thorough() {
		ops = 3
	}
	b := bf.NewBitfield(int64(n))
	m := make([]byte, n)
	agree(b, m)
	for k := 0; k < ops; k++ {
		step(b, m)
		agree(b, m)
	}
}

// C08_Any: one or two operations from arbitrary contents, which is every
// history as far as the contents go.
//
//gosym:bounds bitfields of 1, 5, 8, 9, 16, 19 bits with arbitrary contents, then up to 2 arbitrary operations
//gosym:cover set fill
//gosym:cpu 120 1500
func C08_Any() {
	sizes := []int{1, 5, 8, 9, 16, 19}
	n := sizes[vsym.Choose("n", len(sizes))]
	buf := vsym.Bytes("b", 5+(n+7)/8)
	b, err := bf.FromBytes(buf, int64(n))
	vsym.Assert(err == nil, "a bitfield of the right size is refused")
	m := make([]byte, n)
	for i := range m {
		m[i] = buf[5+i/8] >> uint(7-i%8) & 1
	}
	ops := 1 + vsym.Choose("ops", 2)
	for k := 0; k < ops; k++ {
		step(b, m)
		agree(b, m)
	}
}

// C08_Large: isolation of indices in large bitfields.
//
//gosym:bounds bitfields of 64, 255, 1000, 4096, 100001, 2^20+3 bits (thorough also 2^24+3); writes at two arbitrary indices of the first or last 20, reads at those and a third; fill and clear
//gosym:cover done fill
//gosym:cpu 80 800
func C08_Large() {
	sizes := []int64{64, 255, 1000, 4096, 100001, 1<<20 + 3}
	if vsym.Thorough() {
		sizes = append(sizes, 1<<24+3)
	}
	n := sizes[vsym.Choose("n", len(sizes))]
	choose := func(name string) int64 {
		if vsym.Choose(name+" end", 2) == 0 {
			return vsym.Range(name, 0, 19)
		}
		return vsym.Range(name, n-20, n-1)
	}
	b := bf.NewBitfield(n)
	i, j, k := choose("i"), choose("j"), choose("k")
	vsym.Assume(i != j && k != i && k != j)
	if vsym.Choose("fill", 2) == 1 {
		b.Fill()
		vsym.Assert(b.Nset() == n && b.Complete(), "a filled bitfield is not complete")
		b.Set(i, false)
		vsym.Assert(b.Nset() == n-1 && !b.Complete(), "clearing one bit of a full bitfield does not change the count by one")
		b.Set(j, false)
		b.Set(j, false)
		vsym.Assert(!b.Get(i) && !b.Get(j) && b.Get(k) && b.Nset() == n-2, "clearing two bits has another effect")
		b.Set(i, true)
		vsym.Assert(b.Get(i) && !b.Get(j) && b.Get(k) && b.Nset() == n-1, "setting a cleared bit has another effect")
		vsym.Cover("fill")
	} else {
		b.Set(i, true)
		vsym.Assert(b.Get(i) && !b.Get(j) && !b.Get(k) && b.Nset() == 1, "setting one bit has another effect")
		b.Set(j, true)
		b.Set(j, true)
		vsym.Assert(b.Get(i) && b.Get(j) && !b.Get(k) && b.Nset() == 2, "setting two bits has another effect")
		b.Set(i, false)
		vsym.Assert(!b.Get(i) && b.Get(j) && !b.Get(k) && b.Nset() == 1, "clearing one bit has another effect")
	}
	vsym.Cover("done")
}

// C09_Import: every bit count against every short message.
//
//gosym:bounds messages of 0-9 bytes (thorough 0-11), arbitrary contents, every 64-bit bit count
//gosym:cover ok refused
//gosym:cpu 80 800
func C09_Import() {
	max := 10
	if vsym.Thorough() {
		max = 12
	}
	l := vsym.Choose("len", max)
	buf := vsym.Bytes("b", l)
	orig := append([]byte(nil), buf...)
	nbits := vsym.Int64("nbits")
	b, err := bf.FromBytes(buf, nbits)
	n := int64(l - 5)
	fits := n >= 1 && nbits > 8*(n-1) && nbits <= 8*n
	vsym.Assert((err == nil) == fits, "a bitfield is accepted with a bit count that does not fit, or refused with one that does")
	if !fits {
		vsym.Cover("refused")
		return
	}
	k := int(vsym.Concrete(nbits))
	m := make([]byte, k)
	for i := range m {
		m[i] = orig[5+i/8] >> uint(7-i%8) & 1
	}
	agree(b, m)
	vsym.Cover("ok")
}

// setNbits says whether the resize was accepted.
func setNbits(b *bf.Bitfield, n int64) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	b.SetNbits(n)
	return true
}

// C09_Resize: resizing an imported or a fresh bitfield to any bit count.
//
//gosym:bounds bitfields of 1-3 bytes (thorough 1-4) with arbitrary contents and every bit count that fits, resized to every 64-bit bit count
//gosym:cover ok refused
//gosym:cpu 80 800
func C09_Resize() {
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	l := 1 + vsym.Choose("bytes", max)
	from := int64(8*l - vsym.Choose("spare", 8))
	buf := vsym.Bytes("b", l+5)
	b, err := bf.FromBytes(buf, from)
	vsym.Assert(err == nil, "a bitfield of the right size is refused")
	to := vsym.Int64("to")
	ok := setNbits(b, to)
	fits := to > int64(8*(l-1)) && to <= int64(8*l)
	vsym.Assert(ok == fits, "a resize that would change the byte count is accepted, or one that would not is refused")
	k := int(from)
	if ok {
		k = int(vsym.Concrete(to))
		vsym.Cover("ok")
	} else {
		vsym.Cover("refused")
	}
	m := make([]byte, k)
	for i := range m {
		m[i] = buf[5+i/8] >> uint(7-i%8) & 1
	}
	agree(b, m)
}

// C09_Large: counts of large imported bitfields.
//
//gosym:bounds bitfields of 100 and 2048 (thorough 40000) bytes with two arbitrary bytes at either end and a fixed pattern between, 0-7 spare bits
//gosym:cover done
func C09_Large() {
	sizes := []int{100, 2048}
	if vsym.Thorough() {
		sizes = append(sizes, 40000)
	}
	l := sizes[vsym.Choose("bytes", len(sizes))]
	buf := make([]byte, l+5)
	for i := range buf {
		buf[i] = byte(i * 37)
	}
	copy(buf[5:], vsym.Bytes("head", 2))
	copy(buf[l+3:], vsym.Bytes("tail", 2))
	n := int64(8*l - vsym.Choose("spare", 8))
	b, err := bf.FromBytes(buf, n)
	vsym.Assert(err == nil, "a bitfield of the right size is refused")
	set := int64(0)
	for i := int64(0); i < n; i++ {
		v := buf[5+i/8] >> uint(7-i%8) & 1
		if i < 24 || i > n-24 || i%97 == 0 {
			vsym.Assert(bit(b.Get(i)) == v, "an index does not read the payload bit")
		}
		set += int64(v)
	}
	vsym.Assert(b.Nset() == set && b.Complete() == (set == n), "the set count is wrong")
	vsym.Cover("done")
}

// C09_Huge: counts of very large imported bitfields.
//
//gosym:bounds bitfields of 10000 bytes, all set but for an arbitrary byte in the middle and the last one, 0, 1 or 7 spare bits
//gosym:cpu 100 600
func C09_Huge() {
	const l = 10000
	buf := make([]byte, l+5)
	for i := range buf {
		buf[i] = 255
	}
	x, y := vsym.Byte("middle"), vsym.Byte("last")
	spare := []int{0, 1, 7}[vsym.Choose("spare", 3)]
	buf[5+l/2], buf[l+4] = x, y
	b, err := bf.FromBytes(buf, int64(8*l-spare))
	vsym.Assert(err == nil, "a bitfield of the right size is refused")
	set := int64(8 * (l - 2))
	for i := 0; i < 8; i++ {
		set += int64(x >> uint(i) & 1)
		if i >= spare {
			set += int64(y >> uint(i) & 1)
		}
	}
	vsym.Assert(b.Nset() == set && b.Complete() == (set == int64(8*l-spare)), "the set count is wrong")
}
