package hp2p

import (
	"gotor/p2p"
	"gotor/zzverif/vsym"
)

// C05_Huge: blocks far larger than usual.
//
//gosym:bounds piece messages with blocks of 2^17, 2^18+1, 2^20 or 2^21+3 bytes, zeros but for arbitrary bytes at the start, the end and in the middle; bitfields of 2^17 or 2^18+1 bytes with an arbitrary last byte
//gosym:cpu 100 600
func C05_Huge() {
	k := vsym.Choose("size", 4)
	if vsym.Choose("bitfield", 2) == 1 {
		n := []int{1 << 17, 1<<18 + 1}[k%2]
		raw := make([]byte, n+5)
		raw[n+4] = vsym.Byte("last")
		m, err := p2p.DecodeMsgBitfield(cat(be32(uint32(n+1)), []byte{5}, raw[5:]), uint32(n+1))
		vsym.Assert(err == nil, "a bitfield message is refused")
		e := m.Encode()
		vsym.Assert(len(e) == n+5 && eq(e[:5], cat(be32(uint32(n+1)), []byte{5})) && e[n+4] == raw[n+4], "a bitfield message is encoded in another way")
		return
	}
	n := []int{1 << 17, 1<<18 + 1, 1 << 20, 1<<21 + 3}[k]
	block := make([]byte, n)
	block[0], block[n/2], block[n-1] = vsym.Byte("first"), vsym.Byte("middle"), vsym.Byte("last")
	e := p2p.NewMsgPiece(1, 2, block).Encode()
	vsym.Assert(len(e) == n+13 && eq(e[:13], cat(be32(uint32(n+9)), []byte{7}, be32(1), be32(2))), "a piece message is encoded in another way")
	vsym.Assert(e[13] == block[0] && e[13+n/2] == block[n/2] && e[12+n] == block[n-1], "a piece message does not carry its block")
}

// C06_Huge: messages far larger than usual.
//
//gosym:bounds bitfield (the first two sizes only), piece and unknown messages of 2^17, 2^18+1, 2^20 or 2^21+3 payload bytes, complete, or one byte short; arbitrary index, begin and last byte
//gosym:cover refused bitfield piece
//gosym:cpu 100 600
func C06_Huge() {
	n := []int{1 << 17, 1<<18 + 1, 1 << 20, 1<<21 + 3}[vsym.Choose("size", 4)]
	b := make([]byte, n+5)
	copy(b, be32(uint32(n+1)))
	b[4] = []byte{5, 7, 9}[vsym.Choose("type", 3)]
	if b[4] == 5 && n >= 1<<20 {
		vsym.Stop()
	}
	copy(b[5:], vsym.Bytes("head", 8))
	b[n+4] = vsym.Byte("last")
	decodeOne(b[:n+5-vsym.Choose("short", 2)])
}
