package hself

import (
	"errors"
	"fmt"
	"gotor/zzverif/vsym"
)

type strer struct{ s string }

func (s strer) String() string { return s.s }

// S01_Fmt compares the modelled fmt verbs with the real ones.
func S01_Fmt() {
	s := vsym.String("s", 3)
	n := vsym.Int16("n")
	b := vsym.Byte("b")
	vsym.Assume(n < 300 && n > -300)
	k := vsym.Choose("k", 20)
	var r string
	switch k {
	case 0:
		r = fmt.Sprintf("%5s|%-5s|%.2s|%05s", s, s, s, s)
	case 1:
		r = fmt.Sprintf("%5d|%-5d|%05d|%+d|% d", n, n, n, n, n)
	case 2:
		r = fmt.Sprintf("%02x|%X|%x", b, b, n)
	case 3:
		r = fmt.Sprintf("%08b|%o|%3o", b, b, b)
	case 4:
		r = fmt.Sprintf("%*d|%-*d|%.*s", 6, n, 4, n, 1, s)
	case 5:
		r = fmt.Sprint("a", n, b, "c", s, true, false, n)
	case 6:
		r = fmt.Sprintln("a", n, b)
	case 7:
		r = fmt.Sprintf("%v %5v %s", []byte{1, b}, []int16{n, 3}, []string{s, "a"})
	case 8:
		r = fmt.Sprintf("%s|%8s|%.2v|%v", strer{s}, strer{s}, strer{s}, errors.New(s))
	case 9:
		r = fmt.Sprintf("%x|%X|%8x", s, s, s)
	case 10:
		r = fmt.Sprintf("%c|%3c", rune(b), rune(b))
	case 11:
		r = fmt.Sprintf("%[2]d %[1]s %d", s, n, b)
	case 12:
		r = fmt.Sprintf("%v %v %t", struct {
			A int16
			B string
		}{n, s}, nil, n > 3)
	case 13:
		r = fmt.Sprintf("%T %5T|%q|%q", n, s, "a\n", 'x')
	case 14:
		r = fmt.Sprintf("%6.2f|%v|%.0f|%e", 3.14159, 2.5, 7.5, 1e9)
	case 15:
		r = fmt.Sprintf("%s|%10s|%x", []byte(s), []byte(s), []byte(s))
	case 16:
		r = fmt.Sprintf("%d%% %v", b, [2]byte{b, 1})
	case 17:
		r = fmt.Sprintf("%05d|%-05d|%x|%#x|%U", -7, 7, -255, 255, 0x1F600)
	}
	vsym.ObsBytes("r", []byte(r))
}
