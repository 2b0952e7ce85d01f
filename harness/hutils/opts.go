// Package hutils: options, ids, helpers and containers (C33-C37).
package hutils

import (
	"flag"
	"io"
	"math"
	"os"

	"gotor/utils"
	"gotor/zzverif/vsym"
)

// parse reads the options as main does; ok is false when they are rejected.
func parse(args ...string) (o *utils.Opts, ok bool) {
	os.Args = append([]string{"gotor"}, args...)
	flag.CommandLine = flag.NewFlagSet("gotor", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	flag.CommandLine.Usage = func() {}
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return utils.GetOpts(), true
}

// rate is what a rate option means, independently of the implementation.
func rate(s string) (int64, bool) {
	neg := len(s) > 0 && s[0] == '-'
	if neg {
		s = s[1:]
	}
	unit := uint64(1)
	if n := len(s); n > 0 {
		digit := true
		switch s[n-1] {
		case 'B', 'b':
			digit = false
		case 'K', 'k':
			unit, digit = 1<<10, false
		case 'M', 'm':
			unit, digit = 1<<20, false
		case 'G', 'g':
			unit, digit = 1<<30, false
		}
		if !digit {
			s = s[:n-1]
		}
	}
	if s == "" {
		return 0, false
	}
	var m uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if m > (1<<63-d)/10 {
			return 0, false // above 2^63
		}
		m = 10*m + d
	}
	lim := uint64(math.MaxInt64)
	if neg {
		lim++
	}
	if m > lim/unit {
		return 0, false
	}
	v := int64(m * unit)
	if neg {
		v = -v
	}
	return v, true
}

func checkRate(s string, up bool) {
	var o *utils.Opts
	var ok bool
	if up {
		o, ok = parse("-i", "x", "-w", "w", "-u", s)
	} else {
		o, ok = parse("-i", "x", "-w", "w", "-d", s)
	}
	want, valid := rate(s)
	if !valid {
		vsym.Assert(!ok, "a malformed rate is accepted")
		vsym.Cover("rejected")
		return
	}
	vsym.Assert(ok, "a well-formed rate is rejected")
	got, other := o.UpLimit(), o.DnLimit()
	if !up {
		got, other = other, got
	}
	vsym.ObsInt("rate", got)
	vsym.Assert(got == want, "a rate option sets another number of bytes")
	vsym.Assert(other == -1, "a rate option changes the other rate")
	vsym.Assert(o.Input() == "x" && o.WorkingDir() == "w" && o.Port() == 60666 && o.Cmd() == utils.StartSwarm, "a rate option changes another option")
	vsym.Cover("set")
}

// C33_Rate: every short rate string.
//
//gosym:bounds upload rates of 0-3 arbitrary bytes and of 4 arbitrary ASCII bytes, download rates of 0-2 arbitrary bytes and of 3 arbitrary ASCII bytes (thorough: both 0-3 and 4-5)
//gosym:cover set rejected
//gosym:cpu 150 2000
func C33_Rate() {
	max := 4
	if vsym.Thorough() {
		max = 5
	}
	up := vsym.Choose("up", 2) == 0
	if !up && !vsym.Thorough() {
		max = 3
	}
	n := vsym.Choose("len", max+1)
	b := vsym.Bytes("rate", n)
	if n > 3 || n > 2 && !up && !vsym.Thorough() {
		for _, c := range b {
			vsym.Assume(c < 128)
		}
	}
	checkRate(string(b), up)
}

// C33_Large: values around what fits.
//
//gosym:bounds signed rates of 9-21 digits around 2^63 divided by each unit, any last digit, with every unit letter in either case, none or an arbitrary byte
//gosym:cover set rejected
func C33_Large() {
	pre := []string{
		"922337203685477580", "-922337203685477580", "0000922337203685477580", "9223372036854775808", "1844674407370955161", "-1844674407370955162", "9999999999999999999",
		"900719925474099", "-900719925474099", "879609302220", "-879609302220", "858993459", "-858993459", "1717986918", "-1717986918", "3602879701896396", "1801439850948198", "27487790694", "9007199254740992", "8589934592", "17179869184",
	}
	s := pre[vsym.Choose("prefix", len(pre))]
	d := vsym.Byte("digit")
	vsym.Assume(d >= '0' && d <= '9')
	s += string([]byte{d})
	u := []string{"", "B", "b", "K", "k", "M", "m", "G", "g"}
	if k := vsym.Choose("unit", len(u)+1); k < len(u) {
		s += u[k]
	} else {
		s += string([]byte{vsym.Byte("unit byte")})
	}
	checkRate(s, vsym.Choose("up", 2) == 0)
}

// C33_Port: every port.
//
//gosym:bounds ports of 1-6 arbitrary digits, and 11 malformed ones
//gosym:cover set rejected
func C33_Port() {
	bad := []string{"", "-1", "x", "1x", "65536x", " 1", "4294967297", "18446744073709551617", "1.5", "+-3", "99999999999999999999999"}
	k := vsym.Choose("kind", len(bad)+6)
	if k < len(bad) {
		_, ok := parse("-i", "x", "-p", bad[k])
		vsym.Assert(!ok, "a malformed port is accepted")
		vsym.Cover("rejected")
		return
	}
	n := k - len(bad) + 1
	b := vsym.Bytes("port", n)
	v := 0
	for i, c := range b {
		vsym.Assume(c >= '0' && c <= '9')
		if i == 0 && n > 1 {
			vsym.Assume(c != '0')
		}
		v = 10*v + int(c-'0')
	}
	o, ok := parse("-i", "x", "-p", string(b))
	if v > 65535 {
		vsym.Assert(!ok, "a port above 65535 is accepted")
		vsym.Cover("rejected")
		return
	}
	vsym.Assert(ok, "a port is rejected")
	vsym.Assert(int(o.Port()) == v, "another port is set")
	vsym.Cover("set")
}

// C33_Input: the input is required.
//
//gosym:bounds no input, an empty one, and inputs of 1-3 arbitrary bytes; either command or an unknown one
//gosym:cover set rejected
func C33_Input() {
	switch vsym.Choose("kind", 3) {
	case 0:
		_, ok := parse("-w", "w")
		vsym.Assert(!ok, "a missing input is accepted")
		vsym.Cover("rejected")
	case 1:
		_, ok := parse("-i", "", "-w", "w")
		vsym.Assert(!ok, "an empty input is accepted")
		vsym.Cover("rejected")
	case 2:
		in := vsym.String("input", 1+vsym.Choose("len", 3))
		o, ok := parse("-i", in, "-w", "w")
		vsym.Assert(ok && o.Input() == in && o.UpLimit() == -1 && o.DnLimit() == -1, "an input is rejected or changed, or a default rate is wrong")
		vsym.Cover("set")
	}
}
