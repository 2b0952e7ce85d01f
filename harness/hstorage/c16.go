package hstorage

import (
	"os"
	"path/filepath"

	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/utils"
	"gotor/zzverif/vsym"
)

func prepared(p string, old []byte, want int64) {
	b, err := os.ReadFile(p)
	vsym.Assert(err == nil, "a prepared file is missing")
	vsym.Assert(int64(len(b)) == want, "a prepared file does not have the wanted length")
	keep := int64(len(old))
	if keep > want {
		keep = want
	}
	vsym.Assert(same(b[:keep], old[:keep]), "preparing a file loses existing bytes")
	for _, x := range b[keep:] {
		vsym.Assert(x == 0, "missing bytes are not zero")
	}
}

func existing(p string, old []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, old, 0600); err != nil {
		panic(err)
	}
}

// C16_Small: every small existing and wanted size.
//
//gosym:bounds files that are missing (with 0-3 missing directories) or have 0-5 arbitrary bytes, wanted lengths 0-6; the returned file readable and writable
//gosym:cover missing grown cut same
func C16_Small() {
	depth := vsym.Choose("depth", 4)
	p := vsym.Dir() + []string{"/f", "/d/f", "/d/e/f", "/d/e/g/f"}[depth]
	want := int64(vsym.Choose("want", 7))
	k := vsym.Choose("existing", 7) - 1
	var old []byte
	if k >= 0 {
		old = vsym.Bytes("old", k)
		existing(p, old)
	}
	f, err := utils.OCAT(p, want)
	vsym.Assert(err == nil, "preparing a file fails")
	prepared(p, old, want)
	if want > 0 {
		x := vsym.Byte("new")
		n, err := f.WriteAt([]byte{x}, want-1)
		vsym.Assert(n == 1 && err == nil, "a prepared file is not writable")
		b := make([]byte, want)
		n, err = f.ReadAt(b, 0)
		vsym.Assert(int64(n) == want && err == nil && b[want-1] == x, "a prepared file is not readable")
	}
	f.Close()
	switch {
	case k < 0:
		vsym.Cover("missing")
	case int64(k) < want:
		vsym.Cover("grown")
	case int64(k) > want:
		vsym.Cover("cut")
	default:
		vsym.Cover("same")
	}
}

// C16_Large: sizes around the write size.
//
//gosym:bounds existing sizes absent, 0, 1, 2^20-1, 2^20, 2^20+1 and wanted lengths 0, 1, 2^20-1, 2^20, 2^20+1, 2^21-1, 2^21, 2^21+1, 3*2^20+5; first, last and one middle byte arbitrary
//gosym:cpu 100 1000
//gosym:native-ms 20000
func C16_Large() {
	const m = 1 << 20
	sizes := []int64{-1, 0, 1, m - 1, m, m + 1}
	wants := []int64{0, 1, m - 1, m, m + 1, 2*m - 1, 2 * m, 2*m + 1, 3*m + 5}
	p := vsym.Dir() + "/d/f"
	k := sizes[vsym.Choose("existing", len(sizes))]
	want := wants[vsym.Choose("want", len(wants))]
	var old []byte
	if k >= 0 {
		old = make([]byte, k)
		for i := int64(0); i < k; i += 4096 {
			old[i] = byte(1 + i>>12)
		}
		if k > 0 {
			old[0], old[k/2] = vsym.Byte("first"), vsym.Byte("middle")
			old[k-1] = vsym.Byte("last")
		}
		existing(p, old)
	}
	f, err := utils.OCAT(p, want)
	vsym.Assert(err == nil, "preparing a file fails")
	f.Close()
	b, err := os.ReadFile(p)
	vsym.Assert(err == nil && int64(len(b)) == want, "a prepared file does not have the wanted length")
	keep := k
	if keep > want {
		keep = want
	}
	if keep < 0 {
		keep = 0
	}
	vsym.Assert(same(b[:keep], old[:keep]), "preparing a file loses existing bytes")
	vsym.Assert(same(b[keep:], make([]byte, want-keep)), "missing bytes are not zero")
}

// C16_All: every file of a torrent.
//
//gosym:bounds 1-3 files of wanted lengths 0-3 in three directories, each missing, right, one byte longer or shorter
func C16_All() {
	n := 1 + vsym.Choose("files", 3)
	dir := vsym.Dir()
	var fes []filesd.EntryBase
	var paths []string
	var olds [][]byte
	var wants []int64
	total := int64(0)
	for i := 0; i < n; i++ {
		p := dir + []string{"/t/x", "/t/d/y", "/t/d/e/z"}[i]
		want := []int64{2, 0, 3}[(i+vsym.Choose("shift", 2))%3]
		var old []byte
		k := int64(vsym.Choose("existing", 4)) - 2
		if k > -2 && want+k >= 0 {
			old = vsym.Bytes("old", int(want+k))
			existing(p, old)
		}
		fe := filesd.MakeFileEntry([]string{"x", "d/y", "d/e/z"}[i], want)
		fe.SetLocalPath(p)
		fes = append(fes, fe)
		paths = append(paths, p)
		olds = append(olds, old)
		wants = append(wants, want)
		total += want
	}
	ti, err := info.NewTorInfo("t", 8, string(make([]byte, 20*((total+7)/8))), fes)
	vsym.Assert(err == nil, "a consistent torrent is refused")
	fio := fileio.NewFileIO(ti)
	vsym.Assert(fio.OCATAll(ti.Files()) == nil, "preparing files fails")
	for i := range paths {
		prepared(paths[i], olds[i], wants[i])
	}
	vsym.Assert(fio.CloseAll() == nil, "closing files fails")
}

// sparse makes a file of n bytes that is zero but for the given places.
func sparse(p string, n int64, at map[int64]byte) {
	existing(p, nil)
	if err := os.Truncate(p, n); err != nil {
		panic(err)
	}
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	for k, v := range at {
		if _, err := f.WriteAt([]byte{v}, k); err != nil {
			panic(err)
		}
	}
	f.Close()
}

// C16_Far: sizes beyond 32 bits.
//
//gosym:bounds existing sizes of 2^31-1, 2^31+1, 2^32-1, 2^32, 2^32+7 and 5*2^30 bytes, wanted lengths 0 to 3 more or less, 2^32 less, or 0-3; first byte and last two bytes arbitrary
//gosym:cover grown cut
func C16_Far() {
	sizes := []int64{1<<31 - 1, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 7, 5 << 30}
	k := sizes[vsym.Choose("existing", len(sizes))]
	d := int64(vsym.Choose("difference", 7)) - 3
	want := k + d
	switch vsym.Choose("base", 3) {
	case 1:
		want -= 1 << 32
		vsym.Assume(want >= 0)
	case 2:
		vsym.Assume(d >= 0)
		want = d
	}
	p := vsym.Dir() + "/f"
	a, b, c := vsym.Byte("first"), vsym.Byte("last"), vsym.Byte("last")
	sparse(p, k, map[int64]byte{0: a, k - 2: b, k - 1: c})
	f, err := utils.OCAT(p, want)
	vsym.Assert(err == nil, "preparing a file fails")
	st, err := f.Stat()
	vsym.Assert(err == nil && st.Size() == want, "a prepared file does not have the wanted length")
	at := func(i int64, x byte, what string) {
		if i >= want {
			return
		}
		if i >= k {
			x = 0
		}
		var buf [1]byte
		n, err := f.ReadAt(buf[:], i)
		vsym.Assert(n == 1 && err == nil && buf[0] == x, what)
	}
	at(0, a, "preparing a file loses existing bytes")
	at(1, 0, "preparing a file changes existing bytes")
	at(k-3, 0, "preparing a file changes existing bytes")
	at(k-2, b, "preparing a file loses existing bytes")
	at(k-1, c, "preparing a file loses existing bytes")
	for i := k; i < want; i++ {
		at(i, 0, "missing bytes are not zero")
	}
	f.Close()
	if want > k {
		vsym.Cover("grown")
	} else if want < k {
		vsym.Cover("cut")
	}
}
