// Package hstorage: piece storage on disk (C15-C18, C39).
package hstorage

import (
	"bytes"
	"os"
	"strconv"

	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

type layout struct {
	lens []int64
	pl   int64
}

func (l layout) total() int64 {
	var t int64
	for _, n := range l.lens {
		t += n
	}
	return t
}

func (l layout) pieces() int64 { return (l.total() + l.pl - 1) / l.pl }

// span is where a piece lies in the concatenation of the files.
func (l layout) span(i int64) (int64, int64) {
	a, b := i*l.pl, (i+1)*l.pl
	if t := l.total(); b > t {
		b = t
	}
	return a, b
}

// store is a torrent's files on disk.
type store struct {
	layout
	dir   string
	paths []string
	ti    *info.TorInfo
	fio   *fileio.FileIO
}

func newStore(l layout, hashes string) *store {
	s := &store{layout: l, dir: vsym.Dir() + "/w"}
	var fes []filesd.EntryBase
	for i, n := range l.lens {
		p := s.dir + "/" + []string{"a", "sub/b", "sub/sub/c", "d"}[i%4]
		if i > 3 {
			p += strconv.Itoa(i)
		}
		fe := filesd.MakeFileEntry(p, n)
		s.paths = append(s.paths, p)
		fes = append(fes, fe)
	}
	ti, err := info.NewTorInfo("t", l.pl, hashes, fes)
	vsym.Assert(err == nil, "a consistent torrent is refused")
	s.ti = ti
	s.fio = fileio.NewFileIO(ti)
	return s
}

// open prepares the files and puts the given contents into them.
func (s *store) open(content []byte) {
	vsym.Assert(s.fio.OCATAll(s.ti.Files()) == nil, "preparing files fails")
	if content != nil {
		s.put(content)
	}
}

func (s *store) put(content []byte) {
	off := int64(0)
	for i, n := range s.lens {
		f, err := os.OpenFile(s.paths[i], os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		if _, err := f.WriteAt(content[off:off+n], 0); err != nil {
			panic(err)
		}
		f.Close()
		off += n
	}
}

// content is the concatenation of the files; every file must have its length.
func (s *store) content() []byte {
	var all []byte
	for i, n := range s.lens {
		b, err := os.ReadFile(s.paths[i])
		vsym.Assert(err == nil, "a file is gone")
		vsym.Assert(int64(len(b)) == n, "a file has another length than the torrent says")
		all = append(all, b...)
	}
	return all
}

func digests(l layout, data []byte) string {
	var h []byte
	for i := int64(0); i < l.pieces(); i++ {
		a, b := l.span(i)
		h = append(h, vsym.Digest(data[a:b])...)
	}
	return string(h)
}

// mixed is n bytes that are all different, with arbitrary ones at the given
// places.
func mixed(name string, n int64, first byte, at ...int64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = first + byte(i)
	}
	for _, a := range at {
		if a >= 0 && a < n {
			b[a] = vsym.Byte(name)
		}
	}
	return b
}

var layouts = []layout{
	{[]int64{5}, 2},
	{[]int64{3, 1, 4}, 3},
	{[]int64{2, 0, 3}, 2},
	{[]int64{1, 1, 1, 2}, 4},
	{[]int64{4, 4}, 4},
	{[]int64{0, 5}, 8},
	{[]int64{7}, 1 << 20},
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func same(a, b []byte) bool { return bytes.Equal(a, b) }
