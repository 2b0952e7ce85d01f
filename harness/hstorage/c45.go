package hstorage

import (
	"errors"
	"os"

	"gotor/torrent/fileio"
	"gotor/zzverif/vsym"
)

// shelf is a store whose files move and close.
type shelf struct {
	*store
	data  []byte // what the pieces should hold
	disk  []byte // what they do hold
	open  []bool
	at    []string // where the files are
	moves int
}

// files are those that a piece lies in.
func (s *shelf) files(i int64) (fs []int) {
	a, b := s.span(i)
	off := int64(0)
	for k, n := range s.lens {
		if off < b && off+n > a {
			fs = append(fs, k)
		}
		off += n
	}
	return fs
}

func (s *shelf) usable(i int64) bool {
	for _, k := range s.files(i) {
		if !s.open[k] {
			return false
		}
	}
	return true
}

func isPathError(e error) bool {
	var pe *fileio.PathError
	return errors.As(e, &pe)
}

func (s *shelf) step() {
	n := len(s.lens)
	switch vsym.Choose("op", 7) {
	case 0: // move
		k := vsym.Choose("file", n)
		s.moves++
		to := s.dir + "/moved" + string([]byte{byte('0' + s.moves)})
		e := s.fio.Move(s.paths[k], to)
		if s.at[k] != s.paths[k] {
			// It is not there any more
			vsym.Assert(e != nil, "a file is moved that is not there")
			return
		}
		vsym.Assert(e == nil, "an open file cannot be moved")
		s.at[k] = to
		vsym.Cover("moved")
	case 1: // move where it cannot go
		k := vsym.Choose("file", n)
		e := s.fio.Move(s.paths[k], s.dir+"/none/x")
		vsym.Assert(e != nil, "a move into a directory that does not exist succeeds")
	case 2: // paths that were never opened
		p := s.dir + "/" + vsym.String("path", 1)
		if vsym.Choose("which", 2) == 0 {
			vsym.Assume(p != s.paths[0] && p != s.paths[1])
			vsym.Assert(isPathError(s.fio.Move(p, s.dir+"/x")), "a path that is not open can be moved")
		} else {
			vsym.Assume(p != s.paths[0] && p != s.paths[1])
			vsym.Assert(isPathError(s.fio.Close(p)), "a path that is not open can be closed")
		}
	case 3:
		k := vsym.Choose("file", n)
		e := s.fio.Close(s.paths[k])
		vsym.Assert((e == nil) == s.open[k], "closing does not succeed exactly for an open file")
		s.open[k] = false
		vsym.Cover("closed")
	case 4:
		all := true
		for _, o := range s.open {
			all = all && o
		}
		e := s.fio.CloseAll()
		vsym.Assert((e == nil) == all, "closing all does not succeed exactly if all are open")
		for k := range s.open {
			s.open[k] = false
		}
		if !all {
			vsym.Cover("rest")
		}
	case 5:
		i := int64(vsym.Choose("piece", int(s.pieces())))
		a, b := s.span(i)
		if !s.usable(i) {
			e := errors.New("")
			if len(s.files(i)) == 1 {
				_, e = s.fio.WritePiece(i, s.data[a:b])
			}
			vsym.Assert(e != nil, "a piece is written to a closed file")
			return
		}
		m, e := s.fio.WritePiece(i, s.data[a:b])
		vsym.Assert(e == nil && m == b-a, "a piece cannot be written")
		copy(s.disk[a:b], s.data[a:b])
	case 6:
	}
}

// check compares everything with the model.
func (s *shelf) check() {
	buf := make([]byte, s.pl)
	for i := int64(0); i < s.pieces(); i++ {
		a, b := s.span(i)
		m, e := s.fio.ReadPiece(i, buf)
		if s.usable(i) {
			vsym.Assert(e == nil && m == b-a && same(buf[:m], s.disk[a:b]), "a piece of open files does not read as its bytes")
		} else {
			vsym.Assert(e != nil, "a piece is read from a closed file")
		}
	}
	off := int64(0)
	for k, n := range s.lens {
		b, e := os.ReadFile(s.at[k])
		vsym.Assert(e == nil && same(b, s.disk[off:off+n]), "a file does not have its contents where it should be")
		if s.at[k] != s.paths[k] {
			_, e := os.Stat(s.paths[k])
			vsym.Assert(os.IsNotExist(e), "a moved file is still at its old place")
		}
		off += n
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a lock stays held")
}

func newShelf(l layout) *shelf {
	data := mixed("data", l.total(), 1, 0, l.total()-1)
	s := &shelf{store: newStore(l, digests(l, data)), data: data, disk: make([]byte, l.total())}
	s.store.open(s.disk)
	for _, p := range s.paths {
		s.at = append(s.at, p)
		s.open = append(s.open, true)
	}
	return s
}

// C45_History: any sequence of operations.
//
//gosym:bounds two layouts of 2-3 files and 2-3 pieces with arbitrary first and last data bytes; every sequence of 3 (thorough 4) of: moving any file, moving it where it cannot go, moving or closing a path that was never opened (any one-byte name), closing any file, closing all files, writing any piece
//gosym:cover moved closed rest
//gosym:cpu 300 3000
func C45_History() {
	l := []layout{{[]int64{3, 4}, 4}, {[]int64{2, 2, 1}, 2}}[vsym.Choose("layout", 2)]
	s := newShelf(l)
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		s.step()
	}
	s.check()
}

// C45_Concurrent: moving and closing while a piece is read and written.
//
//gosym:bounds one of: moving a file, closing it, closing all, while a piece over both files is read and another one is written; every schedule with at most 1 (thorough 2) switches other than at a block
//gosym:race
//gosym:stress 50
//gosym:cpu 300 3000
func C45_Concurrent() {
	s := newShelf(layout{[]int64{3, 4}, 4})
	how := vsym.Choose("how", 3)
	bound := 1
	if vsym.Thorough() {
		bound = 2
	}
	vsym.Races()
	vsym.Explore(bound)
	done := make(chan bool, 3)
	var re, we, me error
	var n int64
	buf := make([]byte, 4)
	go func() {
		n, re = s.fio.ReadPiece(0, buf)
		done <- true
	}()
	go func() {
		_, we = s.fio.WritePiece(1, s.data[4:])
		done <- true
	}()
	go func() {
		switch how {
		case 0:
			me = s.fio.Move(s.paths[1], s.dir+"/moved")
		case 1:
			me = s.fio.Close(s.paths[1])
		case 2:
			me = s.fio.CloseAll()
		}
		done <- true
	}()
	<-done
	<-done
	<-done
	vsym.Sequential()
	vsym.Assert(me == nil, "moving or closing an open file fails")
	if re == nil {
		vsym.Assert(n == 4 && same(buf, make([]byte, 4)), "a piece reads as something else than its bytes")
	}
	if we == nil {
		copy(s.disk[4:], s.data[4:])
	}
	switch how {
	case 0:
		vsym.Assert(re == nil && we == nil, "moving a file disturbs reads and writes")
		s.at[1] = s.dir + "/moved"
	case 1:
		s.open[1] = false
	case 2:
		s.open[0], s.open[1] = false, false
	}
	s.check()
}
