package hstorage

import (
	"os"

	"gotor/bf"
	"gotor/swarm"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/filesd"
	"gotor/utils"
	"gotor/zzverif/vsym"
)

// C17_Prepare: preparing files where it cannot be done.
//
//gosym:bounds one or two files with existing sizes absent, 0, 2 and wanted lengths 1-4, failing because a parent is a file, a directory is in the way, the name is empty or contains NUL, the device is full, or a file can hold only 0 to (wanted-1) bytes; any one file of 1-3
//gosym:loose
func C17_Prepare() {
	dir := vsym.Dir()
	n := 1 + vsym.Choose("files", 3)
	bad := vsym.Choose("which", n)
	paths := []string{dir + "/p/x", dir + "/p/q/y", dir + "/z"}[:n]
	want := int64(1 + vsym.Choose("want", 4))
	if bad > 0 {
		// room for the other files
		existing(paths[0], make([]byte, want))
	}
	limit := int64(-1)
	switch vsym.Choose("fault", 6) {
	case 0:
		existing(dir+"/file", []byte("x"))
		paths[bad] = dir + "/file/x"
	case 1:
		existing(paths[bad]+"/sub", nil)
	case 2:
		paths[bad] = ""
	case 3:
		paths[bad] = dir + "/a\x00b"
	case 4:
		if err := os.Symlink("/dev/full", dir+"/full"); err != nil {
			panic(err)
		}
		paths[bad] = dir + "/full"
	case 5:
		for i, p := range paths {
			if i != bad {
				existing(p, make([]byte, want))
			}
		}
		if k := vsym.Choose("existing", 3); k > 0 {
			old := int64(2 * (k - 1))
			vsym.Assume(old < want)
			existing(paths[bad], make([]byte, old))
		}
		limit = int64(vsym.Choose("limit", int(want)))
	}
	if n == 1 && vsym.Choose("direct", 2) == 1 {
		vsym.FileLimit(limit)
		f, err := utils.OCAT(paths[0], want)
		vsym.FileLimit(-1)
		vsym.Assert(err != nil && f == nil, "preparing a file succeeds although it failed")
		return
	}
	var fes []filesd.EntryBase
	for _, p := range paths {
		fes = append(fes, filesd.MakeFileEntry(p, want))
	}
	fl := filesd.MakeFileList(fes, 3)
	fio := fileio.NewFileIO(nil)
	vsym.FileLimit(limit)
	err := fio.OCATAll(fl)
	vsym.FileLimit(-1)
	vsym.Assert(err != nil, "preparing files succeeds although one failed")
}

// torrentOf loads a torrent with the store's layout from a file.
func torrentOf(l layout, hashes string, dir string) *torrent.Torrent {
	s := "d8:announce8:http://x4:infod"
	files := "5:filesl"
	for i, n := range l.lens {
		files += "d6:lengthi" + itoa(n) + "e4:pathl1:" + string([]byte{'a' + byte(i)}) + "ee"
	}
	s += files + "e4:name1:t12:piece lengthi" + itoa(l.pl) + "e6:pieces" + itoa(int64(len(hashes))) + ":" + hashes + "ee"
	existing(dir+"/t.torrent", []byte(s))
	tor, err := torrent.FromTorrentFile(dir+"/t.torrent", dir)
	vsym.Assert(err == nil, "a torrent file is refused")
	return tor
}

func itoa(n int64) string {
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}
	return itoa(n/10) + itoa(n%10)
}

// C17_Access: reading and writing pieces of files that fail.
//
//gosym:bounds four layouts of 1-4 files; any one file closed, truncated to any shorter length, never opened, or unable to hold its last bytes; every piece read and written, and validation of all pieces
//gosym:cover read write
//gosym:loose
//gosym:cpu 200 2000
func C17_Access() {
	l := layouts[vsym.Choose("layout", 4)]
	data := mixed("data", l.total(), 1, 0, l.total()-1)
	hs := digests(l, data)
	tor := torrentOf(l, hs, vsym.Dir())
	ti := tor.Info()
	fl := ti.Files()
	fio := fileio.NewFileIO(ti)
	bad := vsym.Choose("file", len(l.lens))
	vsym.Assume(l.lens[bad] > 0)
	fault := vsym.Choose("fault", 4)
	if fault != 2 {
		vsym.Assert(fio.OCATAll(fl) == nil, "preparing files fails")
	} else {
		for i := range l.lens {
			if i != bad {
				vsym.Assert(fio.OCAT(fl[i].LocalPath(), l.lens[i]) == nil, "preparing files fails")
			}
		}
	}
	path := fl[bad].LocalPath()
	cut := l.lens[bad]
	switch fault {
	case 0:
		vsym.Assert(fio.Close(path) == nil, "closing a file fails")
		cut = 0
	case 1, 3:
		cut = int64(vsym.Choose("cut", int(l.lens[bad])))
		if err := os.Truncate(path, cut); err != nil {
			panic(err)
		}
	case 2:
		cut = 0
	}
	// where the unusable bytes lie in the torrent
	start := int64(0)
	for i := 0; i < bad; i++ {
		start += l.lens[i]
	}
	hit := func(i int64) bool {
		a, b := l.span(i)
		return b > start+cut && a < start+l.lens[bad]
	}
	n := l.pieces()
	if fault == 3 {
		vsym.FileLimit(cut)
	}
	op := vsym.Choose("op", 3)
	i := int64(vsym.Choose("piece", int(n)))
	buf := make([]byte, l.pl)
	a, b := l.span(i)
	switch op {
	case 0:
		vsym.FileLimit(-1)
		_, err := fio.ReadPiece(i, buf)
		vsym.Assert((err != nil) == hit(i), "reading a piece reports a failure exactly when there is one")
		vsym.Cover("read")
	case 1:
		_, err := fio.WritePiece(i, data[a:b])
		vsym.FileLimit(-1)
		if fault == 1 {
			// a shorter file grows again
			vsym.Assert(err == nil, "writing a piece to a file that was cut short fails")
		} else if fault == 3 {
			// other files may also be longer than the limit
			if hit(i) {
				vsym.Assert(err != nil, "writing a piece succeeds although the device is full")
			}
		} else {
			vsym.Assert((err != nil) == hit(i), "writing a piece reports a failure exactly when there is one")
		}
		vsym.Cover("write")
	case 2:
		vsym.FileLimit(-1)
		sw := &swarm.Swarm{Tor: tor, Fileio: fio, Bf: bf.NewBitfield(n)}
		any := false
		for k := int64(0); k < n; k++ {
			any = any || hit(k)
		}
		vsym.Assert((sw.Validate() != nil) == any, "validation reports a failure exactly when there is one")
	}
	// nothing stays locked: the files can still be used
	vsym.Assert(vsym.HeldLocks() == 0, "a file stays locked after a failure")
	for k := int64(0); k < n; k++ {
		if !hit(k) {
			_, err := fio.ReadPiece(k, buf)
			vsym.Assert(err == nil, "a piece that did not fail cannot be read any more")
			x, y := l.span(k)
			_, err = fio.WritePiece(k, data[x:y])
			vsym.Assert(err == nil, "a piece that did not fail cannot be written any more")
		} else if k != i || op != 1 {
			_, _ = fio.ReadPiece(k, buf)
		}
	}
	vsym.Assert(vsym.HeldLocks() == 0, "a file stays locked after a failure")
	// natively, this blocks if there is a lock left
	_ = fio.CloseAll()
}
