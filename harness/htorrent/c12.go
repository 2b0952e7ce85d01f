package htorrent

import (
	"strings"

	"gotor/bencode"
	"gotor/torrent/info"
	"gotor/zzverif/vsym"
)

// inside splits a path below dir into components, or fails when it is not
// strictly inside.
func inside(dir, p string) []string {
	vsym.Assert(strings.HasPrefix(p, dir+"/"), "a file is not inside the working directory")
	parts := strings.Split(p[len(dir)+1:], "/")
	for _, c := range parts {
		vsym.Assert(c != "" && c != "." && c != "..", "a file's path is not a plain path below the working directory")
	}
	return parts
}

func ordinary(s string) bool {
	return s != "" && s != "." && s != ".." && strings.IndexByte(s, '/') < 0
}

// part is a symbolic name component among the interesting shapes.
func part(name string, max int) string {
	fixed := []string{"a.b", "..a", "a..", "...", "a b", "\\", "a/b", "../x", "/x", "a/../../b", "\x00"}
	k := vsym.Choose(name+" kind", len(fixed)+max+1)
	if k < len(fixed) {
		return fixed[k]
	}
	return vsym.String(name, k-len(fixed))
}

var workdirs = [][2]string{{"/scratch/w", "/scratch/w"}, {"/scratch/w/", "/scratch/w"}, {"w", "w"}, {"/scratch/./w/../v", "/scratch/v"}}

// C12_Single: single-file torrents.
//
//gosym:bounds names of 0-3 (thorough 0-4) arbitrary bytes or of eleven longer shapes with dots, slashes and NULs, four spellings of the working directory
//gosym:cover ok refused
//gosym:cpu 100 1500
func C12_Single() {
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	name := part("name", max)
	wd := workdirs[vsym.Choose("workdir", len(workdirs))]
	d := bencode.Dict{"name": name, "piece length": int64(5), "pieces": hashes(1), "length": int64(5)}
	ti, err := info.FromDict(d, wd[0])
	if err != nil {
		vsym.Assert(!ordinary(name), "an ordinary name is refused")
		vsym.Cover("refused")
		return
	}
	parts := inside(wd[1], pathOf(ti, 0))
	if ordinary(name) {
		vsym.Assert(len(parts) == 1 && parts[0] == name, "an ordinary name maps to another path")
	}
	vsym.Cover("ok")
}

func pathOf(ti *info.TorInfo, i int) string {
	e := &ti.Files()[i]
	return e.LocalPath()
}

// C12_Multi: one file of a multi-file torrent.
//
//gosym:bounds a name of 0-2 arbitrary bytes or of eleven longer shapes, or a fixed one; 1-2 path components of 0-2 arbitrary bytes or of the same shapes; the only file of the list, or the second
//gosym:cover ok refused
//gosym:cpu 200 2000
func C12_Multi() {
	name := "t.d"
	max := 2
	if vsym.Choose("any name", 2) == 1 {
		name = part("name", 2)
		max = 1
	}
	n := 1 + vsym.Choose("components", 2)
	var comps []string
	l := bencode.List{}
	ok := ordinary(name)
	for i := 0; i < n; i++ {
		c := "y"
		if i == 0 || max == 2 {
			c = part("comp", max)
		}
		comps = append(comps, c)
		l = append(l, c)
		ok = ok && ordinary(c)
	}
	d := bencode.Dict{"name": name, "piece length": int64(5), "pieces": hashes(1),
		"files": bencode.List{bencode.Dict{"length": int64(2), "path": bencode.List{"other", "file"}}, bencode.Dict{"length": int64(3), "path": l}}}
	alone := vsym.Choose("alone", 2) == 1
	if alone {
		d["files"] = bencode.List{bencode.Dict{"length": int64(5), "path": l}}
	}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		if ok {
			same := !alone && n == 2 && comps[0] == "other" && comps[1] == "file"
			vsym.Assert(same, "ordinary names are refused")
		}
		vsym.Cover("refused")
		return
	}
	last := 1
	if alone {
		last = 0
	}
	parts := inside("/scratch/w", pathOf(ti, last))
	vsym.Assert(len(parts) >= 2, "a file of a multi-file torrent is not in the torrent's folder")
	first := inside("/scratch/w", pathOf(ti, 0))
	vsym.Assert(parts[0] == first[0], "the files of a torrent are not in one folder")
	vsym.Assert(alone || pathOf(ti, 0) != pathOf(ti, 1), "two files have the same path")
	if ok {
		vsym.Assert(parts[0] == name, "the torrent's folder has another name")
		vsym.Assert(strings.Join(parts[1:], "/") == strings.Join(comps, "/"), "ordinary components map to another path")
	}
	vsym.Cover("ok")
}

// C12_Distinct: two files never share a path.
//
//gosym:bounds two files, each with one path component of 1-2 arbitrary bytes or two of one arbitrary byte (the second file: two fixed ones, unless thorough)
//gosym:cover ok refused
//gosym:cpu 200 2000
func C12_Distinct() {
	mk := func(k string) ([]string, bencode.List) {
		n := 1 + vsym.Choose(k+" components", 2)
		var cs []string
		l := bencode.List{}
		for i := 0; i < n; i++ {
			max := 2
			if n == 2 {
				max = 1
			}
			var c string
			if k == "b" && n == 2 && !vsym.Thorough() {
				c = []string{"p", "q"}[i]
			} else {
				c = vsym.String(k, 1+vsym.Choose(k+" len", max))
			}
			cs = append(cs, c)
			l = append(l, c)
		}
		return cs, l
	}
	a, la := mk("a")
	b, lb := mk("b")
	d := bencode.Dict{"name": "t", "piece length": int64(5), "pieces": hashes(1),
		"files": bencode.List{bencode.Dict{"length": int64(2), "path": la}, bencode.Dict{"length": int64(0), "path": bencode.List{"m"}}, bencode.Dict{"length": int64(3), "path": lb}}}
	ti, err := info.FromDict(d, "/scratch/w")
	if err != nil {
		vsym.Cover("refused")
		return
	}
	p, m, q := pathOf(ti, 0), pathOf(ti, 1), pathOf(ti, 2)
	inside("/scratch/w/t", p)
	inside("/scratch/w/t", q)
	vsym.Assert(p != q && p != m && q != m, "two files have the same path")
	_, _ = a, b
	vsym.Cover("ok")
}
