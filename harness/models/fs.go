// Package models holds Go-source models of the environment (files, network,
// hashing, randomness). gosym redirects the standard library's functions to
// them; they are executed symbolically like any other code. Native replays use
// the real standard library instead.
package models

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"gotor/zzverif/vsym"
)

const (
	kReg = iota
	kDir
	kFull // like /dev/full: reads zeros, writes fail with ENOSPC
)

type node struct {
	kind int
	data []byte
	ro   bool

	// A file that was made longer than sparse bytes holds zeros up to size, but
	// for what was written into it since
	size int64
	exts []extent
}

type extent struct {
	off  int64
	data []byte
}

const sparse = 1 << 28

func (n *node) length() int64 {
	if n.size > 0 {
		return n.size
	}
	return int64(len(n.data))
}

// readExts reads from a sparse file.
func (n *node) readExts(b []byte, off int64) int {
	if int64(len(b)) > n.size-off {
		b = b[:n.size-off]
	}
	for i := range b {
		b[i] = 0
	}
	for _, e := range n.exts {
		if e.off >= off {
			if e.off < off+int64(len(b)) {
				copy(b[e.off-off:], e.data)
			}
		} else if off-e.off < int64(len(e.data)) {
			copy(b, e.data[off-e.off:])
		}
	}
	return len(b)
}

type handle struct {
	n      *node
	pos    int64
	flag   int
	closed bool
	name   string
}

var (
	nodes   = map[string]*node{"/": {kind: kDir}, "/tmp": {kind: kDir}, "/scratch": {kind: kDir}, "/dev": {kind: kDir}, "/dev/full": {kind: kFull}}
	handles = map[*os.File]*handle{}
	links   = map[string]string{}
	limit   = int64(-1)
	faults  int64 // remaining operations before an injected failure; 0 = never
	nOpen   int64
)

func SetLimit(n int64) { limit = n }

// OpenFiles is the number of open handles.
func OpenFiles() int64 { return nOpen }

func clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/scratch/" + name
	}
	name = filepath.Clean(name)
	for i := 0; i < 8; i++ {
		t, ok := links[name]
		if !ok {
			break
		}
		name = t
	}
	return name
}

func perr(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// walk checks that every parent of p is a directory.
func walk(p string) error {
	d := filepath.Dir(p)
	if d == p {
		return nil
	}
	n, ok := nodes[d]
	if ok {
		if n.kind != kDir {
			return syscall.ENOTDIR
		}
		return nil
	}
	if e := walk(d); e != nil {
		return e
	}
	return syscall.ENOENT
}

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, perr("open", name, syscall.EINVAL)
	}
	p := clean(name)
	if e := walk(p); e != nil {
		return nil, perr("open", name, e)
	}
	n, ok := nodes[p]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &node{kind: kReg}
		nodes[p] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.kind == kDir && (acc != os.O_RDONLY || flag&os.O_CREATE != 0) {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if n.ro && acc != os.O_RDONLY {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && n.kind == kReg && acc != os.O_RDONLY {
			n.data = nil
			n.size = 0
			n.exts = nil
		}
	}
	f := new(os.File)
	handles[f] = &handle{n: n, flag: flag, name: name}
	nOpen++
	return f, nil
}

func get(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, perr(op, h.name, os.ErrClosed)
	}
	return h, nil
}

func (h *handle) canRead() bool {
	return h.flag&(os.O_RDONLY|os.O_WRONLY|os.O_RDWR) != os.O_WRONLY
}
func (h *handle) canWrite() bool {
	return h.flag&(os.O_RDONLY|os.O_WRONLY|os.O_RDWR) != os.O_RDONLY
}

func (h *handle) readAt(b []byte, off int64) (int, error) {
	if !h.canRead() {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	switch h.n.kind {
	case kDir:
		return 0, perr("read", h.name, syscall.EISDIR)
	case kFull:
		for i := range b {
			b[i] = 0
		}
		return len(b), nil
	}
	if off >= h.n.length() {
		return 0, io.EOF
	}
	if h.n.size > 0 {
		return h.n.readExts(b, off), nil
	}
	// another thread may run between the parts of one transfer
	avail := h.n.data[off:]
	if len(avail) > len(b) {
		avail = avail[:len(b)]
	}
	half := len(avail) / 2
	vsym.Touch(b[:len(avail)], true)
	n := copy(b, avail[:half])
	if half > 0 {
		vsym.Yield()
		avail = h.n.data
		if off+int64(n) < int64(len(avail)) {
			n += copy(b[n:], avail[off+int64(n):])
		}
		return n, nil
	}
	return copy(b, avail), nil
}

func (h *handle) writeAt(b []byte, off int64) (int, error) {
	if !h.canWrite() {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	switch h.n.kind {
	case kDir:
		return 0, perr("write", h.name, syscall.EBADF)
	case kFull:
		if len(b) == 0 {
			return 0, nil
		}
		return 0, perr("write", h.name, syscall.ENOSPC)
	}
	var err error
	if limit >= 0 && off+int64(len(b)) > limit {
		k := limit - off
		if k <= 0 {
			if len(b) == 0 {
				return 0, nil
			}
			return 0, perr("write", h.name, syscall.EFBIG)
		}
		b = b[:k]
		err = perr("write", h.name, syscall.EFBIG)
	}
	half := len(b) / 2
	vsym.Touch(b, false)
	put(h.n, b[:half], off)
	if half > 0 {
		vsym.Yield()
	}
	put(h.n, b[half:], off+int64(half))
	return len(b), err
}

func put(n *node, b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	end := off + int64(len(b))
	if n.size > 0 {
		n.exts = append(n.exts, extent{off, append([]byte(nil), b...)})
		if end > n.size {
			n.size = end
		}
		return
	}
	if end > sparse {
		n.exts = []extent{{0, n.data}, {off, append([]byte(nil), b...)}}
		n.size = end
		n.data = nil
		return
	}
	if end > int64(len(n.data)) {
		nd := make([]byte, end)
		copy(nd, n.data)
		n.data = nd
	}
	copy(n.data[off:], b)
}

func FileRead(f *os.File, b []byte) (int, error) {
	h, e := get(f, "read")
	if e != nil {
		return 0, e
	}
	if len(b) == 0 {
		if !h.canRead() {
			return 0, perr("read", h.name, syscall.EBADF)
		}
		return 0, nil
	}
	n, e := h.readAt(b, h.pos)
	h.pos += int64(n)
	return n, e
}

func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, e := get(f, "read")
	if e != nil {
		return 0, e
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := h.readAt(b, off)
	if e == nil && n < len(b) {
		e = io.EOF
	}
	return n, e
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h, e := get(f, "write")
	if e != nil {
		return 0, e
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = h.n.length()
	}
	n, e := h.writeAt(b, h.pos)
	h.pos += int64(n)
	return n, e
}

func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, e := get(f, "write")
	if e != nil {
		return 0, e
	}
	if h.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", h.name, errors.New("negative offset"))
	}
	n, e := h.writeAt(b, off)
	if e != nil {
		// as package os does, whatever was written
		n = 0
	}
	return n, e
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileSeek(f *os.File, offset int64, whence int) (int64, error) {
	h, e := get(f, "seek")
	if e != nil {
		return 0, e
	}
	np := offset
	switch whence {
	case io.SeekCurrent:
		np += h.pos
	case io.SeekEnd:
		np += h.n.length()
	}
	if np < 0 || whence < 0 || whence > 2 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = np
	// another thread may come before the transfer
	vsym.Yield()
	return np, nil
}

func trunc(n *node, name string, size int64) error {
	if size < 0 || n.kind == kFull {
		return perr("truncate", name, syscall.EINVAL)
	}
	if n.kind == kDir {
		return perr("truncate", name, syscall.EISDIR)
	}
	if limit >= 0 && size > limit && size > n.length() {
		return perr("truncate", name, syscall.EFBIG)
	}
	if n.size > 0 || size > sparse {
		if n.size == 0 {
			n.exts = []extent{{0, n.data}}
			n.data = nil
		}
		for i := range n.exts {
			e := &n.exts[i]
			if e.off >= size {
				e.data = nil
			} else if int64(len(e.data)) > size-e.off {
				e.data = e.data[:size-e.off]
			}
		}
		n.size = size
		if size == 0 {
			n.exts = nil
		}
		return nil
	}
	if size <= int64(len(n.data)) {
		nd := make([]byte, size)
		copy(nd, n.data)
		n.data = nd
		return nil
	}
	nd := make([]byte, size)
	copy(nd, n.data)
	n.data = nd
	return nil
}

func FileTruncate(f *os.File, size int64) error {
	h, e := get(f, "truncate")
	if e != nil {
		return e
	}
	if !h.canWrite() {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	return trunc(h.n, h.name, size)
}

func FileClose(f *os.File) error {
	h, e := get(f, "close")
	if e != nil {
		return e
	}
	h.closed = true
	nOpen--
	return nil
}

func FileSync(f *os.File) error {
	_, e := get(f, "sync")
	return e
}

func FileName(f *os.File) string {
	h := handles[f]
	if h == nil {
		return ""
	}
	return h.name
}

func FileChmod(f *os.File, m os.FileMode) error {
	_, e := get(f, "chmod")
	return e
}

type info struct {
	name string
	n    *node
}

func (i *info) Name() string { return filepath.Base(i.name) }
func (i *info) Size() int64 {
	if i.n.kind == kDir {
		return 4096
	}
	return i.n.length()
}
func (i *info) Mode() fs.FileMode {
	switch i.n.kind {
	case kDir:
		return fs.ModeDir | 0777
	case kFull:
		return fs.ModeDevice | fs.ModeCharDevice | 0666
	}
	return 0666
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.n.kind == kDir }
func (i *info) Sys() any           { return nil }

func FileStat(f *os.File) (os.FileInfo, error) {
	h, e := get(f, "stat")
	if e != nil {
		return nil, e
	}
	return &info{h.name, h.n}, nil
}

func Stat(name string) (os.FileInfo, error) {
	if name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	p := clean(name)
	if e := walk(p); e != nil {
		return nil, perr("stat", name, e)
	}
	n, ok := nodes[p]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{name, n}, nil
}

// ReadDir lists a directory in the order of the names.
func ReadDir(name string) ([]os.DirEntry, error) {
	f, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer FileClose(f)
	return FileReadDir(f, -1)
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// entries lists what is left of a directory, up to n names.
func entries(f *os.File, n int) ([]*info, error) {
	h, e := get(f, "readdirent")
	if e != nil {
		return nil, e
	}
	if h.n.kind != kDir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	d := clean(h.name)
	var names []string
	for p := range nodes {
		if p != "/" && filepath.Dir(p) == d {
			names = append(names, filepath.Base(p))
		}
	}
	for i := range names {
		for j := i; j > 0 && names[j] < names[j-1]; j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
	var l []*info
	for _, s := range names[least(int(h.pos), len(names)):] {
		if n > 0 && len(l) == n {
			break
		}
		l = append(l, &info{s, nodes[filepath.Join(d, s)]})
	}
	h.pos += int64(len(l))
	if n > 0 && len(l) == 0 {
		return nil, io.EOF
	}
	return l, nil
}

func FileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	l, e := entries(f, n)
	var r []os.DirEntry
	for _, i := range l {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, e
}

func FileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	l, e := entries(f, n)
	var r []os.FileInfo
	for _, i := range l {
		r = append(r, i)
	}
	return r, e
}

func FileReaddirnames(f *os.File, n int) ([]string, error) {
	l, e := entries(f, n)
	var r []string
	for _, i := range l {
		r = append(r, i.Name())
	}
	return r, e
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func MkdirAll(path string, perm os.FileMode) error {
	p := clean(path)
	if n, ok := nodes[p]; ok {
		if n.kind == kDir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	d := filepath.Dir(p)
	if d != p {
		if e := MkdirAll(d, perm); e != nil {
			return e
		}
	}
	nodes[p] = &node{kind: kDir}
	return nil
}

func Mkdir(path string, perm os.FileMode) error {
	p := clean(path)
	if e := walk(p); e != nil {
		return perr("mkdir", path, e)
	}
	if _, ok := nodes[p]; ok {
		return perr("mkdir", path, syscall.EEXIST)
	}
	nodes[p] = &node{kind: kDir}
	return nil
}

func hasChild(p string) bool {
	for q := range nodes {
		if len(q) > len(p)+1 && q[:len(p)+1] == p+"/" {
			return true
		}
	}
	return false
}

func Remove(name string) error {
	if strings.HasPrefix(name, "/") == false {
		name = "/scratch/" + name
	}
	q := filepath.Clean(name)
	if _, ok := links[q]; ok {
		delete(links, q)
		return nil
	}
	p := clean(name)
	n, ok := nodes[p]
	if !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.kind == kDir && hasChild(p) {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(nodes, p)
	return nil
}

func RemoveAll(name string) error {
	p := clean(name)
	var del []string
	for q := range nodes {
		if q == p || len(q) > len(p) && q[:len(p)+1] == p+"/" {
			del = append(del, q)
		}
	}
	for _, q := range del {
		delete(nodes, q)
	}
	return nil
}

func Rename(from, to string) error {
	a, b := clean(from), clean(to)
	n, ok := nodes[a]
	if !ok {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if e := walk(b); e != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	if n.kind == kDir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EINVAL}
	}
	if m, ok := nodes[b]; ok && m.kind == kDir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	delete(nodes, a)
	nodes[b] = n
	return nil
}

func Symlink(old, new string) error {
	p := clean(new)
	if _, ok := nodes[p]; ok {
		return &os.LinkError{Op: "symlink", Old: old, New: new, Err: syscall.EEXIST}
	}
	if e := walk(p); e != nil {
		return &os.LinkError{Op: "symlink", Old: old, New: new, Err: e}
	}
	links[p] = clean(old)
	return nil
}

func Truncate(name string, size int64) error {
	p := clean(name)
	n, ok := nodes[p]
	if !ok {
		return perr("truncate", name, syscall.ENOENT)
	}
	return trunc(n, name, size)
}

func Chmod(name string, mode os.FileMode) error {
	n, ok := nodes[clean(name)]
	if !ok {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.ro = mode&0200 == 0
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, e := Open(name)
	if e != nil {
		return nil, e
	}
	h := handles[f]
	if h.n.kind == kDir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	if h.n.kind == kFull {
		vsym.Assume(false)
	}
	r := make([]byte, h.n.length())
	if h.n.size > 0 {
		h.n.readExts(r, 0)
	} else {
		copy(r, h.n.data)
	}
	FileClose(f)
	return r, nil
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, e := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = FileWrite(f, data)
	if e2 := FileClose(f); e == nil {
		e = e2
	}
	return e
}

func Getwd() (string, error) { return "/scratch", nil }

func MkdirTemp(dir, pattern string) (string, error) {
	p := "/scratch/tmp"
	for i := 0; i < 100; i++ {
		if _, ok := nodes[p]; !ok {
			break
		}
		p += "x"
	}
	nodes[p] = &node{kind: kDir}
	return p, nil
}

// CreateTemp makes a new file whose name begins and ends as the pattern says.
func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, post := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	mid := "1"
	for i := 0; i < 100; i++ {
		f, e := OpenFile(dir+"/"+pre+mid+post, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if e == nil || !os.IsExist(e) {
			return f, e
		}
		mid += "1"
	}
	return nil, perr("createtemp", pattern, fs.ErrExist)
}

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

// ReadFrom is the generic copy loop of (*os.File).ReadFrom.
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	var t int64
	buf := make([]byte, 32768)
	for {
		n, e := r.Read(buf)
		if n > 0 {
			w, e2 := FileWrite(f, buf[:n])
			t += int64(w)
			if e2 != nil {
				return t, e2
			}
		}
		if e == io.EOF {
			return t, nil
		}
		if e != nil {
			return t, e
		}
	}
}
