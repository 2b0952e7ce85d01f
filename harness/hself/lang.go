package hself

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"maps"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gotor/zzverif/vsym"
)

type shape interface{ area() int }
type sq struct{ a int }
type rect struct {
	sq
	b int
}

func (s sq) area() int    { return s.a * s.a }
func (r *rect) area() int { return r.a * r.b }

type num interface{ ~int | ~int64 | ~uint8 }

func sum[T num](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

type stack[T any] struct{ xs []T }

func (s *stack[T]) push(x T) { s.xs = append(s.xs, x) }
func (s *stack[T]) pop() (x T, ok bool) {
	if len(s.xs) == 0 {
		return
	}
	x = s.xs[len(s.xs)-1]
	s.xs = s.xs[:len(s.xs)-1]
	return x, true
}

func multi(b byte) (r int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("recovered: %v", x)
		}
	}()
	defer func() { r *= 2 }()
	if b > 100 {
		panic("big")
	}
	r = int(b)
	return r + 1, nil
}

// S03_Lang compares language features and more of the library.
//
//gosym:cpu 300 300
func S03_Lang() {
	b := vsym.Byte("b")
	i64 := vsym.Int64("i")
	s := vsym.String("s", 2)
	var out bytes.Buffer
	w := func(xs ...any) { fmt.Fprint(&out, xs...); out.WriteByte('|') }
	switch vsym.Choose("k", 30) {
	case 0:
		var fs []func() int
		for i := 0; i < 3; i++ {
			fs = append(fs, func() int { return i })
		}
		for _, f := range fs {
			w(f())
		}
		var gs []func() string
		for _, x := range []string{"a", s} {
			gs = append(gs, func() string { return x })
		}
		w(gs[0]() + gs[1]())
	case 1:
		x := []string{"q", s, "a"}
		slices.Sort(x)
		w(strings.Join(x, ","), slices.Contains(x, "q"), slices.Index(x, "a"))
		y := []byte{b, 3, 1}
		slices.SortFunc(y, func(a, b byte) int { return int(a) - int(b) })
		out.Write(y)
		slices.Reverse(y)
		out.Write(y)
		i, ok := slices.BinarySearch(x, "m")
		w(i, ok, slices.Equal(x, []string{"a"}), slices.Max(y), slices.IndexFunc(y, func(c byte) bool { return c == 3 }))
	case 2:
		m := map[string]int{"a": 1, s: 2, "c": 3}
		ks := slices.Sorted(maps.Keys(m))
		w(strings.Join(ks, ","))
		n := maps.Clone(m)
		delete(n, "a")
		w(len(m), len(n), maps.Equal(m, n))
	case 3:
		w(sum(1, 2, int(b)), sum[uint8](b, b))
		var st stack[string]
		st.push(s)
		st.push("t")
		x, ok := st.pop()
		w(x, ok)
		x, _ = st.pop()
		w(x)
		_, ok = st.pop()
		w(ok)
	case 4:
		var x shape = sq{int(b & 7)}
		w(x.area())
		x = &rect{sq{3}, int(b & 3)}
		w(x.area())
		f := x.area
		g := (*rect).area
		w(f(), g(&rect{sq{1}, 2}))
		_, ok := x.(fmt.Stringer)
		w(ok)
	case 5:
		r, e := multi(b)
		w(r, e != nil)
		if e != nil {
			w(e.Error())
		}
	case 6:
	outer:
		for i := 0; i < 4; i++ {
			for j := 0; ; j++ {
				switch {
				case j == int(b&3):
					continue outer
				case i == 3:
					break outer
				case j > 5:
					break
				}
				if j == 2 {
					fallthroughs(&out, j)
					break
				}
			}
			w(i)
		}
	case 7:
		w(i64/3, i64%3, i64>>1, i64&7 == -(-i64)&7)
		w(uint8(b+200), int8(b), uint16(i64), b<<3, b>>(b&7))
	case 8:
		c := make(chan int, 2)
		c <- 1
		select {
		case c <- int(b):
			w("sent")
		default:
			w("full")
		}
		select {
		case c <- 3:
		default:
			w("full")
		}
		close(c)
		for x := range c {
			w(x)
		}
		_, ok := <-c
		w(ok)
	case 9:
		t := time.NewTimer(time.Hour)
		w(t.Stop(), t.Reset(time.Millisecond))
		<-t.C
		done := make(chan bool)
		time.AfterFunc(time.Millisecond, func() { close(done) })
		<-done
		k := time.NewTicker(time.Millisecond)
		<-k.C
		<-k.C
		k.Stop()
		w("ok")
	case 10:
		d := vsym.Dir()
		p := filepath.Join(d, "a", "b.txt")
		w(os.MkdirAll(filepath.Dir(p), 0755) == nil)
		w(os.WriteFile(p, []byte("hello "+s), 0644) == nil)
		f, e := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0644)
		w(e == nil)
		f.WriteAt([]byte{b}, 2)
		f.Seek(1, io.SeekStart)
		x := make([]byte, 4)
		n, e := f.Read(x)
		w(n, e == nil, string(x))
		f.Truncate(3)
		st, e := f.Stat()
		w(st.Size(), st.Name(), st.IsDir(), e == nil, st.Mode().IsRegular())
		n, e = f.ReadAt(x, 1)
		w(n, e == io.EOF)
		f.Close()
		_, e = f.Read(x)
		w(e != nil, errors.Is(e, os.ErrClosed))
		y, e := os.ReadFile(p)
		w(string(y), e == nil)
		_, e = os.Stat(p + "x")
		w(os.IsNotExist(e), errors.Is(e, os.ErrNotExist))
		w(os.Remove(p) == nil)
		_, e = os.Open(p)
		w(e != nil)
	case 11:
		d := vsym.Dir()
		f, e := os.Create(filepath.Join(d, "x"))
		w(e == nil)
		n, e := io.Copy(f, strings.NewReader("abc"+s))
		w(n, e == nil)
		m, e := io.Copy(&out, io.NewSectionReader(f, 1, 3))
		w(m, e == nil)
		g, e := os.OpenFile(filepath.Join(d, "x"), os.O_WRONLY|os.O_APPEND, 0)
		w(e == nil)
		g.WriteString("end")
		g.Close()
		g, _ = os.OpenFile(filepath.Join(d, "x"), os.O_RDWR|os.O_TRUNC, 0)
		st, _ := g.Stat()
		w(st.Size())
		_, e = os.OpenFile(filepath.Join(d, "x"), os.O_CREATE|os.O_EXCL, 0600)
		w(os.IsExist(e))
		w(os.Rename(filepath.Join(d, "x"), filepath.Join(d, "y")) == nil)
		w(os.Truncate(filepath.Join(d, "y"), 5) == nil)
		z, _ := os.ReadFile(filepath.Join(d, "y"))
		w(string(z))
	case 12:
		var a [3]int
		p := &a
		for i := range p {
			p[i] = i * int(b)
		}
		c := a
		c[0] = 9
		w(a[0], c[0], a == c, len(p), cap(a[1:2:3]))
		x := struct {
			A int
			B *int
		}{1, &a[1]}
		y := x
		*y.B = 7
		w(a[1], x == y)
	case 13:
		x := []byte("abcdef")
		copy(x[2:], x)
		w(string(x))
		copy(x, s)
		w(string(x))
		x = append(x, x[1:3]...)
		w(string(x), len(x))
		y := (*[4]byte)(x)
		y[1] = b
		out.Write(x)
	case 14:
		for i, r := range "a\u00e9" + s {
			w(i, r)
		}
		w([]rune(s)[0], string([]rune{'x', rune(b)}))
	case 15:
		x, e := strconv.ParseInt(s, 10, 64)
		var ne *strconv.NumError
		w(x, errors.As(e, &ne))
		if ne != nil {
			w(ne.Err == strconv.ErrSyntax)
		}
	case 16:
		var wg sync.WaitGroup
		c := make(chan int)
		for i := 0; i < 3; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); c <- i }()
		}
		go func() { wg.Wait(); close(c) }()
		var xs []int
		for x := range c {
			xs = append(xs, x)
		}
		sort.Ints(xs)
		w(xs)
	case 17:
		f := func(xs ...int) int { return len(xs) }
		w(f(), f(1, 2), f([]int{1, 2, 3}...))
		var e error
		if _, ok := e.(interface{ Timeout() bool }); !ok {
			w("nil")
		}
		x := map[[2]byte]string{{1, b}: "q"}
		w(x[[2]byte{1, 3}], x[[2]byte{1, b}])
	case 18:
		const big = 1 << 40
		x := float64(b) / 4
		w(int(x), x > 3.5, uint32(big>>20))
		w(fmt.Sprintf("%.3f %g %v", 1.0/3, 1e21, float32(0.1)))
	case 19:
		w(reflect.DeepEqual([]string{s}, []string{"x"}))
	case 20:
		e1 := fmt.Errorf("a: %w", io.EOF)
		e2 := fmt.Errorf("b %d: %w", b, e1)
		w(errors.Is(e2, io.EOF), errors.Unwrap(e2) == e1, e1.Error())
	case 21:
		g := fmt.Sprintf("%v", []string{s, "x"})
		w(g, len(g))
	case 22:
		x := int(b)
		goto l
	l:
		x--
		if x > 250 {
			goto l
		}
		w(x)
	case 23:
		type key struct{ a, b string }
		m := map[key]*int{}
		n := 5
		m[key{s, "x"}] = &n
		*m[key{s, "x"}]++
		w(n, m[key{"a", "x"}] == nil)
		var mm map[string]int
		w(mm["a"], len(mm))
	case 24:
		i := 0
		next := func() int { i++; return i }
		a := []int{next(), next()}
		a[0], a[1] = a[1], a[0]
		w(a)
		x, y := 1, 2
		x, y = y, x+y
		w(x, y)
	case 25:
		w(clampInt(int(i64)))
		w(-i64 == ^i64+1, i64&^3%4)
	}
	vsym.ObsBytes("out", out.Bytes())
}

func clampInt(x int) int {
	if x < -3 {
		return -3
	}
	if x > 3 {
		return 3
	}
	return x
}

func fallthroughs(o *bytes.Buffer, j int) {
	switch j {
	case 2:
		o.WriteString("two")
		fallthrough
	case 3:
		o.WriteString("three")
	default:
		o.WriteString("no")
	}
}
