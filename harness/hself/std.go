package hself

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"io"
	"math"
	"math/bits"
	"net"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"gotor/zzverif/vsym"
)

type pair struct {
	k string
	v int
}

type pairs []pair

func (p pairs) Len() int           { return len(p) }
func (p pairs) Less(i, j int) bool { return p[i].k < p[j].k }
func (p pairs) Swap(i, j int)      { p[i], p[j] = p[j], p[i] }
func (p *pairs) Push(x any)        { *p = append(*p, x.(pair)) }
func (p *pairs) Pop() any {
	o := *p
	x := o[len(o)-1]
	*p = o[:len(o)-1]
	return x
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.n) }

type hdr struct {
	A uint32
	B uint8
	C [3]byte
	D uint16
}

var errBase = errors.New("base")

// S02_Std compares standard library functions as the engine executes them with
// the real ones.
//
//gosym:cpu 300 300
func S02_Std() {
	b := vsym.Byte("b")
	n := vsym.Uint32("n")
	s := vsym.String("s", 2)
	var out bytes.Buffer
	w := func(x string) { out.WriteString(x); out.WriteByte('|') }
	switch k := vsym.Choose("k", 48); k {
	case 0:
		p := []pair{{"b", 1}, {s, 2}, {"a", 3}, {"c", 4}}
		sort.Slice(p, func(i, j int) bool { return p[i].k < p[j].k })
		for _, x := range p {
			w(x.k)
		}
	case 1:
		p := []pair{{"b", 1}, {s, 2}, {"b", 3}, {"a", 4}}
		sort.SliceStable(p, func(i, j int) bool { return p[i].k < p[j].k })
		for _, x := range p {
			w(x.k + strconv.Itoa(x.v))
		}
	case 2:
		x := []string{"q", s, "a", "zz"}
		sort.Strings(x)
		w(strings.Join(x, ","))
	case 3:
		x := pairs{{"b", 1}, {s, 2}, {"a", 4}}
		sort.Sort(x)
		w(x[0].k + x[1].k + x[2].k)
		sort.Stable(sort.Reverse(x))
		w(x[0].k)
		w(strconv.Itoa(sort.SearchStrings([]string{"a", "m", "z"}, s)))
		w(strconv.Itoa(sort.Search(10, func(i int) bool { return i*10 >= int(b) })))
	case 4:
		h := &pairs{{"b", 1}, {"d", 2}, {"a", 3}}
		heap.Init(h)
		heap.Push(h, pair{s, 9})
		for h.Len() > 0 {
			w(heap.Pop(h).(pair).k)
		}
	case 5:
		l := list.New()
		l.PushBack(1)
		l.PushFront(2)
		e := l.PushBack(int(b))
		l.MoveToFront(e)
		for e := l.Front(); e != nil; e = e.Next() {
			w(strconv.Itoa(e.Value.(int)))
		}
	case 6:
		var buf bytes.Buffer
		binary.Write(&buf, binary.BigEndian, n)
		binary.Write(&buf, binary.BigEndian, uint16(b))
		binary.Write(&buf, binary.BigEndian, b)
		out.Write(buf.Bytes())
		var m uint32
		e := binary.Read(&buf, binary.BigEndian, &m)
		w(strconv.FormatBool(e == nil && m == n))
	case 7:
		var buf bytes.Buffer
		binary.Write(&buf, binary.BigEndian, hdr{n, b, [3]byte{1, b, 3}, 7})
		out.Write(buf.Bytes())
		var h hdr
		e := binary.Read(&buf, binary.BigEndian, &h)
		w(strconv.FormatBool(e == nil && h.A == n && h.C[1] == b))
		w(strconv.Itoa(binary.Size(h)))
	case 8:
		var buf bytes.Buffer
		binary.Write(&buf, binary.LittleEndian, []uint32{n, 2})
		out.Write(buf.Bytes())
		out.Write(binary.BigEndian.AppendUint64(nil, uint64(n)<<7))
		w(strconv.FormatUint(binary.BigEndian.Uint64([]byte{0, 1, 2, b, 4, 5, 6, 7})&0xff, 10))
	case 9:
		w(hex.EncodeToString([]byte{b, 1}))
		d, e := hex.DecodeString("0" + s)
		w(string(d))
		w(strconv.FormatBool(e == nil))
		d, e = hex.DecodeString(s)
		w(string(d))
		w(strconv.FormatBool(e == nil))
	case 10:
		e := error(&myErr{int(b)})
		var t *myErr
		e2 := errors.Join(errBase, e)
		w(strconv.FormatBool(errors.As(e2, &t)))
		w(t.Error())
		w(strconv.FormatBool(errors.Is(e2, errBase)))
		w(strconv.FormatBool(errors.Unwrap(e2) == nil))
	case 11:
		r := bufio.NewReader(strings.NewReader("abc\n" + s + "\nxyz"))
		for {
			l, e := r.ReadString('\n')
			w(l)
			if e != nil {
				break
			}
		}
	case 12:
		sc := bufio.NewScanner(strings.NewReader("abc " + s + "\nxyz"))
		sc.Split(bufio.ScanWords)
		for sc.Scan() {
			w(sc.Text())
		}
	case 13:
		x, e := io.ReadAll(io.LimitReader(io.MultiReader(strings.NewReader(s), strings.NewReader("tail")), 5))
		w(string(x))
		w(strconv.FormatBool(e == nil))
		var a [4]byte
		m, e := io.ReadFull(strings.NewReader(s), a[:])
		w(strconv.Itoa(m))
		w(strconv.FormatBool(errors.Is(e, io.ErrUnexpectedEOF)))
		io.CopyN(&out, strings.NewReader("hello"), 3)
		io.Copy(&out, bytes.NewReader([]byte{b}))
	case 14:
		w(strconv.FormatBool(reflect.DeepEqual([]byte{b, 1}, []byte{3, 1})))
		w(strconv.FormatBool(reflect.DeepEqual(map[string]int{"a": 1}, map[string]int{"a": int(b)})))
	case 15:
		w(strings.ToUpper(s) + strings.ToLower(s) + strings.Title("ab cd"))
		w(strings.TrimSpace(" " + s + " "))
		w(strings.Trim("xx"+s+"x", "x"))
	case 16:
		w(strings.Join(strings.Split("a/"+s+"/b", "/"), ","))
		w(strings.Join(strings.Fields("a "+s+" b"), ","))
		w(strings.Join(strings.SplitN("a,b,"+s, ",", 2), ";"))
	case 17:
		w(strings.Replace("a.b.c", ".", s, 1) + strings.ReplaceAll("a.b.c", ".", s))
		w(strings.Repeat(s, 3))
		w(strconv.Itoa(strings.Index("hello world", s)) + strconv.Itoa(strings.LastIndex("hello world", s)) + strconv.Itoa(strings.Count("banana", s)))
	case 18:
		w(strconv.FormatBool(strings.HasPrefix("abc", s)) + strconv.FormatBool(strings.HasSuffix("abc", s)) + strconv.FormatBool(strings.Contains("xabcx", s)) + strconv.FormatBool(strings.ContainsRune("abc", rune(b))))
		w(strings.TrimPrefix("abc", s) + strings.TrimSuffix("abc", s) + strings.TrimLeft("abc", s))
	case 19:
		w(strings.Map(func(r rune) rune {
			if unicode.IsDigit(r) || unicode.IsLetter(r) {
				return r + 1
			}
			return -1
		}, "a1"+s[:1]))
	case 20:
		x, y, ok := strings.Cut("ke"+s+"va", "=")
		w(x + y + strconv.FormatBool(ok))
		w(strconv.Itoa(strings.IndexByte("abc", b)) + strconv.Itoa(strings.IndexAny("abc", s)) + strconv.Itoa(strings.Compare(s, "m")))
	case 21:
		w(string(bytes.TrimRight([]byte(s+"\x00\x00"), "\x00")))
		w(strconv.FormatBool(bytes.Equal([]byte(s), []byte("ab"))) + strconv.Itoa(bytes.Compare([]byte(s), []byte("ab"))) + strconv.Itoa(bytes.Index([]byte("xab"), []byte(s))))
		w(string(bytes.Join([][]byte{[]byte(s), {b}}, []byte{','})))
		w(string(bytes.Repeat([]byte{b}, 3)))
	case 22:
		v, e := strconv.Atoi(s)
		w(strconv.Itoa(v) + strconv.FormatBool(e == nil))
		u, e := strconv.ParseUint(s, 10, 8)
		w(strconv.FormatUint(u, 10) + strconv.FormatBool(e == nil))
		u, e = strconv.ParseUint(s, 16, 64)
		w(strconv.FormatUint(u, 10) + strconv.FormatBool(e == nil))
		i, e := strconv.ParseInt("-"+s, 0, 32)
		w(strconv.FormatInt(i, 10) + strconv.FormatBool(e == nil))
	case 23:
		w(strconv.Quote(s[:1]))
		w(strconv.FormatInt(int64(b), 16) + strconv.FormatInt(int64(b), 2))
	case 24:
		w(path.Join("a", s, "c"))
		w(path.Clean("a/" + s + "/../b"))
		w(path.Base("a/" + s))
		w(path.Dir("a/" + s))
	case 25:
		w(filepath.Join("/r", s, "x"))
		w(strconv.FormatBool(filepath.IsAbs(s)))
		r, e := filepath.Rel("/r", filepath.Join("/r", s))
		w(r + strconv.FormatBool(e == nil))
		w(filepath.Ext("f." + s))
	case 26:
		w(url.QueryEscape(s))
		w(url.PathEscape(s))
		x, e := url.QueryUnescape("%" + s)
		w(x + strconv.FormatBool(e == nil))
	case 27:
		u, e := url.Parse("http://h/" + s + "?a=1")
		if e != nil {
			w("err")
			break
		}
		w(u.Host + u.Path + u.RawQuery)
		q := u.Query()
		q.Add("b", s)
		q.Set("c", "x y")
		w(q.Encode())
		w(u.String())
	case 28:
		ip := net.IPv4(1, 2, b, 4)
		w(ip.String() + ip.To4().String())
		w(net.JoinHostPort("::1", strconv.Itoa(int(b))))
		h, p, e := net.SplitHostPort("h:" + s)
		w(h + p + strconv.FormatBool(e == nil))
		w((&net.TCPAddr{IP: ip, Port: int(n & 7)}).String())
	case 29:
		w(strconv.FormatFloat(math.Floor(float64(3.7)), 'f', 1, 64))
		w(strconv.Itoa(int(math.Ceil(float64(7)/2))) + strconv.Itoa(int(math.Min(3, 4))))
		w(strconv.Itoa(bits.OnesCount8(b)) + strconv.Itoa(bits.LeadingZeros8(b)) + strconv.Itoa(bits.Len32(n)) + strconv.Itoa(bits.TrailingZeros32(n)))
		w(strconv.FormatUint(uint64(bits.Reverse8(b)), 10))
	case 30:
		var o sync.Once
		for i := 0; i < 2; i++ {
			o.Do(func() { w("once") })
		}
		var c atomic.Int64
		c.Add(int64(b))
		w(strconv.FormatInt(c.Load(), 10))
		var x int32
		atomic.AddInt32(&x, 5)
		w(strconv.FormatBool(atomic.CompareAndSwapInt32(&x, 5, 6)))
		var v atomic.Value
		v.Store(s)
		w(v.Load().(string))
	case 31:
		var m sync.Map
		m.Store(s, 1)
		m.Store("k", 2)
		v, ok := m.Load("k")
		_, lo := m.LoadOrStore("k", 5)
		w(strconv.Itoa(v.(int)) + strconv.FormatBool(ok) + strconv.FormatBool(lo))
		m.Range(func(k, v any) bool { return true })
		m.Delete("k")
		_, ok = m.Load("k")
		w(strconv.FormatBool(ok))
	case 32:
		p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		x := p.Get().(*bytes.Buffer)
		x.WriteString(s)
		w(x.String())
		p.Put(x)
	case 33:
		ctx, cancel := context.WithCancel(context.Background())
		ctx = context.WithValue(ctx, pair{"a", 1}, s)
		w(ctx.Value(pair{"a", 1}).(string))
		cancel()
		<-ctx.Done()
		w(ctx.Err().Error())
	case 34:
		ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
		defer cancel()
		select {
		case <-ctx.Done():
			w(ctx.Err().Error())
		case <-time.After(time.Hour):
			w("no")
		}
	case 35:
		pr, pw := io.Pipe()
		go func() { pw.Write([]byte(s)); pw.Close() }()
		x, _ := io.ReadAll(pr)
		w(string(x))
	case 36:
		var wg sync.WaitGroup
		var mu sync.Mutex
		t := 0
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				mu.Lock()
				t += i * int(b)
				mu.Unlock()
			}(i)
		}
		wg.Wait()
		w(strconv.Itoa(t))
	case 37:
		c := sync.NewCond(&sync.Mutex{})
		ready := false
		go func() { c.L.Lock(); ready = true; c.L.Unlock(); c.Broadcast() }()
		c.L.Lock()
		for !ready {
			c.Wait()
		}
		c.L.Unlock()
		w("ready")
		var rw sync.RWMutex
		rw.RLock()
		w(strconv.FormatBool(rw.TryRLock()) + strconv.FormatBool(rw.TryLock()))
	case 38:
		d := 1500 * time.Millisecond
		w(d.String() + strconv.FormatFloat(d.Seconds(), 'f', 2, 64) + d.Round(time.Second).String())
		t := time.Unix(1000, 0).UTC()
		w(t.Add(time.Hour).Format(time.RFC3339) + strconv.FormatBool(t.Before(t.Add(1))))
	case 39:
		defer func() {
			_, ok := recover().(error)
			w(strconv.FormatBool(ok))
			vsym.ObsBytes("out", out.Bytes())
		}()
		var a []int
		_ = a[int(b)]
	case 40:
		r := bufio.NewReaderSize(bytes.NewReader([]byte(s+"0123456789")), 16)
		p, _ := r.Peek(3)
		w(string(p))
		r.Discard(1)
		x, _ := r.ReadByte()
		r.UnreadByte()
		w(string([]byte{x}))
		bw := bufio.NewWriter(&out)
		bw.WriteString(s)
		bw.Flush()
	case 41:
		var sb strings.Builder
		sb.WriteString(s)
		sb.WriteByte(b)
		sb.WriteRune(rune(b))
		w(sb.String())
		w(strings.NewReplacer("a", "1", "b", "2").Replace(s))
	case 42:
		m := map[string][]int{}
		m[s] = append(m[s], 1)
		m["ab"] = append(m["ab"], 2)
		w(strconv.Itoa(len(m)))
		ks := make([]string, 0)
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		w(strings.Join(ks, ","))
		delete(m, "ab")
		w(strconv.Itoa(len(m)))
	case 43:
		var a [4]uint32
		x := a[:]
		copy(x, []uint32{n, 2, 3})
		y := append(x[:1:1], 9)
		w(strconv.Itoa(len(y)) + strconv.Itoa(int(x[1])) + strconv.Itoa(int(y[1])))
		z := append([]byte(nil), s...)
		z = append(z[:1], z[2:]...)
		w(string(z))
	case 44:
		f := strings.FieldsFunc("a,b;"+s, func(r rune) bool { return r == ',' || r == ';' })
		w(strings.Join(f, "|"))
		w(strings.TrimFunc(s, unicode.IsSpace))
		w(strconv.FormatBool(strings.EqualFold(s, "ab")))
	case 45:
		e := errors.New("x" + s)
		w(e.Error())
		var t *myErr
		w(strconv.FormatBool(errors.As(e, &t)))
		var ne net.Error
		w(strconv.FormatBool(errors.As(error(&net.OpError{Op: "read", Err: errBase}), &ne)))
	case 46:
		x := []any{1, s, b, nil, &b}
		for _, y := range x {
			switch z := y.(type) {
			case int:
				w("int")
			case string:
				w(z)
			case uint8:
				w(strconv.Itoa(int(z)))
			case nil:
				w("nil")
			default:
				w("?")
			}
		}
	case 47:
		w("end")
	}
	vsym.ObsBytes("out", out.Bytes())
}
