// Package feat: features (scratch).
package feat

import (
	"bufio"
	"bytes"
	"cmp"
	"container/heap"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"hash/fnv"
	"io"
	"maps"
	"math"
	"math/bits"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/kevmo314/appendable/zz_verif/sym"
)

func a(ok bool) { sym.Assert(ok, "x") }

//verif:harness prop=F quick=""
func Sort() {
	b := sym.Bytes("b", 3)
	c := slices.Clone(b)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	a(c[0] <= c[1] && c[1] <= c[2])
	slices.SortFunc(b, func(x, y byte) int { return cmp.Compare(x, y) })
	a(bytes.Equal(b, c))
	i := sort.Search(3, func(i int) bool { return c[i] >= 7 })
	j, _ := slices.BinarySearch(c, 7)
	a(i == j)
	a(slices.IsSorted(c))
	slices.Reverse(c)
	c = slices.Insert(c, 1, 9, 8)
	c = slices.Delete(c, 0, 1)
	a(len(c) == 4 && c[0] == 9)
	a(slices.Contains(c, 8) && slices.Index(c, 9) == 0)
	sort.Sort(sort.Reverse(sort.IntSlice([]int{1, 2, 3})))
	sort.SliceStable(c, func(i, j int) bool { return c[i] < c[j] })
	a(slices.Max(c) >= 9)
	d := slices.Compact(c)
	a(len(d) <= 4)
	x, ok := slices.BinarySearchFunc([]int{1, 3, 5}, 3, func(e, t int) int { return e - t })
	a(x == 1 && ok)
	a(slices.IndexFunc([]int{1, 2}, func(i int) bool { return i == 2 }) == 1)
	a(slices.EqualFunc([]int{1}, []int{1}, func(a, b int) bool { return a == b }))
	e := slices.Grow([]byte(nil), 10)
	a(cap(e) >= 10)
	a(len(slices.Concat([]byte{1}, []byte{2})) == 2)
}

//verif:harness prop=F quick=""
func Maps() {
	m := map[string]int{"a": 1, "b": 2}
	n := maps.Clone(m)
	a(len(n) == 2)
	delete(n, "a")
	a(len(n) == 1 && !maps.Equal(m, n))
	s := 0
	for _, v := range m {
		s += v
	}
	a(s == 3)
	type k struct {
		a int
		b string
	}
	q := map[k]struct{}{}
	q[k{1, "x"}] = struct{}{}
	_, ok := q[k{1, "x"}]
	a(ok)
	clear(m)
	a(len(m) == 0)
	p := map[any]int{1: 2, "x": 3}
	a(p["x"] == 3)
	w := map[[2]int]bool{{1, 2}: true}
	a(w[[2]int{1, 2}])
	x := sym.Byte("x")
	z := map[byte]int{3: 1, 4: 2}
	if v, ok := z[x]; ok {
		a(int(x)-2 == v)
	}
}

//verif:harness prop=F quick=""
func Strings() {
	s := string(sym.Bytes("s", 2))
	var sb strings.Builder
	sb.WriteString(s)
	sb.WriteByte('x')
	sb.WriteRune('é')
	a(sb.Len() == 5 && strings.HasPrefix(sb.String(), s))
	a(len(strings.Split("a,b,c", ",")) == 3)
	a(len(strings.Fields(" a b  c")) == 3)
	a(strings.TrimSpace(" x ") == "x")
	a(strings.ToLower("AbC") == "abc" && strings.ToUpper("é") == "É")
	b, c, ok := strings.Cut("k=v", "=")
	a(b == "k" && c == "v" && ok)
	a(strings.Repeat("ab", 2) == "abab")
	a(strings.Join([]string{"a", "b"}, ".") == "a.b")
	a(strings.Index("abc", "c") == 2 && strings.LastIndex("aba", "a") == 2)
	a(strings.EqualFold("Go", "GO"))
	a(strings.Map(func(r rune) rune {
		if r == 'a' {
			return -1
		}
		return unicode.ToUpper(r)
	}, "abc") == "BC")
	a(strings.Count("cheese", "e") == 3)
	a(strings.ReplaceAll("aXa", "a", "b") == "bXb")
	a(strings.NewReplacer("a", "1").Replace("a") == "1")
	a(strings.ContainsAny("abc", "xc") && strings.ContainsRune("abc", 'b') && strings.Contains("abc", "bc"))
	a(strings.TrimFunc("xxaxx", func(r rune) bool { return r == 'x' }) == "a")
	a(strings.FieldsFunc("a1b", unicode.IsDigit)[1] == "b")
	a(strings.TrimRight("a\r\n", "\r\n") == "a" && strings.TrimSuffix("ab", "b") == "a")
	a(utf8.RuneCountInString("é") == 1 && utf8.ValidString(s) == utf8.Valid([]byte(s)))
	r := strings.NewReader("abc")
	x, _ := io.ReadAll(r)
	a(string(x) == "abc")
	a(strings.Compare("a", "b") < 0)
	a(strings.IndexByte(s, 'a') <= 1)
	a(unicode.IsLetter('x') && !unicode.IsLetter('1') && unicode.IsSpace(' '))
	for i, c := range s {
		a(i < 2 && c >= 0)
	}
	rs := []rune("añb")
	a(len(rs) == 3 && string(rs[1]) == "ñ")
}

//verif:harness prop=F quick=""
func Bytes() {
	b := sym.Bytes("b", 3)
	var buf bytes.Buffer
	buf.Write(b)
	buf.WriteString("x")
	buf.WriteByte('y')
	a(buf.Len() == 5)
	c := make([]byte, 2)
	io.ReadFull(&buf, c)
	a(c[0] == b[0])
	a(len(bytes.TrimSpace([]byte(" a "))) == 1)
	a(len(bytes.Split([]byte("a\nb"), []byte("\n"))) == 2)
	x, y, _ := bytes.Cut([]byte("a:b"), []byte(":"))
	a(len(x) == 1 && len(y) == 1)
	a(bytes.Compare(b, []byte("zzzz")) != 0)
	a(bytes.HasSuffix([]byte("ab"), []byte("b")))
	a(bytes.IndexByte(b, 'q') < 3)
	a(bytes.LastIndexByte(b, 'q') < 3)
	a(bytes.IndexAny(b, "xy") < 3)
	a(bytes.ContainsRune([]byte("abc"), 'b'))
	a(bytes.Count([]byte("aXa"), []byte("a")) == 2)
	a(bytes.Contains([]byte("abc"), []byte("bc")))
	a(len(bytes.Repeat([]byte{1}, 3)) == 3)
	a(len(bytes.Join([][]byte{{1}, {2}}, nil)) == 2)
	a(len(bytes.Clone(b)) == 3)
	r := bytes.NewReader(b)
	r.Seek(1, io.SeekStart)
	z, _ := r.ReadByte()
	a(z == b[1])
	w := bytes.TrimRight([]byte("a\r\n"), "\r\n")
	a(len(w) == 1)
	a(bytes.EqualFold([]byte("A"), []byte("a")))
	buf.Reset()
	buf.Truncate(0)
	_ = bytes.Title
	n := bytes.NewBuffer(nil)
	n.ReadFrom(strings.NewReader("abc"))
	l, err := n.ReadBytes('c')
	a(len(l) == 3 && err == nil)
}

//verif:harness prop=F quick=""
func IO() {
	r := bufio.NewReader(strings.NewReader("ab\ncd\n"))
	l, err := r.ReadString('\n')
	a(l == "ab\n" && err == nil)
	lb, _, err := r.ReadLine()
	a(string(lb) == "cd" && err == nil)
	s := bufio.NewScanner(strings.NewReader("ab\ncd\nef"))
	n := 0
	for s.Scan() {
		n += len(s.Bytes())
	}
	a(n == 6 && s.Err() == nil)
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	w.WriteString("abc")
	w.Flush()
	a(b.String() == "abc")
	m := io.MultiReader(strings.NewReader("a"), bytes.NewReader([]byte("b")))
	x, _ := io.ReadAll(m)
	a(string(x) == "ab")
	x, _ = io.ReadAll(io.LimitReader(strings.NewReader("abc"), 2))
	a(len(x) == 2)
	k, err := io.Copy(&b, strings.NewReader("xyz"))
	a(k == 3 && err == nil)
	sr := io.NewSectionReader(strings.NewReader("abcdef"), 1, 3)
	x, _ = io.ReadAll(sr)
	a(string(x) == "bcd")
	tr := io.TeeReader(strings.NewReader("abc"), &b)
	io.Copy(io.Discard, tr)
	mw := io.MultiWriter(&b, io.Discard)
	io.WriteString(mw, "q")
	_, err = io.ReadAtLeast(strings.NewReader("a"), make([]byte, 3), 2)
	a(err == io.ErrUnexpectedEOF)
	_, err = io.CopyN(&b, strings.NewReader("a"), 2)
	a(errors.Is(err, io.EOF))
	ow := io.NewOffsetWriter(nil, 3)
	_ = ow
}

type ih []int

func (h ih) Len() int           { return len(h) }
func (h ih) Less(i, j int) bool { return h[i] < h[j] }
func (h ih) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ih) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ih) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

//verif:harness prop=F quick=""
func Containers() {
	h := &ih{int(sym.Byte("x")), int(sym.Byte("y")), int(sym.Byte("z"))}
	heap.Init(h)
	heap.Push(h, 4)
	p := heap.Pop(h).(int)
	a(p <= 4)
	l := list.New()
	l.PushBack(1)
	l.PushFront(2)
	s := 0
	for e := l.Front(); e != nil; e = e.Next() {
		s += e.Value.(int)
	}
	a(s == 3)
}

//verif:harness prop=F quick=""
func Binary() {
	x := sym.Uint64("x")
	b := binary.BigEndian.AppendUint64(nil, x)
	a(binary.BigEndian.Uint64(b) == x)
	b = binary.AppendUvarint(nil, x)
	y, n := binary.Uvarint(b)
	a(y == x && n == len(b))
	z, err := binary.ReadUvarint(bytes.NewReader(b))
	a(z == x && err == nil)
	b = binary.AppendVarint(nil, int64(x))
	v, _ := binary.Varint(b)
	a(v == int64(x))
	b, err = binary.Append(nil, binary.LittleEndian, uint32(x))
	a(err == nil && len(b) == 4)
	type T struct {
		A uint16
		B [2]byte
	}
	var buf bytes.Buffer
	t := T{uint16(x), [2]byte{1, 2}}
	a(binary.Write(&buf, binary.BigEndian, &t) == nil)
	var u T
	a(binary.Read(&buf, binary.BigEndian, &u) == nil && u == t)
	k := make([]byte, 8)
	nn, err := binary.Encode(k, binary.BigEndian, x)
	a(err == nil && nn == 8)
	var xx uint64
	_, err = binary.Decode(k, binary.BigEndian, &xx)
	a(err == nil && xx == x)
	a(binary.Size(t) == 4)
	binary.NativeEndian.PutUint16(k, 3)
	a(bits.OnesCount64(x) <= 64 && bits.Len64(x) <= 64 && bits.TrailingZeros64(x) <= 64)
	hi, lo := bits.Mul64(x, 2)
	a(hi == x>>63 && lo == x<<1)
	_, c := bits.Add64(x, 1, 0)
	a((c == 1) == (x == math.MaxUint64))
	a(bits.LeadingZeros64(x)+bits.Len64(x) == 64)
	a(bits.ReverseBytes32(0x01020304) == 0x04030201 && bits.RotateLeft8(1, 1) == 2)
	a(math.Float64frombits(math.Float64bits(1.5)) == 1.5)
	a(math.Abs(-1) == 1 && math.Max(1, 2) == 2 && math.Floor(1.5) == 1 && math.Sqrt(4) == 2 && math.IsNaN(math.NaN()) && math.IsInf(math.Inf(1), 0))
	a(math.Pow(2, 3) == 8 && math.Log(1) == 0 && math.Trunc(1.5) == 1 && math.Round(1.5) == 2 && math.Ceil(1.2) == 2 && math.Mod(5, 3) == 2)
	a(crc32.ChecksumIEEE([]byte("a")) != 0)
	f := fnv.New64a()
	f.Write([]byte("a"))
	a(f.Sum64() != 0)
	a(hex.EncodeToString([]byte{255}) == "ff")
}

type myErr struct{ n int }

func (e *myErr) Error() string { return "my" }

//verif:harness prop=F quick=""
func Errors() {
	e := &myErr{3}
	w := fmt.Errorf("w: %w", e)
	var t *myErr
	a(errors.As(w, &t) && t.n == 3)
	a(errors.Is(w, e))
	j := errors.Join(io.EOF, nil, e)
	a(errors.Is(j, io.EOF) && errors.Is(j, e))
	a(errors.Unwrap(w) == error(e))
	a(w.Error() != "" && errors.New("x").Error() == "x")
	a(errors.Is(fmt.Errorf("a %w %w", io.EOF, e), e))
	func() {
		defer func() {
			r := recover()
			a(r != nil)
			_, ok := r.(error)
			a(ok)
		}()
		var p *int
		*p = 1
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); ok {
					a(s == "boom")
				}
			}
		}()
		panic("boom")
	}()
	f := func() (err error) {
		defer func() {
			if err != nil {
				err = fmt.Errorf("wrapped: %w", err)
			}
		}()
		return io.EOF
	}
	a(errors.Is(f(), io.EOF))
	var b strings.Builder
	fmt.Fprintf(&b, "%d", 3)
	fmt.Fprint(io.Discard, 3)
	fmt.Fprintln(io.Discard, 3)
}

//verif:harness prop=F quick=""
func Fmt() {
	a(fmt.Sprintf("%s.%s", "a", "b") == "a.b")
	a(fmt.Sprint("a", "b") == "ab")
	a(fmt.Sprintf("%d", 12) == "12")
	s := string(sym.Bytes("s", 1))
	a(fmt.Sprintf("%s.x", s) == s+".x")
	a(fmt.Sprintf("%q", "x") == "\"x\"")
	a(fmt.Sprintf("%v", 12) == "12" && fmt.Sprintf("%03d|%x|%t|%c", 7, 255, true, 'x') == "007|ff|true|x")
}

//verif:harness prop=F quick=""
func Conv() {
	a(strconv.Itoa(12) == "12")
	n, err := strconv.Atoi("34")
	a(n == 34 && err == nil)
	x, err := strconv.ParseInt("ff", 16, 64)
	a(x == 255 && err == nil)
	_, err = strconv.ParseFloat("abc", 64)
	a(err != nil && errors.Is(err, strconv.ErrSyntax))
	b, err := strconv.ParseBool("true")
	a(b && err == nil)
	a(strconv.Quote("a") == "\"a\"" && strconv.FormatFloat(1.5, 'g', -1, 64) == "1.5")
	u, err := strconv.Unquote("\"a\\n\"")
	a(u == "a\n" && err == nil)
	a(string(strconv.AppendInt(nil, 5, 10)) == "5")
	c := sym.Byte("c")
	sym.Assume(c >= '0' && c <= '9')
	v, err := strconv.ParseUint(string([]byte{c}), 10, 64)
	a(err == nil && v == uint64(c-'0'))
}

//verif:harness prop=F quick=""
func Sync() {
	var mu sync.Mutex
	mu.Lock()
	mu.Unlock()
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	var o sync.Once
	n := 0
	o.Do(func() { n++ })
	o.Do(func() { n++ })
	a(n == 1)
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("x")
	p.Put(b)
	var c atomic.Int64
	c.Add(3)
	a(c.Load() == 3)
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	a(ok && v.(int) == 1)
	f := sync.OnceValue(func() int { return 4 })
	a(f() == 4)
	var cn int32
	atomic.AddInt32(&cn, 1)
	a(atomic.LoadInt32(&cn) == 1)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	a(ctx.Err() != nil)
}

//verif:harness prop=F quick=""
func Go() {
	var wg sync.WaitGroup
	n := 0
	wg.Add(1)
	go func() { n = 1; wg.Done() }()
	wg.Wait()
	a(n == 1)
	ch := make(chan int, 1)
	ch <- 1
	a(<-ch == 1)
	d := make(chan int)
	go func() {
		for i := range 3 {
			d <- i
		}
		close(d)
	}()
	s := 0
	for x := range d {
		s += x
	}
	a(s == 3)
	select {
	case x, ok := <-d:
		a(x == 0 && !ok)
	default:
	}
}

//verif:harness prop=F quick=""
func Json() {
	a(json.Valid([]byte("{}")))
	var m map[string]any
	a(json.Unmarshal([]byte(`{"a":1}`), &m) == nil && len(m) == 1)
	d := json.NewDecoder(strings.NewReader(`{"a":[1,"x",true,null]}`))
	d.UseNumber()
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		_ = t
		a(err == nil)
		_ = d.More()
		_ = d.InputOffset()
	}
	var bb bytes.Buffer
	a(json.Compact(&bb, []byte("{ }")) == nil)
	var s string
	a(json.Unmarshal([]byte(`"abc"`), &s) == nil && s == "abc")
}

//verif:harness prop=F quick=""
func Csv() {
	r := csv.NewReader(strings.NewReader("a,b\n\"x\"\"y\",z\n"))
	r.FieldsPerRecord = -1
	r.ReuseRecord = true
	all, err := r.ReadAll()
	a(err == nil && len(all) == 2)
	l, c := r.FieldPos(0)
	_, _ = l, c
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write([]string{"a", "b c"})
	w.Flush()
	a(b.String() == "a,b c\n")
}

type num interface{ ~int | ~uint64 | ~float64 }

func sum[T num](xs ...T) (s T) {
	for _, x := range xs {
		s += x
	}
	return
}

type stack[T any] struct{ xs []T }

func (s *stack[T]) push(x T) { s.xs = append(s.xs, x) }
func (s *stack[T]) pop() (T, bool) {
	var z T
	if len(s.xs) == 0 {
		return z, false
	}
	x := s.xs[len(s.xs)-1]
	s.xs = s.xs[:len(s.xs)-1]
	return x, true
}

type shape interface{ area() int }
type sq int

func (s sq) area() int { return int(s * s) }

//verif:harness prop=F quick=""
func Lang() {
	a(sum(1, 2, 3) == 6 && sum(1.5, 2) == 3.5)
	var st stack[string]
	st.push("a")
	x, ok := st.pop()
	a(x == "a" && ok)
	var sh shape = sq(3)
	f := sh.area
	a(f() == 9)
	g := sq.area
	a(g(2) == 4)
	switch v := sh.(type) {
	case sq:
		a(v == 3)
	default:
		a(false)
	}
	i := 0
loop:
	for {
		switch {
		case i > 3:
			break loop
		default:
			i++
			continue loop
		}
	}
	if i > 4 {
		goto end
	}
	for i := range 3 {
		defer func() { _ = i }()
	}
	a([3]int{1, 2, 3} == [3]int([]int{1, 2, 3}))
	{
		arr := [...]string{2: "x"}
		a(len(arr) == 3)
		p := (*[2]string)(arr[1:])
		a(p[1] == "x")
	}
	{
		c := 1.0
		a(c == 1)
		s := make([]int, 2, 5)
		t := s[:3:4]
		a(cap(t) == 4)
		a(copy(s, []int{7}) == 1)
		a(min(3, 1, 2) == 1 && max("a", "b") == "b")
		const big = 1 << 40
		a(big>>39 == 2)
		type pt struct{ x, y int }
		a(pt{1, 2} == pt{1, 2})
		var e any = pt{1, 2}
		a(e == any(pt{1, 2}))
		fn := func(n int) func() int { return func() int { n++; return n } }(3)
		fn()
		a(fn() == 5)
	}
end:
	a(reflect.DeepEqual([]int{1}, []int{1}))
	_ = time.Duration(3).String()
	t0 := time.Now()
	_ = time.Since(t0)
	for r, s := range "aé" {
		_, _ = r, s
	}
	for i, c := range []byte("ab") {
		_, _ = i, c
	}
}

func seq(n int) func(func(int) bool) {
	return func(y func(int) bool) {
		for i := 0; i < n; i++ {
			if !y(i) {
				return
			}
		}
	}
}

//verif:harness prop=F quick=""
func Manual() {
	s := 0
	seq(4)(func(i int) bool { s += i; return i < 2 })
	a(s == 3)
}
