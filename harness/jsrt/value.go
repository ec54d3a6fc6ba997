// Package jsrt is the runtime of the Go code that ts2go makes of the
// repository's TypeScript: JavaScript values and operations on them.
//
// Promises are settled when they are created: an asynchronous function runs to
// its end when it is called, await takes the value out. Generators run to
// their end when they are first iterated; what they throw is thrown after the
// values before it have been consumed.
package jsrt

import (
	"math"
	"math/bits"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/kevmo314/appendable/zz_verif/sym"
)

// V is a JavaScript value: nil (undefined), NullT, bool, Int or float64
// (numbers; integers of up to 2^53 are Int), Big, string, or a pointer to one
// of the object types.
type V = any

type NullT struct{}

var Null V = NullT{}

type Int int64

// Big is a bigint of 128 bits.
type Big struct {
	Hi int64
	Lo uint64
}

type Prop struct {
	K string
	V V
}

type Obj struct {
	Class  *Class
	Props  []Prop
	Getter []Prop
	Setter []Prop
}

type Arr struct {
	A     []V
	Props []Prop
}

type Fn struct {
	Name  string
	N     int
	user  bool
	F     func(this V, args []V) V
	Props []Prop
}

type Class struct {
	Name    string
	Super   V
	ctor    func(this V, args []V)
	build   func(args []V) V // built-in classes whose instances are no *Obj
	meth    []Prop
	getters []Prop
	setters []Prop
	Props   []Prop
	sget    []Prop
	sset    []Prop
}

type Throw struct{ Val V }

type Promise struct {
	Val    V
	Failed bool
	done   chan struct{} // until it is settled
}

type Gen struct {
	run   func(yield func(V) V) V
	ran   bool
	items []V
	ret   V
	fail  *Throw
	pos   int
	sync  bool
}

type Iterator struct {
	Val   V
	items []V
	arr   *Arr
	pos   int
	fail  *Throw
	await bool
}

const maxSafe = 1 << 53

func ThrowV(v V) { panic(&Throw{v}) }

func throwErr(class, msg string) { ThrowV(newError(class, msg)) }

// Unsupported says that something this runtime does not model was reached.
func Unsupported(what string) { sym.GiveUp("javascript: " + what) }

func unsup(what string) string { Unsupported(what); return what }

func newError(class, msg string) *Obj {
	return &Obj{Class: Global(class).(*Class), Props: []Prop{{"message", msg}}}
}

// Try runs body, then handler if it threw, then finally. The number says how
// the block was left: 0 at its end, 1 by return, others by a jump.
func Try(body func() (int, V), handler func(V) (int, V), finally func() (int, V)) (c int, r V) {
	th := catch(func() { c, r = body() })
	if th != nil && handler != nil {
		th2 := catch(func() { c, r = handler(th.Val) })
		th = th2
	}
	if finally != nil {
		fc, fr := finally()
		if fc != 0 {
			return fc, fr
		}
	}
	if th != nil {
		panic(th)
	}
	return c, r
}

func catch(f func()) (th *Throw) {
	defer func() {
		if e := recover(); e != nil {
			t, ok := e.(*Throw)
			if !ok {
				panic(e)
			}
			th = t
		}
	}()
	f()
	return nil
}

// ---- functions

func Func(name string, n int, f func(this V, args []V, self *Fn) V) V {
	fn := &Fn{Name: name, N: n, user: true}
	fn.F = func(this V, args []V) V { return f(this, args, fn) }
	return fn
}

func Arrow(name string, n int, f func(args []V) V) V {
	return &Fn{Name: name, N: n, user: true, F: func(_ V, args []V) V { return f(args) }}
}

func native(name string, f func(this V, args []V) V) V { return &Fn{Name: name, F: f} }

func Arg(args []V, i int) V {
	if i < len(args) {
		return args[i]
	}
	return nil
}

func RestArgs(args []V, i int) V {
	a := &Arr{}
	if i < len(args) {
		a.A = append(a.A, args[i:]...)
	}
	return a
}

func Call(f V, args ...V) V { return CallThis(f, nil, args...) }

func CallThis(f V, this V, args ...V) V {
	fn, ok := f.(*Fn)
	if !ok {
		if c, ok := f.(*Class); ok && c.build != nil {
			return callBuiltin(c, args)
		}
		throwErr("TypeError", TypeOf(f).(string)+" is not a function")
	}
	return fn.F(this, args)
}

func CallM(o V, name string, args ...V) V {
	if m := method(o, name); m != nil {
		return m(args)
	}
	f := Get(o, name)
	if _, ok := f.(*Fn); !ok {
		if _, ok := f.(*Class); !ok {
			throwErr("TypeError", name+" is not a function")
		}
	}
	return CallThis(f, o, args...)
}

func CallI(o V, k V, args ...V) V {
	if s, ok := k.(string); ok {
		return CallM(o, s, args...)
	}
	return CallThis(GetI(o, k), o, args...)
}

type spread []V

func SpreadOf(v V) V { return spread(IterAll(v)) }

func Spread(parts ...V) []V {
	var a []V
	for _, p := range parts {
		if s, ok := p.(spread); ok {
			a = append(a, s...)
		} else {
			a = append(a, p)
		}
	}
	return a
}

func Seq(vs ...V) V { return vs[len(vs)-1] }
func Void(V) V      { return nil }

// ---- promises, generators, iteration

// Concurrent says that promises may be settled later. Asynchronous functions are
// goroutines then.
var Concurrent bool

func pending() *Promise { return &Promise{done: make(chan struct{})} }

func (p *Promise) settle(v V, failed bool) {
	if c := p.done; c != nil {
		p.Val, p.Failed, p.done = v, failed, nil
		close(c)
	}
}

// follow settles p as v is.
func (p *Promise) follow(v V) {
	if th := catch(func() { v = Await(v) }); th != nil {
		p.settle(th.Val, true)
	} else {
		p.settle(v, false)
	}
}

func (p *Promise) wait() {
	if c := p.done; c != nil {
		<-c
	}
}

func Async(f func() V) V {
	if Concurrent {
		p := pending()
		go func() {
			var v V
			if th := catch(func() { v = f() }); th != nil {
				p.settle(th.Val, true)
			} else if thenable(v) {
				p.follow(v)
			} else {
				p.settle(v, false)
			}
		}()
		return p
	}
	var p *Promise
	if th := catch(func() { p = settle(f()) }); th != nil {
		return &Promise{Val: th.Val, Failed: true}
	}
	return p
}

func thenable(v V) bool {
	switch v := v.(type) {
	case *Promise:
		return true
	case *Obj:
		_, ok := lookup(v, "then").(*Fn)
		return ok
	}
	return false
}

func settle(v V) *Promise {
	if p, ok := v.(*Promise); ok {
		return p
	}
	if o, ok := v.(*Obj); ok {
		if f, ok := lookup(o, "then").(*Fn); ok {
			return New(Global("Promise"), native("", func(_ V, a []V) V { return CallThis(f, o, a...) })).(*Promise)
		}
	}
	return &Promise{Val: v}
}

func Await(v V) V {
	p := settle(v)
	if p.done != nil {
		p.wait()
	} else if Concurrent {
		runtime.Gosched()
	}
	if p.Failed {
		ThrowV(p.Val)
	}
	return p.Val
}

func NewGen(f func(yield func(V) V) V) V { return &Gen{run: f, sync: true} }

func NewGenAsync(f func(yield func(V) V) V) V { return &Gen{run: f} }

func (g *Gen) all() {
	if g.ran {
		return
	}
	g.ran = true
	g.fail = catch(func() {
		g.ret = g.run(func(v V) V {
			if !g.sync {
				v = Await(v)
			}
			if len(g.items) > 1<<16 {
				Unsupported("generator without an end")
			}
			g.items = append(g.items, v)
			return nil
		})
	})
}

func YieldAll(yield func(V) V, v V) V {
	it := Iter(v)
	for it.Next() {
		yield(it.Val)
	}
	return nil
}

func Iter(v V) *Iterator {
	switch v := v.(type) {
	case *Arr:
		return &Iterator{arr: v}
	case string:
		return &Iterator{items: chars(v)}
	case *Gen:
		v.all()
		items := v.items[v.pos:]
		v.pos = len(v.items)
		return &Iterator{items: items, fail: v.fail}
	case *MapObj:
		var items []V
		for _, e := range v.E {
			items = append(items, NewArr(e.K, e.V))
		}
		return &Iterator{items: items}
	case *SetObj:
		return &Iterator{items: append([]V(nil), v.E...)}
	case *U8:
		var items []V
		for _, b := range v.bytes() {
			items = append(items, Int(b))
		}
		return &Iterator{items: items}
	}
	if o, ok := v.(*Obj); ok {
		if f := Get(o, "@@iterator"); f != nil {
			return Iter(drain(CallThis(f, o), false))
		}
		if f := Get(o, "next"); f != nil {
			panic(unsup("iterator object"))
		}
	}
	throwErr("TypeError", "value is not iterable")
	return nil
}

// drain collects what an iterator gives.
func drain(it V, await bool) V {
	switch it.(type) {
	case *Gen, *Arr, *Iterator:
		return it
	}
	o, ok := it.(*Obj)
	if !ok {
		throwErr("TypeError", "Result of the Symbol.iterator method is not an object")
	}
	r := &Arr{}
	for {
		s := CallM(o, "next")
		if await {
			s = Await(s)
		}
		if Truthy(Get(s, "done")) {
			return r
		}
		r.A = append(r.A, Get(s, "value"))
	}
}

func IterAwait(v V) *Iterator {
	if o, ok := v.(*Obj); ok {
		if f := Get(o, "@@asyncIterator"); f != nil {
			return Iter(drain(CallThis(f, o), true))
		}
	}
	it := Iter(v)
	it.await = true
	return it
}

func IterKeys(v V) *Iterator { return &Iterator{items: objKeys(v)} }

func (it *Iterator) Next() bool {
	if it.arr != nil {
		if it.pos >= len(it.arr.A) {
			return false
		}
		it.Val = it.arr.A[it.pos]
	} else {
		if it.pos >= len(it.items) {
			if f := it.fail; f != nil {
				it.fail = nil
				panic(f)
			}
			return false
		}
		it.Val = it.items[it.pos]
	}
	it.pos++
	if it.await {
		it.Val = Await(it.Val)
	}
	return true
}

func IterAll(v V) []V {
	if a, ok := v.(*Arr); ok {
		return append([]V(nil), a.A...)
	}
	var r []V
	for it := Iter(v); it.Next(); {
		r = append(r, it.Val)
	}
	return r
}

// ---- numbers

func norm(i int64) V {
	if i > maxSafe || i < -maxSafe {
		return float64(i)
	}
	return Int(i)
}

// fl makes a number of a float, an Int where it is a small integer.
// Num is a number.
func Num(f float64) V { return fl(f) }

func fl(f float64) V {
	if f == math.Trunc(f) && f <= maxSafe && f >= -maxSafe && !(f == 0 && math.Signbit(f)) {
		return Int(int64(f))
	}
	return f
}

func toF(v V) float64 {
	switch v := v.(type) {
	case Int:
		return float64(v)
	case float64:
		return v
	}
	panic(unsup("not a number"))
}

func ToNumber(v V) V {
	switch v := v.(type) {
	case Int, float64:
		return v
	case nil:
		return math.NaN()
	case NullT:
		return Int(0)
	case bool:
		if v {
			return Int(1)
		}
		return Int(0)
	case string:
		return strToNum(v)
	case Big:
		throwErr("TypeError", "Cannot convert a BigInt value to a number")
	}
	return ToNumber(prim(v))
}

func strToNum(s string) V {
	s = trim(s)
	if s == "" {
		return Int(0)
	}
	digits := true
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			digits = false
			break
		}
	}
	if digits && len(s) <= 15 {
		n := int64(0)
		for i := 0; i < len(s); i++ {
			n = n*10 + int64(s[i]-'0')
		}
		return Int(n)
	}
	if len(s) > 2 && s[0] == '0' {
		base := map[byte]int{'x': 16, 'X': 16, 'o': 8, 'O': 8, 'b': 2, 'B': 2}[s[1]]
		if base != 0 {
			n, err := strconv.ParseUint(s[2:], base, 64)
			if err != nil {
				return math.NaN()
			}
			return fl(float64(n))
		}
	}
	if s == "Infinity" || s == "+Infinity" {
		return math.Inf(1)
	}
	if s == "-Infinity" {
		return math.Inf(-1)
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E') {
			return math.NaN()
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		return math.NaN()
	}
	return fl(f)
}

func ToNumeric(v V) V {
	if b, ok := v.(Big); ok {
		return b
	}
	return ToNumber(v)
}

func Add(a, b V) V {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return norm(int64(x) + int64(y))
		}
	}
	a, b = prim(a), prim(b)
	_, as := a.(string)
	_, bs := b.(string)
	if as || bs {
		return ToStr(a) + ToStr(b)
	}
	if x, y, ok := bigs(a, b); ok {
		return x.add(y)
	}
	a, b = ToNumber(a), ToNumber(b)
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return norm(int64(x) + int64(y))
		}
	}
	return fl(toF(a) + toF(b))
}

func bigs(a, b V) (x, y Big, ok bool) {
	x, aok := a.(Big)
	y, bok := b.(Big)
	if aok != bok {
		throwErr("TypeError", "Cannot mix BigInt and other types, use explicit conversions")
	}
	return x, y, aok
}

func Sub(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return x.add(y.neg())
	}
	a, b = ToNumber(a), ToNumber(b)
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return norm(int64(x) - int64(y))
		}
	}
	return fl(toF(a) - toF(b))
}

func Mul(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return x.mul(y)
	}
	a, b = ToNumber(a), ToNumber(b)
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			// a negative and zero give -0
			if (y < 0 && x == 0) || (x < 0 && y == 0) {
				return math.Copysign(0, -1)
			}
			if small(x) && small(y) {
				return norm(int64(x) * int64(y))
			}
			hi, lo := bits.Mul64(uabs(int64(x)), uabs(int64(y)))
			if hi == 0 && lo <= maxSafe {
				return norm(int64(x) * int64(y))
			}
			return toF(a) * toF(b)
		}
	}
	return fl(toF(a) * toF(b))
}

func small(x Int) bool { return x < 1<<31 && x > -1<<31 }

func uabs(x int64) uint64 {
	if x < 0 {
		return uint64(-x)
	}
	return uint64(x)
}

func Div(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		q, _ := x.divmod(y)
		return q
	}
	a, b = ToNumber(a), ToNumber(b)
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok && y != 0 && !(x == 0 && y < 0) {
			if x%y == 0 {
				return Int(x / y)
			}
		}
	}
	return fl(toF(a) / toF(b))
}

func Mod(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		_, r := x.divmod(y)
		return r
	}
	a, b = ToNumber(a), ToNumber(b)
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok && y != 0 && x >= 0 {
			return Int(x % y)
		}
	}
	return fl(math.Mod(toF(a), toF(b)))
}

func Pow(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		r := Big{0, 1}
		for i := uint64(0); i < y.Lo; i++ {
			r = r.mul(x)
		}
		return r
	}
	x, y := ToNumber(a), ToNumber(b)
	if n, ok := y.(Int); ok && n >= 0 && n < 64 {
		r := V(Int(1))
		for i := Int(0); i < n; i++ {
			r = Mul(r, x)
		}
		return r
	}
	return fl(math.Pow(toF(x), toF(y)))
}

func Neg(a V) V {
	if x, ok := a.(Big); ok {
		return x.neg()
	}
	a = ToNumber(a)
	if x, ok := a.(Int); ok && x != 0 {
		return Int(-x)
	}
	return -toF(a)
}

func Inc(a V) V {
	if x, ok := a.(Big); ok {
		return x.add(Big{0, 1})
	}
	return Add(a, Int(1))
}

func Dec(a V) V {
	if x, ok := a.(Big); ok {
		return x.add(Big{-1, ^uint64(0)})
	}
	return Sub(a, Int(1))
}

func toI32(v V) int32 {
	v = ToNumber(v)
	if x, ok := v.(Int); ok {
		return int32(int64(x))
	}
	f := toF(v)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 0
	}
	return int32(uint32(int64(math.Mod(math.Trunc(f), 1<<32))))
}

func BitAnd(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return Big{x.Hi & y.Hi, x.Lo & y.Lo}
	}
	return Int(toI32(a) & toI32(b))
}
func BitOr(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return Big{x.Hi | y.Hi, x.Lo | y.Lo}
	}
	return Int(toI32(a) | toI32(b))
}
func BitXor(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return Big{x.Hi ^ y.Hi, x.Lo ^ y.Lo}
	}
	return Int(toI32(a) ^ toI32(b))
}
func BitNot(a V) V {
	if x, ok := a.(Big); ok {
		return Big{^x.Hi, ^x.Lo}
	}
	return Int(^toI32(a))
}
func Shl(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return x.shl(y.Lo)
	}
	return Int(toI32(a) << (uint32(toI32(b)) & 31))
}
func Shr(a, b V) V {
	if x, y, ok := bigs(a, b); ok {
		return x.shr(y.Lo)
	}
	return Int(toI32(a) >> (uint32(toI32(b)) & 31))
}
func Ushr(a, b V) V { return Int(uint32(toI32(a)) >> (uint32(toI32(b)) & 31)) }

// ---- bigint

func BigLit(s string) V {
	s = strings.ReplaceAll(s, "_", "")
	r := Big{}
	for i := 0; i < len(s); i++ {
		r = r.mul(Big{0, 10}).add(Big{0, uint64(s[i] - '0')})
	}
	return r
}

func (x Big) add(y Big) Big {
	lo, c := bits.Add64(x.Lo, y.Lo, 0)
	hi, _ := bits.Add64(uint64(x.Hi), uint64(y.Hi), c)
	return Big{int64(hi), lo}
}
func (x Big) neg() Big { return Big{^x.Hi, ^x.Lo}.add(Big{0, 1}) }
func (x Big) mul(y Big) Big {
	hi, lo := bits.Mul64(x.Lo, y.Lo)
	return Big{int64(hi + uint64(x.Hi)*y.Lo + x.Lo*uint64(y.Hi)), lo}
}
func (x Big) shl(n uint64) Big {
	for ; n > 0; n-- {
		x = x.add(x)
	}
	return x
}
func (x Big) shr(n uint64) Big {
	for ; n > 0; n-- {
		x = Big{x.Hi >> 1, x.Lo>>1 | uint64(x.Hi)<<63}
	}
	return x
}
func (x Big) divmod(y Big) (q, r Big) {
	if y == (Big{}) {
		throwErr("RangeError", "Division by zero")
	}
	nx, ny := x.Hi < 0, y.Hi < 0
	if nx {
		x = x.neg()
	}
	if ny {
		y = y.neg()
	}
	if x.Hi != 0 || y.Hi != 0 {
		panic(unsup("bigint division out of range"))
	}
	q, r = Big{0, x.Lo / y.Lo}, Big{0, x.Lo % y.Lo}
	if nx != ny {
		q = q.neg()
	}
	if nx {
		r = r.neg()
	}
	return
}
func (x Big) less(y Big) bool { return x.Hi < y.Hi || x.Hi == y.Hi && x.Lo < y.Lo }
func (x Big) num() V {
	if x.Hi == 0 && x.Lo <= maxSafe {
		return Int(int64(x.Lo))
	}
	if x.Hi == -1 && int64(x.Lo) < 0 && int64(x.Lo) >= -maxSafe {
		return Int(int64(x.Lo))
	}
	return float64(x.Hi)*(1<<64) + float64(x.Lo)
}
func bigOf(v V) V {
	switch v := v.(type) {
	case Big:
		return v
	case Int:
		return Big{int64(v) >> 63, uint64(int64(v))}
	case float64:
		if v != math.Trunc(v) || math.IsInf(v, 0) || math.IsNaN(v) {
			throwErr("RangeError", "The number cannot be converted to a BigInt because it is not an integer")
		}
		if math.Abs(v) < 1<<63 {
			return bigOf(Int(int64(v)))
		}
		if v > 0 && v < 1<<64 {
			return Big{0, uint64(v)}
		}
		panic(unsup("bigint out of range"))
	case bool:
		return bigOf(ToNumber(v))
	case string:
		return BigLit(v)
	}
	throwErr("TypeError", "Cannot convert to a BigInt")
	return nil
}

func (x Big) str() string {
	if x.Hi < 0 {
		return "-" + x.neg().str()
	}
	if x.Hi != 0 {
		return "<bigint>"
	}
	return strconv.FormatUint(x.Lo, 10)
}

// ---- comparison

func Truthy(v V) bool {
	switch v := v.(type) {
	case nil, NullT:
		return false
	case bool:
		return v
	case Int:
		return v != 0
	case float64:
		return v != 0 && v == v
	case string:
		return v != ""
	case Big:
		return v != Big{}
	}
	return true
}

func Nullish(v V) bool {
	if v == nil {
		return true
	}
	_, ok := v.(NullT)
	return ok
}

func SEq(a, b V) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case NullT:
		_, ok := b.(NullT)
		return ok
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case Int:
		switch y := b.(type) {
		case Int:
			return x == y
		case float64:
			return float64(x) == y
		}
		return false
	case float64:
		switch y := b.(type) {
		case Int:
			return x == float64(y)
		case float64:
			return x == y
		}
		return false
	case Big:
		y, ok := b.(Big)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	}
	switch b.(type) {
	case nil, NullT, bool, Int, float64, Big, string:
		return false
	}
	return a == b
}

func LEq(a, b V) bool {
	if Nullish(a) || Nullish(b) {
		return Nullish(a) && Nullish(b)
	}
	ta, tb := TypeOf(a), TypeOf(b)
	if ta == tb {
		return SEq(a, b)
	}
	if ta == "object" || ta == "function" {
		a = prim(a)
	}
	if tb == "object" || tb == "function" {
		b = prim(b)
	}
	if x, ok := a.(bool); ok {
		a = ToNumber(x)
	}
	if x, ok := b.(bool); ok {
		b = ToNumber(x)
	}
	ta, tb = TypeOf(a), TypeOf(b)
	if ta == tb {
		return SEq(a, b)
	}
	if x, ok := a.(Big); ok {
		return SEq(x.num(), ToNumber(b))
	}
	if y, ok := b.(Big); ok {
		return SEq(ToNumber(a), y.num())
	}
	return SEq(ToNumber(a), ToNumber(b))
}

// cmp returns -1, 0, 1, or 2 when there is no order.
func cmp(a, b V) int {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			if x < y {
				return -1
			}
			if x > y {
				return 1
			}
			return 0
		}
	}
	a, b = prim(a), prim(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return cmpStr(x, y)
		}
	}
	if x, ok := a.(Big); ok {
		if y, ok := b.(Big); ok {
			if x.less(y) {
				return -1
			}
			if x == y {
				return 0
			}
			return 1
		}
		a = x.num()
	}
	if y, ok := b.(Big); ok {
		b = y.num()
	}
	a, b = ToNumber(a), ToNumber(b)
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			if x < y {
				return -1
			}
			if x > y {
				return 1
			}
			return 0
		}
	}
	f, g := toF(a), toF(b)
	if f < g {
		return -1
	}
	if f > g {
		return 1
	}
	if f == g {
		return 0
	}
	return 2
}

func cmpStr(x, y string) int {
	if !ascii(x) || !ascii(y) {
		u, w := units(x), units(y)
		for i := 0; i < len(u) && i < len(w); i++ {
			if u[i] != w[i] {
				if u[i] < w[i] {
					return -1
				}
				return 1
			}
		}
		return len(u) - len(w)
	}
	return strings.Compare(x, y)
}

func Lt(a, b V) bool {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return x < y
		}
	}
	return cmp(a, b) < 0
}
func Gt(a, b V) bool {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return x > y
		}
	}
	return cmp(a, b) == 1
}
func Le(a, b V) bool {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return x <= y
		}
	}
	return cmp(a, b) <= 0
}
func Ge(a, b V) bool {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return x >= y
		}
	}
	c := cmp(a, b)
	return c == 0 || c == 1
}

func AndV(a V, b func() V) V {
	if Truthy(a) {
		return b()
	}
	return a
}
func OrV(a V, b func() V) V {
	if Truthy(a) {
		return a
	}
	return b()
}
func NullishV(a V, b func() V) V {
	if Nullish(a) {
		return b()
	}
	return a
}
func CondV(c bool, a, b func() V) V {
	if c {
		return a()
	}
	return b()
}

func TypeOf(v V) V {
	switch v.(type) {
	case nil:
		return "undefined"
	case bool:
		return "boolean"
	case Int, float64:
		return "number"
	case Big:
		return "bigint"
	case string:
		return "string"
	case *Fn, *Class:
		return "function"
	}
	return "object"
}

func TypeOfGlobal(name string) V {
	var v V
	if catch(func() { v = Global(name) }) != nil {
		return "undefined"
	}
	return TypeOf(v)
}

// ---- strings (UTF-8; lone surrogates as three bytes)

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func units(s string) []uint16 {
	var u []uint16
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c < 0x80:
			u = append(u, uint16(c))
			i++
		case c < 0xe0 && i+1 < len(s):
			u = append(u, uint16(c&0x1f)<<6|uint16(s[i+1]&0x3f))
			i += 2
		case c < 0xf0 && i+2 < len(s):
			u = append(u, uint16(c&0xf)<<12|uint16(s[i+1]&0x3f)<<6|uint16(s[i+2]&0x3f))
			i += 3
		case i+3 < len(s):
			r := uint32(c&7)<<18 | uint32(s[i+1]&0x3f)<<12 | uint32(s[i+2]&0x3f)<<6 | uint32(s[i+3]&0x3f)
			r -= 0x10000
			u = append(u, 0xd800|uint16(r>>10), 0xdc00|uint16(r&0x3ff))
			i += 4
		default:
			panic(unsup("malformed string"))
		}
	}
	return u
}

func fromUnits(u []uint16) string {
	b := make([]byte, 0, len(u))
	for i := 0; i < len(u); i++ {
		c := u[i]
		switch {
		case c < 0x80:
			b = append(b, byte(c))
		case c < 0x800:
			b = append(b, 0xc0|byte(c>>6), 0x80|byte(c&0x3f))
		case c >= 0xd800 && c < 0xdc00 && i+1 < len(u) && u[i+1] >= 0xdc00 && u[i+1] < 0xe000:
			r := 0x10000 + (uint32(c)&0x3ff)<<10 | uint32(u[i+1])&0x3ff
			r = 0x10000 + ((uint32(c)&0x3ff)<<10 | uint32(u[i+1])&0x3ff)
			b = append(b, 0xf0|byte(r>>18), 0x80|byte(r>>12&0x3f), 0x80|byte(r>>6&0x3f), 0x80|byte(r&0x3f))
			i++
		default:
			b = append(b, 0xe0|byte(c>>12), 0x80|byte(c>>6&0x3f), 0x80|byte(c&0x3f))
		}
	}
	return string(b)
}

func strLen(s string) int {
	if ascii(s) {
		return len(s)
	}
	return len(units(s))
}

func substr(s string, i, j int) string {
	if ascii(s) {
		return s[i:j]
	}
	return fromUnits(units(s)[i:j])
}

// chars are the code points of a string.
func chars(s string) []V {
	var r []V
	if ascii(s) {
		for i := 0; i < len(s); i++ {
			r = append(r, s[i:i+1])
		}
		return r
	}
	u := units(s)
	for i := 0; i < len(u); i++ {
		n := 1
		if u[i] >= 0xd800 && u[i] < 0xdc00 && i+1 < len(u) && u[i+1] >= 0xdc00 && u[i+1] < 0xe000 {
			n = 2
		}
		r = append(r, fromUnits(u[i:i+n]))
		i += n - 1
	}
	return r
}

func isSpace(c rune) bool {
	switch c {
	case ' ', '\t', '\n', '\v', '\f', '\r', 0xa0, 0xfeff, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return c >= 0x2000 && c <= 0x200a
}

func trim(s string) string {
	i, j := 0, len(s)
	if ascii(s) {
		for i < j && isSpace(rune(s[i])) {
			i++
		}
		for i < j && isSpace(rune(s[j-1])) {
			j--
		}
		return s[i:j]
	}
	return strings.TrimFunc(s, isSpace)
}

func Cat(parts ...V) V {
	s := ""
	for _, p := range parts {
		s += ToStr(p)
	}
	return s
}

func prim(v V) V {
	switch v.(type) {
	case nil, NullT, bool, Int, float64, Big, string:
		return v
	case *Obj:
		if f, ok := Get(v, "valueOf").(*Fn); ok && f.user {
			switch r := CallThis(f, v).(type) {
			case nil, NullT, bool, Int, float64, Big, string:
				return r
			}
		}
	}
	return ToStr(v)
}

func ToStr(v V) string {
	switch v := v.(type) {
	case nil:
		return "undefined"
	case NullT:
		return "null"
	case bool:
		if v {
			return "true"
		}
		return "false"
	case Int:
		return strconv.FormatInt(int64(v), 10)
	case float64:
		return numStr(v)
	case Big:
		return v.str()
	case string:
		return v
	case *Arr:
		s := ""
		for i, e := range v.A {
			if i > 0 {
				s += ","
			}
			if !Nullish(e) {
				s += ToStr(e)
			}
		}
		return s
	case *Obj:
		if f := lookup(v, "toString"); f != nil {
			return ToStr(CallThis(f, v))
		}
		if isError(v) {
			n := ToStr(Get(v, "name"))
			m := ToStr(Get(v, "message"))
			if m == "" {
				return n
			}
			return n + ": " + m
		}
		return "[object Object]"
	case *Fn:
		return "function " + v.Name
	case *Class:
		return "class " + v.Name
	case *Promise:
		return "[object Promise]"
	case *U8:
		s := ""
		for i, b := range v.bytes() {
			if i > 0 {
				s += ","
			}
			s += strconv.Itoa(int(b))
		}
		return s
	}
	return "[object]"
}

func numStr(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	case f == 0:
		return "0"
	}
	a := math.Abs(f)
	if a >= 1e21 || a < 1e-6 {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		// JavaScript writes exponents without leading zeros
		i := strings.IndexByte(s, 'e')
		m, e := s[:i], s[i+2:]
		for len(e) > 1 && e[0] == '0' {
			e = e[1:]
		}
		return m + "e" + s[i+1:i+2] + e
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

var _ = utf8.RuneError
