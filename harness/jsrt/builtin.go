package jsrt

import (
	"encoding/binary"
	"math"
	"runtime"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/zz_verif/sym"
)

type Entry struct{ K, V V }
type MapObj struct{ E []Entry }
type SetObj struct{ E []V }
type Buf struct{ B []byte }
type U8 struct {
	buf    *Buf
	off, n int
}
type View struct {
	buf    *Buf
	off, n int
}
type encoder struct{}
type decoder struct{}

// RandomFn stands for Math.random.
var RandomFn = func() float64 { return 0.5 }

var globals = map[string]V{}

var globalThis = &Obj{}

func cls(name string, build func(args []V) V, props ...V) *Class {
	c := &Class{Name: name, build: build, Props: []Prop{{"builtin", true}}}
	for i := 0; i+1 < len(props); i += 2 {
		c.Props = append(c.Props, Prop{props[i].(string), props[i+1]})
	}
	return c
}

func fn(f func(args []V) V) V { return &Fn{F: func(_ V, args []V) V { return f(args) }} }

func (u *U8) bytes() []byte { return u.buf.B[u.off : u.off+u.n] }
func (u *U8) get(i int) V   { return Int(u.buf.B[u.off+i]) }

// BytesOf are the bytes of an ArrayBuffer or a view of one.
func BytesOf(v V) ([]byte, bool) {
	switch v := v.(type) {
	case *Buf:
		return v.B, true
	case *U8:
		return v.bytes(), true
	}
	return nil, false
}

func NewBuf(b []byte) *Buf { return &Buf{b} }
func newU8(b []byte) *U8   { return &U8{&Buf{b}, 0, len(b)} }

// Global is a global binding.
func Global(name string) V {
	if i := find(globalThis.Props, name); i >= 0 {
		return globalThis.Props[i].V
	}
	if v, ok := globals[name]; ok {
		return v
	}
	v := makeGlobal(name)
	globals[name] = v
	return v
}

func intArg(args []V, i int, def int) int {
	v := Arg(args, i)
	if v == nil {
		return def
	}
	switch n := ToNumber(v).(type) {
	case Int:
		if n > 1<<40 {
			return 1 << 40
		}
		if n < -1<<40 {
			return -1 << 40
		}
		return int(n)
	case float64:
		if n != n {
			return 0
		}
		if n > 1<<40 {
			return 1 << 40
		}
		if n < -1<<40 {
			return -1 << 40
		}
		return int(math.Trunc(n))
	}
	return def
}

// rel is a position relative to either end of n elements.
func rel(i, n int) int {
	if i < 0 {
		return max(0, n+i)
	}
	return min(i, n)
}

func errClass(name string) *Class {
	c := &Class{Name: name, Props: []Prop{{"builtin", true}}}
	c.ctor = func(this V, args []V) {
		if m := Arg(args, 0); m != nil {
			PutOwn(this, "message", ToStr(m))
		}
		if o, ok := Arg(args, 1).(*Obj); ok {
			if i := find(o.Props, "cause"); i >= 0 {
				PutOwn(this, "cause", o.Props[i].V)
			}
		}
	}
	if name != "Error" {
		c.Super = Global("Error")
	}
	return c
}

func makeGlobal(name string) V {
	switch name {
	case "undefined":
		return nil
	case "Infinity":
		return math.Inf(1)
	case "NaN":
		return math.NaN()
	case "globalThis":
		return globalThis
	case "console":
		no := fn(func([]V) V { return nil })
		return NewObj("log", no, "warn", no, "error", no, "info", no, "debug", no)
	case "Error", "TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError":
		return errClass(name)
	case "ReadableStreamBYOBReader", "ReadableStream", "ReadableStreamDefaultReader", "Response", "Function":
		return cls(name, func([]V) V { panic(unsup("new " + name)) })
	case "Object":
		return cls(name, func(args []V) V { return NewObj() },
			"keys", fn(func(a []V) V { return NewArr(objKeys(NeedObj(Arg(a, 0)))...) }),
			"values", fn(func(a []V) V {
				var r []V
				for _, k := range objKeys(NeedObj(Arg(a, 0))) {
					r = append(r, GetI(a[0], k))
				}
				return NewArr(r...)
			}),
			"entries", fn(func(a []V) V {
				var r []V
				for _, k := range objKeys(NeedObj(Arg(a, 0))) {
					r = append(r, NewArr(k, GetI(a[0], k)))
				}
				return NewArr(r...)
			}),
			"assign", fn(func(a []V) V {
				for _, s := range a[1:] {
					ObjAssign(a[0], s)
				}
				return a[0]
			}),
			"fromEntries", fn(func(a []V) V {
				o := NewObj()
				for _, e := range IterAll(a[0]) {
					PutI(o, GetI(e, Int(0)), GetI(e, Int(1)))
				}
				return o
			}),
			"freeze", fn(func(a []V) V { return Arg(a, 0) }),
			"getOwnPropertyNames", fn(func(a []V) V { return NewArr(objKeys(NeedObj(Arg(a, 0)))...) }),
			"create", fn(func(a []V) V { return NewObj() }),
			"is", fn(func(a []V) V { return sameValue(Arg(a, 0), Arg(a, 1)) }),
			"prototype", NewObj("hasOwnProperty", native("hasOwnProperty", func(this V, a []V) V { return hasOwn(this, Key(Arg(a, 0))) })),
			"hasOwn", fn(func(a []V) V { return hasOwn(Arg(a, 0), Key(Arg(a, 1))) }),
		)
	case "Array":
		return cls(name, func(args []V) V {
			if len(args) == 1 {
				if n, ok := args[0].(Int); ok {
					if n < 0 || n >= 1<<32 {
						throwErr("RangeError", "Invalid array length")
					}
					return &Arr{A: make([]V, int(n))}
				}
				if _, ok := args[0].(float64); ok {
					throwErr("RangeError", "Invalid array length")
				}
			}
			return NewArr(args...)
		},
			"isArray", fn(func(a []V) V { _, ok := Arg(a, 0).(*Arr); return ok }),
			"of", fn(func(a []V) V { return NewArr(a...) }),
			"from", fn(func(a []V) V {
				var items []V
				switch s := a[0].(type) {
				case *Obj:
					n := intArg([]V{Get(s, "length")}, 0, 0)
					for i := 0; i < n; i++ {
						items = append(items, GetI(s, Int(i)))
					}
				default:
					items = IterAll(s)
				}
				if f := Arg(a, 1); f != nil {
					for i := range items {
						items[i] = Call(f, items[i], Int(i))
					}
				}
				return &Arr{A: items}
			}),
		)
	case "Number":
		return cls(name, func(args []V) V { panic(unsup("new Number")) },
			"MAX_SAFE_INTEGER", Int(maxSafe-1), "MIN_SAFE_INTEGER", Int(-maxSafe+1),
			"POSITIVE_INFINITY", math.Inf(1), "NEGATIVE_INFINITY", math.Inf(-1), "NaN", math.NaN(), "MAX_VALUE", math.MaxFloat64, "EPSILON", 0x1p-52,
			"isInteger", fn(func(a []V) V { return isInt(Arg(a, 0)) }),
			"isSafeInteger", fn(func(a []V) V { n, ok := Arg(a, 0).(Int); return ok && n < maxSafe && n > -maxSafe }),
			"isFinite", fn(func(a []V) V {
				switch n := Arg(a, 0).(type) {
				case Int:
					return true
				case float64:
					return !math.IsNaN(n) && !math.IsInf(n, 0)
				}
				return false
			}),
			"isNaN", fn(func(a []V) V { f, ok := Arg(a, 0).(float64); return ok && f != f }),
			"parseInt", fn(parseInt), "parseFloat", fn(parseFloat),
		)
	case "String":
		return cls(name, func(args []V) V { panic(unsup("new String")) },
			"fromCharCode", fn(func(a []V) V {
				var u []uint16
				for _, c := range a {
					u = append(u, uint16(toI32(c)))
				}
				return fromUnits(u)
			}),
			"fromCodePoint", fn(func(a []V) V {
				s := ""
				for _, c := range a {
					s += string(rune(toI32(c)))
				}
				return s
			}))
	case "Boolean":
		return cls(name, func(args []V) V { panic(unsup("new Boolean")) })
	case "BigInt":
		return cls(name, func(args []V) V { throwErr("TypeError", "BigInt is not a constructor"); return nil },
			"asUintN", fn(func(a []V) V {
				b := Arg(a, 1).(Big)
				switch n := intArg(a, 0, 0); {
				case n == 64:
					return Big{0, b.Lo}
				case n < 64:
					return Big{0, b.Lo & (1<<uint(n) - 1)}
				}
				panic(unsup("BigInt.asUintN"))
			}))
	case "Math":
		return mathObj()
	case "JSON":
		return NewObj("parse", fn(func(a []V) V { return jsonParse(ToStr(Arg(a, 0))) }),
			"stringify", fn(func(a []V) V {
				if len(a) > 1 && (Truthy(a[1]) || Truthy(Arg(a, 2))) {
					Unsupported("JSON.stringify with a replacer or an indentation")
				}
				s, ok := jsonStr(Arg(a, 0))
				if !ok {
					return nil
				}
				return s
			}))
	case "Map":
		return cls(name, func(args []V) V {
			m := &MapObj{}
			if !Nullish(Arg(args, 0)) {
				for _, e := range IterAll(args[0]) {
					m.set(GetI(e, Int(0)), GetI(e, Int(1)))
				}
			}
			return m
		})
	case "Set":
		return cls(name, func(args []V) V {
			m := &SetObj{}
			if !Nullish(Arg(args, 0)) {
				for _, e := range IterAll(args[0]) {
					m.add(e)
				}
			}
			return m
		})
	case "WeakSet":
		return cls(name, func(args []V) V { return &SetObj{} })
	case "WeakMap":
		return cls(name, func(args []V) V { return &MapObj{} })
	case "Promise":
		return cls(name, func(args []V) V {
			p := pending()
			done := false
			res := fn(func(a []V) V {
				if !done {
					done = true
					if v := Arg(a, 0); !thenable(v) {
						p.settle(v, false)
					} else if Concurrent {
						go p.follow(v)
					} else {
						p.follow(v)
					}
				}
				return nil
			})
			rej := fn(func(a []V) V {
				if !done {
					done = true
					p.settle(Arg(a, 0), true)
				}
				return nil
			})
			if th := catch(func() { Call(args[0], res, rej) }); th != nil && !done {
				done = true
				p.settle(th.Val, true)
			}
			if !done && !Concurrent {
				panic(unsup("promise that is settled later"))
			}
			return p
		},
			"resolve", fn(func(a []V) V { return settle(Arg(a, 0)) }),
			"reject", fn(func(a []V) V { return &Promise{Val: Arg(a, 0), Failed: true} }),
			"race", fn(func(a []V) V {
				p := pending()
				for _, e := range IterAll(Arg(a, 0)) {
					if !Concurrent {
						return settle(e)
					}
					go p.follow(e)
				}
				if !Concurrent {
					panic(unsup("Promise.race of nothing"))
				}
				return p
			}),
			"any", fn(func(a []V) V {
				for _, e := range IterAll(Arg(a, 0)) {
					if p := settle(e); p.done != nil {
						break
					} else if !p.Failed {
						return p
					}
				}
				panic(unsup("Promise.any without success"))
			}),
			"all", fn(func(a []V) V {
				return Async(func() V {
					r := &Arr{}
					for _, e := range IterAll(Arg(a, 0)) {
						r.A = append(r.A, Await(e))
					}
					return r
				})
			}),
			"allSettled", fn(func(a []V) V {
				return Async(func() V {
					r := &Arr{}
					for _, e := range IterAll(Arg(a, 0)) {
						p := settle(e)
						p.wait()
						if p.Failed {
							r.A = append(r.A, NewObj("status", "rejected", "reason", p.Val))
						} else {
							r.A = append(r.A, NewObj("status", "fulfilled", "value", p.Val))
						}
					}
					return r
				})
			}))
	case "ArrayBuffer":
		return cls(name, func(args []V) V {
			n := intArg(args, 0, 0)
			if n < 0 || n > 1<<31 {
				throwErr("RangeError", "Array buffer allocation failed")
			}
			return &Buf{make([]byte, n)}
		}, "isView", fn(func(a []V) V {
			switch Arg(a, 0).(type) {
			case *U8, *View:
				return true
			}
			return false
		}))
	case "Uint8Array":
		return cls(name, func(args []V) V {
			switch a := Arg(args, 0).(type) {
			case *Buf:
				off := intArg(args, 1, 0)
				n := intArg(args, 2, len(a.B)-off)
				if off < 0 || n < 0 || off+n > len(a.B) {
					throwErr("RangeError", "Invalid typed array length")
				}
				return &U8{a, off, n}
			case nil:
				return newU8(nil)
			case Int:
				if a < 0 || a > 1<<31 {
					throwErr("RangeError", "Invalid typed array length: "+ToStr(a))
				}
				return newU8(make([]byte, int(a)))
			case *U8:
				return newU8(append([]byte(nil), a.bytes()...))
			case *Arr, *SetObj, *Gen:
				return newU8(toBytes(IterAll(a)))
			}
			panic(unsup("new Uint8Array"))
		}, "from", fn(func(a []V) V { return newU8(toBytes(IterAll(a[0]))) }), "of", fn(func(a []V) V { return newU8(toBytes(a)) }), "BYTES_PER_ELEMENT", Int(1))
	case "DataView":
		return cls(name, func(args []V) V {
			b, ok := Arg(args, 0).(*Buf)
			if !ok {
				throwErr("TypeError", "First argument to DataView constructor must be an ArrayBuffer")
			}
			off := intArg(args, 1, 0)
			if off < 0 || off > len(b.B) {
				throwErr("RangeError", "Start offset is outside the bounds of the buffer")
			}
			n := intArg(args, 2, len(b.B)-off)
			if n < 0 || off+n > len(b.B) {
				throwErr("RangeError", "Invalid DataView length")
			}
			return &View{b, off, n}
		})
	case "TextEncoder":
		return cls(name, func([]V) V { return encoder{} })
	case "TextDecoder":
		return cls(name, func(a []V) V {
			if len(a) > 0 {
				switch s, _ := a[0].(string); lower(s) {
				case "utf-8", "utf8":
				default:
					panic(unsup("TextDecoder for another encoding"))
				}
			}
			if len(a) > 1 {
				panic(unsup("TextDecoder with options"))
			}
			return decoder{}
		})
	case "setTimeout", "setImmediate":
		return fn(func(a []V) V {
			if !Concurrent {
				Unsupported("timer")
			}
			go func() {
				sym.Idle()
				Call(Arg(a, 0))
			}()
			return Int(1)
		})
	case "queueMicrotask":
		return fn(func(a []V) V {
			if !Concurrent {
				Unsupported("queueMicrotask")
			}
			go func() {
				runtime.Gosched()
				Call(Arg(a, 0))
			}()
			return nil
		})
	case "RegExp":
		return cls(name, func(a []V) V { return NewRegex(ToStr(Arg(a, 0)), ToStr(OrV(Arg(a, 1), func() V { return "" }))) })
	case "parseInt":
		return fn(parseInt)
	case "parseFloat":
		return fn(parseFloat)
	case "isNaN":
		return fn(func(a []V) V { f, ok := ToNumber(Arg(a, 0)).(float64); return ok && f != f })
	case "isFinite":
		return fn(func(a []V) V {
			f, ok := ToNumber(Arg(a, 0)).(float64)
			return !ok || !(math.IsNaN(f) || math.IsInf(f, 0))
		})
	case "Symbol":
		return NewObj("iterator", "@@iterator", "asyncIterator", "@@asyncIterator", "toStringTag", "@@toStringTag")
	}
	if strings.Contains(globalNames, " "+name+" ") {
		panic(unsup("global " + name))
	}
	throwErr("ReferenceError", name+" is not defined")
	return nil
}

func callBuiltin(c *Class, args []V) V {
	switch c.Name {
	case "Number":
		if len(args) == 0 {
			return Int(0)
		}
		if b, ok := args[0].(Big); ok {
			return b.num()
		}
		return ToNumber(args[0])
	case "String":
		if len(args) == 0 {
			return ""
		}
		return ToStr(args[0])
	case "Boolean":
		return Truthy(Arg(args, 0))
	case "BigInt":
		return bigOf(Arg(args, 0))
	case "Object":
		if v := Arg(args, 0); !Nullish(v) {
			switch v.(type) {
			case bool, Int, float64, Big, string:
				return NewObj("value", v)
			}
			return v
		}
		return NewObj()
	case "Array", "RegExp":
		return c.build(args)
	case "Error", "TypeError", "RangeError", "SyntaxError", "ReferenceError", "EvalError":
		return New(c, args...)
	}
	throwErr("TypeError", "Class constructor "+c.Name+" cannot be invoked without 'new'")
	return nil
}

func isInt(v V) bool {
	switch n := v.(type) {
	case Int:
		return true
	case float64:
		return n == math.Trunc(n) && !math.IsInf(n, 0)
	}
	return false
}

func hasOwn(o V, k string) bool {
	switch x := o.(type) {
	case *Obj:
		return find(x.Props, k) >= 0 || find(x.Getter, k) >= 0
	case *Class:
		return find(x.Props, k) >= 0
	case *Arr:
		i, ok := index(k)
		return k == "length" || ok && i < len(x.A)
	}
	return false
}

func parseInt(a []V) V {
	s := trim(ToStr(Arg(a, 0)))
	base := intArg(a, 1, 10)
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if (base == 16 || Arg(a, 1) == nil) && len(s) > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s, base = s[2:], 16
	}
	n, i := V(Int(0)), 0
	for ; i < len(s); i++ {
		d := 99
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'z':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'Z':
			d = int(c-'A') + 10
		}
		if d >= base {
			break
		}
		n = Add(Mul(n, Int(base)), Int(d))
	}
	if i == 0 {
		return math.NaN()
	}
	if neg {
		return Neg(n)
	}
	return n
}

func parseFloat(a []V) V {
	s := trim(ToStr(Arg(a, 0)))
	for n := len(s); n > 0; n-- {
		v := strToNum(s[:n])
		if f, ok := v.(float64); !ok || f == f {
			return v
		}
	}
	return math.NaN()
}

func toBytes(items []V) []byte {
	b := make([]byte, len(items))
	for i, v := range items {
		b[i] = byte(toI32(v))
	}
	return b
}

func mathObj() V {
	f1 := func(f func(float64) float64) V {
		return fn(func(a []V) V {
			v := ToNumber(Arg(a, 0))
			return fl(f(toF(v)))
		})
	}
	round := func(f func(float64) float64) V {
		return fn(func(a []V) V {
			v := ToNumber(Arg(a, 0))
			if _, ok := v.(Int); ok {
				return v
			}
			return fl(f(toF(v)))
		})
	}
	ext := func(less func(a, b V) bool, none float64) V {
		return fn(func(a []V) V {
			r := V(none)
			for i, v := range a {
				v = ToNumber(v)
				if f, ok := v.(float64); ok && f != f {
					return v
				}
				if i == 0 || less(v, r) {
					r = v
				}
			}
			return r
		})
	}
	return NewObj("floor", round(math.Floor), "ceil", round(math.Ceil), "trunc", round(math.Trunc),
		"round", round(func(f float64) float64 { return math.Floor(f + 0.5) }),
		"sqrt", f1(math.Sqrt), "log", f1(math.Log), "log2", f1(math.Log2), "log10", f1(math.Log10), "log1p", f1(math.Log1p), "exp", f1(math.Exp),
		"abs", fn(func(a []V) V {
			v := ToNumber(Arg(a, 0))
			if n, ok := v.(Int); ok {
				if n < 0 {
					return -n
				}
				return n
			}
			return math.Abs(toF(v))
		}),
		"sign", fn(func(a []V) V {
			v := ToNumber(Arg(a, 0))
			if Lt(v, Int(0)) {
				return Int(-1)
			}
			if Gt(v, Int(0)) {
				return Int(1)
			}
			return v
		}),
		"pow", fn(func(a []V) V { return Pow(Arg(a, 0), Arg(a, 1)) }),
		"min", ext(Lt, math.Inf(1)), "max", ext(Gt, math.Inf(-1)),
		"imul", fn(func(a []V) V { return Int(toI32(Arg(a, 0)) * toI32(Arg(a, 1))) }),
		"random", fn(func([]V) V { return RandomFn() }),
		"PI", math.Pi, "E", math.E, "LN2", math.Ln2)
}

// sameZero is the equality of Map and Set.
func sameZero(a, b V) bool {
	if f, ok := a.(float64); ok && f != f {
		g, ok := b.(float64)
		return ok && g != g
	}
	return SEq(a, b)
}

func sameValue(a, b V) bool {
	if f, ok := a.(float64); ok && f == 0 {
		g, ok := b.(float64)
		return ok && g == 0
	}
	if g, ok := b.(float64); ok && g == 0 {
		return false
	}
	return sameZero(a, b)
}

func (m *MapObj) find(k V) int {
	for i := range m.E {
		if sameZero(m.E[i].K, k) {
			return i
		}
	}
	return -1
}

func (m *MapObj) set(k, v V) {
	if i := m.find(k); i >= 0 {
		m.E[i].V = v
		return
	}
	m.E = append(m.E, Entry{k, v})
}

func (m *SetObj) find(k V) int {
	for i := range m.E {
		if sameZero(m.E[i], k) {
			return i
		}
	}
	return -1
}

func (m *SetObj) add(k V) {
	if m.find(k) < 0 {
		m.E = append(m.E, k)
	}
}

// method gives a built-in method bound to its receiver.
func method(o V, name string) func(args []V) V {
	switch x := o.(type) {
	case *Arr:
		return arrMethod(x, name)
	case string:
		return strMethod(x, name)
	case *MapObj:
		return mapMethod(x, name)
	case *SetObj:
		return setMethod(x, name)
	case *Buf:
		if name == "slice" {
			return func(a []V) V {
				i, j := rel(intArg(a, 0, 0), len(x.B)), rel(intArg(a, 1, len(x.B)), len(x.B))
				if j < i {
					j = i
				}
				return &Buf{append(make([]byte, 0, j-i), x.B[i:j]...)}
			}
		}
	case *U8:
		return u8Method(x, name)
	case *View:
		return viewMethod(x, name)
	case *Promise:
		return promiseMethod(x, name)
	case *Gen:
		return genMethod(x, name)
	case *Iterator:
		switch name {
		case "next":
			return func([]V) V {
				if x.Next() {
					return NewObj("value", x.Val, "done", false)
				}
				return NewObj("value", nil, "done", true)
			}
		}
	case *Regex:
		return regexMethod(x, name)
	case encoder:
		if name == "encode" {
			return func(a []V) V {
				if Arg(a, 0) == nil {
					return newU8(nil)
				}
				return newU8(utf8Bytes(ToStr(a[0])))
			}
		}
	case decoder:
		if name == "decode" {
			return func(a []V) V {
				switch b := Arg(a, 0).(type) {
				case nil:
					return ""
				case *Buf:
					return decode(b.B)
				case *U8:
					return decode(b.bytes())
				case *View:
					return decode(b.buf.B[b.off : b.off+b.n])
				}
				throwErr("TypeError", "The \"list\" argument must be an instance of ArrayBuffer or ArrayBufferView.")
				return nil
			}
		}
	case *Obj:
		if lookup(x, name) != nil || find(x.Getter, name) >= 0 {
			return nil
		}
		switch name {
		case "hasOwnProperty":
			return func(a []V) V { return hasOwn(x, Key(Arg(a, 0))) }
		case "toString":
			return func(a []V) V { return ToStr(x) }
		}
	case *Fn:
		if find(x.Props, name) >= 0 {
			return nil
		}
		switch name {
		case "call":
			return func(a []V) V { return x.F(Arg(a, 0), RestArgs(a, 1).(*Arr).A) }
		case "apply":
			return func(a []V) V {
				var args []V
				if !Nullish(Arg(a, 1)) {
					args = IterAll(a[1])
				}
				return x.F(Arg(a, 0), args)
			}
		case "bind":
			return func(a []V) V {
				return native(x.Name, func(_ V, b []V) V {
					return x.F(Arg(a, 0), append(append([]V(nil), RestArgs(a, 1).(*Arr).A...), b...))
				})
			}
		}
	case Int, float64:
		switch name {
		case "toString":
			return func(a []V) V {
				if r := intArg(a, 0, 10); r != 10 {
					return strconv.FormatInt(int64(o.(Int)), r)
				}
				return ToStr(o)
			}
		case "toFixed":
			return func(a []V) V { return strconv.FormatFloat(toF(o), 'f', intArg(a, 0, 0), 64) }
		case "valueOf":
			return func(a []V) V { return o }
		}
	case Big, bool:
		if name == "toString" {
			return func(a []V) V { return ToStr(o) }
		}
	}
	return nil
}

// utf8Bytes encodes a string; lone surrogates become U+FFFD.
func utf8Bytes(s string) []byte {
	b := []byte(s)
	if ascii(s) {
		return b
	}
	for i := 0; i+2 < len(b); i++ {
		if b[i] == 0xed && b[i+1] >= 0xa0 {
			b[i], b[i+1], b[i+2] = 0xef, 0xbf, 0xbd
		}
	}
	return b
}

// decode reads UTF-8 as TextDecoder does.
func decode(b []byte) string {
	plain := true
	for _, c := range b {
		if c >= 0x80 {
			plain = false
			break
		}
	}
	if plain {
		return string(b)
	}
	if len(b) >= 3 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf {
		b = b[3:]
	}
	var out []byte
	for i := 0; i < len(b); {
		c := b[i]
		if c < 0x80 {
			out = append(out, c)
			i++
			continue
		}
		n, lo, hi := 0, byte(0x80), byte(0xbf)
		switch {
		case c >= 0xc2 && c <= 0xdf:
			n = 1
		case c >= 0xe0 && c <= 0xef:
			n = 2
			if c == 0xe0 {
				lo = 0xa0
			}
			if c == 0xed {
				hi = 0x9f
			}
		case c >= 0xf0 && c <= 0xf4:
			n = 3
			if c == 0xf0 {
				lo = 0x90
			}
			if c == 0xf4 {
				hi = 0x8f
			}
		}
		if n == 0 {
			out = append(out, 0xef, 0xbf, 0xbd)
			i++
			continue
		}
		k := 1
		for k <= n && i+k < len(b) && b[i+k] >= lo && b[i+k] <= hi {
			lo, hi = 0x80, 0xbf
			k++
		}
		if k <= n {
			out = append(out, 0xef, 0xbf, 0xbd)
		} else {
			out = append(out, b[i:i+k]...)
		}
		i += k
	}
	return string(out)
}

func promiseMethod(p *Promise, name string) func(args []V) V {
	// a settled promise calls back at once unless others could tell
	wait := func() {
		if p.done != nil {
			p.wait()
		} else if Concurrent {
			runtime.Gosched()
		}
	}
	switch name {
	case "then":
		return func(a []V) V {
			if !Concurrent && (Arg(a, 0) == nil || p.Failed) && (Arg(a, 1) == nil || !p.Failed) {
				return p
			}
			return Async(func() V {
				wait()
				f := Arg(a, 0)
				if p.Failed {
					f = Arg(a, 1)
				}
				if f == nil {
					return p
				}
				return Call(f, p.Val)
			})
		}
	case "catch":
		return func(a []V) V { return promiseMethod(p, "then")([]V{nil, Arg(a, 0)}) }
	case "finally":
		return func(a []V) V {
			return Async(func() V {
				wait()
				Await(Call(a[0]))
				return p
			})
		}
	}
	return nil
}

func genMethod(g *Gen, name string) func(args []V) V {
	switch name {
	case "next":
		return func(a []V) V {
			if Arg(a, 0) != nil {
				Unsupported("value sent into a generator")
			}
			step := func() V {
				g.all()
				if g.pos < len(g.items) {
					g.pos++
					return NewObj("value", g.items[g.pos-1], "done", false)
				}
				if f := g.fail; f != nil {
					g.fail = nil
					panic(f)
				}
				r := g.ret
				g.ret = nil
				return NewObj("value", r, "done", true)
			}
			if g.sync {
				return step()
			}
			return Async(step)
		}
	case "return":
		return func(a []V) V {
			g.ran, g.items, g.pos, g.fail = true, nil, 0, nil
			r := NewObj("value", Arg(a, 0), "done", true)
			if g.sync {
				return r
			}
			return settle(r)
		}
	}
	return nil
}

func mapMethod(m *MapObj, name string) func(args []V) V {
	switch name {
	case "get":
		return func(a []V) V {
			if i := m.find(Arg(a, 0)); i >= 0 {
				return m.E[i].V
			}
			return nil
		}
	case "set":
		return func(a []V) V { m.set(Arg(a, 0), Arg(a, 1)); return m }
	case "has":
		return func(a []V) V { return m.find(Arg(a, 0)) >= 0 }
	case "delete":
		return func(a []V) V {
			i := m.find(Arg(a, 0))
			if i >= 0 {
				m.E = append(m.E[:i:i], m.E[i+1:]...)
			}
			return i >= 0
		}
	case "clear":
		return func(a []V) V { m.E = nil; return nil }
	case "forEach":
		return func(a []V) V {
			for i := 0; i < len(m.E); i++ {
				Call(a[0], m.E[i].V, m.E[i].K, m)
			}
			return nil
		}
	case "keys", "values", "entries":
		return func(a []V) V {
			r := &Arr{}
			for _, e := range m.E {
				switch name {
				case "keys":
					r.A = append(r.A, e.K)
				case "values":
					r.A = append(r.A, e.V)
				default:
					r.A = append(r.A, NewArr(e.K, e.V))
				}
			}
			return iterOf(r.A)
		}
	}
	return nil
}

func setMethod(m *SetObj, name string) func(args []V) V {
	switch name {
	case "add":
		return func(a []V) V { m.add(Arg(a, 0)); return m }
	case "has":
		return func(a []V) V { return m.find(Arg(a, 0)) >= 0 }
	case "delete":
		return func(a []V) V {
			i := m.find(Arg(a, 0))
			if i >= 0 {
				m.E = append(m.E[:i:i], m.E[i+1:]...)
			}
			return i >= 0
		}
	case "clear":
		return func(a []V) V { m.E = nil; return nil }
	case "forEach":
		return func(a []V) V {
			for i := 0; i < len(m.E); i++ {
				Call(a[0], m.E[i], m.E[i], m)
			}
			return nil
		}
	case "keys", "values":
		return func(a []V) V { return iterOf(append([]V(nil), m.E...)) }
	}
	return nil
}

// iterOf is an iterator object over values.
func iterOf(items []V) V { return &Gen{ran: true, items: items, sync: true} }

func u8Method(u *U8, name string) func(args []V) V {
	switch name {
	case "slice", "subarray":
		return func(a []V) V {
			i, j := rel(intArg(a, 0, 0), u.n), rel(intArg(a, 1, u.n), u.n)
			if j < i {
				j = i
			}
			if name == "slice" {
				return newU8(append(make([]byte, 0, j-i), u.bytes()[i:j]...))
			}
			return &U8{u.buf, u.off + i, j - i}
		}
	case "set":
		return func(a []V) V {
			off := intArg(a, 1, 0)
			var src []byte
			switch s := Arg(a, 0).(type) {
			case *U8:
				src = s.bytes()
			default:
				src = toBytes(IterAll(s))
			}
			if off < 0 || off+len(src) > u.n {
				throwErr("RangeError", "offset is out of bounds")
			}
			copy(u.bytes()[off:], src)
			return nil
		}
	case "copyWithin":
		return func(a []V) V {
			to, i, j := rel(intArg(a, 0, 0), u.n), rel(intArg(a, 1, 0), u.n), rel(intArg(a, 2, u.n), u.n)
			if i < j {
				copy(u.bytes()[to:], append([]byte(nil), u.bytes()[i:j]...))
			}
			return u
		}
	case "fill":
		return func(a []V) V {
			b := byte(toI32(Arg(a, 0)))
			for i, j := rel(intArg(a, 1, 0), u.n), rel(intArg(a, 2, u.n), u.n); i < j; i++ {
				u.bytes()[i] = b
			}
			return u
		}
	}
	// the rest as on an array of numbers
	if m := arrMethod(&Arr{}, name); m != nil {
		return func(args []V) V {
			src := &Arr{A: IterAll(u)}
			r := arrMethod(src, name)(args)
			if r == V(src) { // in place
				copy(u.bytes(), toBytes(src.A))
				return u
			}
			if ra, ok := r.(*Arr); ok && (name == "map" || name == "filter") {
				return newU8(toBytes(ra.A))
			}
			return r
		}
	}
	return nil
}

func viewMethod(d *View, name string) func(args []V) V {
	n := 0
	switch {
	case strings.HasSuffix(name, "8"):
		n = 1
	case strings.HasSuffix(name, "16"):
		n = 2
	case strings.HasSuffix(name, "32"):
		n = 4
	case strings.HasSuffix(name, "64"):
		n = 8
	}
	if n == 0 || len(name) < 5 {
		return nil
	}
	at := func(a []V) []byte {
		off := intArg(a, 0, 0)
		if off < 0 || off+n > d.n {
			throwErr("RangeError", "Offset is outside the bounds of the DataView")
		}
		return d.buf.B[d.off+off : d.off+off+n]
	}
	get := func(b []byte, little bool) uint64 {
		x := uint64(0)
		for i := range b {
			if little {
				x |= uint64(b[i]) << (8 * uint(i))
			} else {
				x = x<<8 | uint64(b[i])
			}
		}
		return x
	}
	put := func(b []byte, little bool, x uint64) {
		for i := range b {
			if little {
				b[i] = byte(x >> (8 * uint(i)))
			} else {
				b[len(b)-1-i] = byte(x >> (8 * uint(i)))
			}
		}
	}
	switch name {
	case "getUint8", "getUint16", "getUint32":
		return func(a []V) V { return Int(get(at(a), Truthy(Arg(a, 1)))) }
	case "getInt8":
		return func(a []V) V { return Int(int8(get(at(a), Truthy(Arg(a, 1))))) }
	case "getInt16":
		return func(a []V) V { return Int(int16(get(at(a), Truthy(Arg(a, 1))))) }
	case "getInt32":
		return func(a []V) V { return Int(int32(get(at(a), Truthy(Arg(a, 1))))) }
	case "getBigUint64":
		return func(a []V) V { return Big{0, get(at(a), Truthy(Arg(a, 1)))} }
	case "getBigInt64":
		return func(a []V) V {
			x := get(at(a), Truthy(Arg(a, 1)))
			return Big{int64(x) >> 63, x}
		}
	case "getFloat64":
		return func(a []V) V { return fl(math.Float64frombits(get(at(a), Truthy(Arg(a, 1))))) }
	case "getFloat32":
		return func(a []V) V { return fl(float64(math.Float32frombits(uint32(get(at(a), Truthy(Arg(a, 1))))))) }
	case "setUint8", "setUint16", "setUint32", "setInt8", "setInt16", "setInt32":
		return func(a []V) V { put(at(a), Truthy(Arg(a, 2)), uint64(uint32(toI32(Arg(a, 1))))); return nil }
	case "setBigUint64", "setBigInt64":
		return func(a []V) V { put(at(a), Truthy(Arg(a, 2)), Arg(a, 1).(Big).Lo); return nil }
	case "setFloat64":
		return func(a []V) V {
			put(at(a), Truthy(Arg(a, 2)), math.Float64bits(toF(ToNumber(Arg(a, 1)))))
			return nil
		}
	}
	return nil
}

var _ = binary.LittleEndian
