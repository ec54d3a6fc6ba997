package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
)

type intrinsic = func(e *Exec, a []V) V

// packages whose functions are replaced by no-ops returning zero values (logging).
var noopPkgs = map[string]bool{"log/slog": true, "log": true, "runtime/debug": true, "log/internal": true, "log/slog/internal": true}

func lookupIntrinsic(p *Prog, fn *Fn) intrinsic {
	n := fn.name
	if in, ok := intrinsics[n]; ok {
		return in
	}
	if o := fn.fn.Origin(); o != nil && o != fn.fn {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
	}
	pkg := ""
	if fn.fn.Pkg != nil {
		pkg = fn.fn.Pkg.Pkg.Path()
	} else if o := fn.fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if noopPkgs[pkg] && fn.fn.Synthetic == "" {
		res := fn.fn.Signature.Results()
		return func(e *Exec, a []V) V {
			switch res.Len() {
			case 0:
				return V{}
			case 1:
				return zeroV(p.tinfo(res.At(0).Type()))
			}
			t := make(Tuple, res.Len())
			for i := range t {
				t[i] = zeroV(p.tinfo(res.At(i).Type()))
			}
			return V{o: t}
		}
	}
	if strings.HasSuffix(pkg, "/zz_verif/sym") {
		if in, ok := symIntr[fn.fn.Name()]; ok && fn.fn.Signature.Recv() == nil {
			return in
		}
	}
	if pkg == "sync/atomic" || pkg == "internal/runtime/atomic" {
		if in := atomicIntr(p, fn); in != nil {
			return in
		}
	}
	return nil
}

func atomicIntr(p *Prog, fn *Fn) intrinsic {
	if len(fn.fn.Blocks) > 0 {
		return nil
	}
	name := fn.fn.Name()
	sig := fn.fn.Signature
	ptr := func(e *Exec, v V) (*Obj, int) {
		if v.o == nil {
			e.rtpanic("invalid memory address or nil pointer dereference")
		}
		return v.o.(*Obj), int(v.n)
	}
	var ti *TInfo
	if sig.Params().Len() > 0 {
		if pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer); ok {
			ti = p.tinfo(pt.Elem())
		}
	}
	if ti == nil {
		return nil
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(e *Exec, a []V) V { o, i := ptr(e, a[0]); return o.get(i) }
	case strings.HasPrefix(name, "Store"):
		return func(e *Exec, a []V) V { o, i := ptr(e, a[0]); e.set(o, i, a[1]); return V{} }
	case strings.HasPrefix(name, "Swap"), strings.HasPrefix(name, "Xchg"):
		return func(e *Exec, a []V) V { o, i := ptr(e, a[0]); r := o.get(i); e.set(o, i, a[1]); return r }
	case strings.HasPrefix(name, "CompareAndSwap"), strings.HasPrefix(name, "Cas"):
		return func(e *Exec, a []V) V {
			o, i := ptr(e, a[0])
			if e.truth(e.equal(o.get(i), a[1], ti)) {
				e.set(o, i, a[2])
				return V{n: 1}
			}
			return V{}
		}
	case strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "Xadd"):
		return func(e *Exec, a []V) V {
			o, i := ptr(e, a[0])
			x := o.get(i)
			n := (x.n + a[1].n) & mask(ti.w)
			r := V{n: n}
			if x.o != nil || a[1].o != nil {
				r = e.sv(n, e.tb.Add(e.term(x, ti.w), e.term(a[1], ti.w)))
			}
			e.set(o, i, r)
			return r
		}
	}
	return nil
}

func nop(e *Exec, a []V) V { return V{} }

var intrinsics map[string]intrinsic
var symIntr map[string]intrinsic

func sliceOf(v V) *Slice {
	if v.o == nil {
		return &Slice{}
	}
	return v.o.(*Slice)
}

func (e *Exec) indexByte(s *Str, c V) V {
	for i := 0; i < len(s.s); i++ {
		if e.truth(e.equalW(s.at(i), c, 8)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (e *Exec) equalW(a, b V, w int) V {
	if a.o == nil && b.o == nil {
		return V{n: b2u(a.n == b.n)}
	}
	return e.sv(b2u(a.n == b.n), e.tb.Eq(e.term(a, w), e.term(b, w)))
}

func (e *Exec) concStr(s *Str) string {
	if s.sym == nil {
		return s.s
	}
	b := []byte(s.s)
	for i := range b {
		b[i] = byte(e.concr(s.at(i), 8))
	}
	return string(b)
}

// iteByRange builds f(x) as an ite chain: f is constant between the given cut points.
func bitLen(e *Exec, v V, w int) V {
	n := uint64(bits.Len64(v.n))
	if v.o == nil {
		return V{n: n}
	}
	t := v.o.(*Term)
	r := e.tb.Const(64, uint64(w))
	for k := w - 1; k >= 0; k-- {
		// len <= k  iff  x < 2^k
		c := e.tb.Ult(t, e.tb.Const(w, 1<<uint(k)))
		r = e.tb.Ite(c, e.tb.Const(64, uint64(k)), r)
	}
	return e.sv(n, r)
}

func tz(e *Exec, v V, w int) V {
	n := uint64(bits.TrailingZeros64(v.n))
	if v.n == 0 {
		n = uint64(w)
	}
	if v.o == nil {
		return V{n: n}
	}
	t := v.o.(*Term)
	r := e.tb.Const(64, uint64(w))
	for k := w - 1; k >= 0; k-- {
		r = e.tb.Ite(e.tb.Eq(e.tb.Extract(k, k, t), e.tb.Const(1, 1)), e.tb.Const(64, uint64(k)), r)
	}
	return e.sv(n, r)
}

func mathFn1(f func(float64) float64) intrinsic {
	return func(e *Exec, a []V) V {
		n := e.concr(a[0], 64)
		return V{n: math.Float64bits(f(math.Float64frombits(n)))}
	}
}

// fmtArgs returns the first non-nil error argument matched by %w, if any.
func (e *Exec) errorf(a []V) V {
	format := strOf(a[0]).s
	args := sliceOf(a[1])
	ai := 0
	var wrapped []V
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < args.len {
			v := args.obj.get(args.off + ai)
			if v.o != nil {
				wrapped = append(wrapped, v)
			}
		}
		ai++
	}
	switch len(wrapped) {
	case 0:
		return e.mkErr(format)
	case 1:
		return e.mkWrapErr(format, wrapped[0])
	}
	return e.mkWrapErrs(format, wrapped)
}

func (e *Exec) callMethod(recv V, name string, args ...V) (V, bool) {
	i := recv.o.(*Iface)
	ms := e.p.ssa.MethodSets.MethodSet(i.t)
	var pkg *types.Package
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return V{}, false
	}
	f := e.p.method(i.t, nil, name)
	if f == nil {
		return V{}, false
	}
	return e.callSSA(f, append([]V{i.v}, args...), nil, e.lastFr), true
}

func (e *Exec) errorsIs(err, target V) bool {
	for d := 0; d < 64; d++ {
		if err.o == nil || target.o == nil {
			return err.o == nil && target.o == nil
		}
		et := e.p.tinfo(err.o.(*Iface).t)
		if et.k != kSlice && et.k != kMap && et.k != kFunc {
			if e.truth(e.equal(err, target, e.p.tinfo(types.Universe.Lookup("error").Type()))) {
				return true
			}
		}
		if sel := e.p.ssa.MethodSets.MethodSet(err.o.(*Iface).t).Lookup(nil, "Is"); sel != nil {
			if r, ok := e.callMethod(err, "Is", target); ok && e.truth(r) {
				return true
			}
		}
		sel := e.p.ssa.MethodSets.MethodSet(err.o.(*Iface).t).Lookup(nil, "Unwrap")
		if sel == nil {
			return false
		}
		rt := sel.Type().(*types.Signature).Results()
		r, _ := e.callMethod(err, "Unwrap")
		if rt.Len() == 1 {
			if _, ok := rt.At(0).Type().Underlying().(*types.Slice); ok {
				s := sliceOf(r)
				for i := 0; i < s.len; i++ {
					if e.errorsIs(s.obj.get(s.off+i), target) {
						return true
					}
				}
				return false
			}
		}
		err = r
		if err.o == nil {
			return false
		}
	}
	return false
}

func (e *Exec) errorsAs(err, target V) bool {
	ti := target.o.(*Iface)
	pt := ti.t.Underlying().(*types.Pointer).Elem()
	want := e.p.canon(pt)
	pi := e.p.tinfo(pt)
	for d := 0; d < 64 && err.o != nil; d++ {
		i := err.o.(*Iface)
		if pi.k == kIface {
			if e.p.implements(i.t, want) {
				e.storeT(ti.v.o.(*Obj), int(ti.v.n), pi, err)
				return true
			}
		} else if i.t == want {
			e.storeT(ti.v.o.(*Obj), int(ti.v.n), pi, i.v)
			return true
		}
		r, ok := e.callMethod(err, "Unwrap")
		if !ok {
			return false
		}
		if s, isS := r.o.(*Slice); isS {
			for k := 0; k < s.len; k++ {
				if e.errorsAs(s.obj.get(s.off+k), target) {
					return true
				}
			}
			return false
		}
		err = r
	}
	return false
}

// ---- encoding/binary over fixed-size values ----

type leaf struct {
	off int
	t   *TInfo
}

func leaves(t *TInfo, off int, out []leaf) ([]leaf, bool) {
	switch t.k {
	case kBool, kInt, kUint, kFloat:
		return append(out, leaf{off, t}), true
	case kStruct:
		ok := true
		for i, f := range t.fields {
			out, ok = leaves(f, off+t.foff[i], out)
			if !ok {
				return out, false
			}
		}
		return out, true
	case kArray:
		ok := true
		for i := 0; i < t.alen; i++ {
			out, ok = leaves(t.elem, off+i*t.elem.cells, out)
			if !ok {
				return out, false
			}
		}
		return out, true
	}
	return out, false
}

func leafBytes(t *TInfo) int {
	if t.k == kBool {
		return 1
	}
	return t.w / 8
}

func (e *Exec) isLittle(order V) bool {
	n := order.o.(*Iface).t.String()
	return strings.Contains(n, "little") || strings.Contains(n, "native")
}

// binLeaves resolves a binary.Read/Write/Size argument.
func (e *Exec) binTarget(v V) (get func(i int) V, set func(i int, x V), ls []leaf, ok bool) {
	if v.o == nil {
		return nil, nil, nil, false
	}
	i := v.o.(*Iface)
	t := i.t.Underlying()
	if pt, isP := t.(*types.Pointer); isP {
		ti := e.p.tinfo(pt.Elem())
		ls, ok = leaves(ti, 0, nil)
		if !ok || i.v.o == nil {
			return nil, nil, nil, false
		}
		ob, off := i.v.o.(*Obj), int(i.v.n)
		return func(k int) V { return ob.get(off + ls[k].off) }, func(k int, x V) { e.set(ob, off+ls[k].off, x) }, ls, true
	}
	if st, isS := t.(*types.Slice); isS {
		ti := e.p.tinfo(st.Elem())
		s := sliceOf(i.v)
		for j := 0; j < s.len; j++ {
			ls, ok = leaves(ti, s.off+j*s.es, ls)
			if !ok {
				return nil, nil, nil, false
			}
		}
		return func(k int) V { return s.obj.get(ls[k].off) }, func(k int, x V) { e.set(s.obj, ls[k].off, x) }, ls, true
	}
	ti := e.p.tinfo(i.t)
	ls, ok = leaves(ti, 0, nil)
	if !ok {
		return nil, nil, nil, false
	}
	if ti.agg() {
		a := i.v.o.(*Agg)
		return func(k int) V { return a.get(ls[k].off) }, nil, ls, true
	}
	return func(k int) V { return i.v }, nil, ls, true
}

func (e *Exec) binWrite(a []V) V {
	get, _, ls, ok := e.binTarget(a[2])
	if !ok {
		return e.mkErr("binary.Write: some values are not fixed-sized")
	}
	n := 0
	for _, l := range ls {
		n += leafBytes(l.t)
	}
	ob := e.newObj(n)
	p := 0
	le := e.isLittle(a[1])
	for k, l := range ls {
		v := get(k)
		b := leafBytes(l.t)
		for j := 0; j < b; j++ {
			pos := p + j
			if !le {
				pos = p + b - 1 - j
			}
			if v.o == nil {
				e.set(ob, pos, V{n: v.n >> uint(8*j) & 0xff})
			} else if l.t.k == kBool {
				e.set(ob, pos, e.sv(v.n, e.tb.Ite(v.o.(*Term), e.tb.Const(8, 1), e.tb.Const(8, 0))))
			} else {
				e.set(ob, pos, e.sv(v.n>>uint(8*j)&0xff, e.tb.Extract(8*j+7, 8*j, v.o.(*Term))))
			}
		}
		p += b
	}
	r, okm := e.callMethod(a[0], "Write", V{o: &Slice{obj: ob, len: n, cap: n, es: 1}})
	if !okm {
		e.unsupported("binary.Write: no Write method")
	}
	return r.o.(Tuple)[1]
}

func (e *Exec) binRead(a []V) V {
	_, set, ls, ok := e.binTarget(a[2])
	if !ok || set == nil {
		return e.mkErr("binary.Read: invalid type")
	}
	n := 0
	for _, l := range ls {
		n += leafBytes(l.t)
	}
	ob := e.newObj(n)
	rf := e.p.findFunc("io", "ReadFull")
	r := e.callSSA(rf, []V{a[0], {o: &Slice{obj: ob, len: n, cap: n, es: 1}}}, nil, e.lastFr)
	if err := r.o.(Tuple)[1]; err.o != nil {
		return err
	}
	p := 0
	le := e.isLittle(a[1])
	for k, l := range ls {
		b := leafBytes(l.t)
		var c uint64
		var ps []*Term // MSB first
		symb := false
		for j := b - 1; j >= 0; j-- {
			pos := p + j
			if !le {
				pos = p + b - 1 - j
			}
			x := ob.get(pos)
			c = c<<8 | x.n
			if x.o != nil {
				symb = true
			}
			ps = append(ps, e.term(x, 8))
		}
		v := V{n: c}
		if l.t.k == kBool {
			v.n = b2u(c != 0)
			if symb {
				v = e.sv(v.n, e.tb.Not(e.tb.Eq(ps[0], e.tb.Const(8, 0))))
			}
		} else if symb {
			v = e.sv(c, e.tb.Concat(ps...))
		}
		set(k, v)
		p += b
	}
	return V{}
}

func init() {
	intrinsics = map[string]intrinsic{
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.Mutex).TryLock":   func(e *Exec, a []V) V { return V{n: 1} },
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do": func(e *Exec, a []V) V {
			ob, i := a[0].o.(*Obj), int(a[0].n)
			if ob.get(i).n != 0 {
				return V{}
			}
			e.set(ob, i, V{n: 1})
			e.callClosure(a[1].o.(*Closure), nil, e.lastFr)
			return V{}
		},
		"(*sync.Pool).Get": func(e *Exec, a []V) V {
			ob, i := a[0].o.(*Obj), int(a[0].n)
			f := ob.get(i + 4)
			if f.o == nil {
				return V{}
			}
			return e.callClosure(f.o.(*Closure), nil, e.lastFr)
		},
		"(*sync.Pool).Put":             nop,
		"runtime.KeepAlive":            nop,
		"runtime.GC":                   nop,
		"runtime.SetFinalizer":         nop,
		"(*strings.Builder).copyCheck": nop,
		"internal/abi.NoEscape":        func(e *Exec, a []V) V { return a[0] },
		"internal/abi.Escape":          func(e *Exec, a []V) V { return a[0] },
		"internal/race.Acquire":        nop,
		"internal/race.Release":        nop,
		"internal/godebug.New": func(e *Exec, a []V) V {
			ob := e.newObj(16)
			e.set(ob, 0, V{o: strOf(a[0])})
			return V{o: ob}
		},
		// settings have their defaults for the module's language version (go 1.22)
		"(*internal/godebug.Setting).Value": func(e *Exec, a []V) V {
			if ob, ok := a[0].o.(*Obj); ok {
				if s, ok := ob.get(int(a[0].n)).o.(*Str); ok && s.s == "randseednop" {
					return mkStr("0")
				}
			}
			return V{}
		},
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(e *Exec, a []V) V { return V{} },
		"internal/bytealg.IndexByte": func(e *Exec, a []V) V {
			s := sliceOf(a[0])
			if s != nil && s.off < 0 && s.obj.head != nil {
				if h := s.off + s.obj.far; h >= 0 && h < len(s.obj.head.n) && s.len > len(s.obj.head.n)-h {
					n := len(s.obj.head.n) - h
					if r := e.indexByte(sliceStr(&Slice{obj: s.obj.head, off: h, len: n, cap: n, es: 1}), a[1]); int64(r.n) >= 0 {
						return r
					}
				}
			}
			return e.indexByte(sliceStr(s), a[1])
		},
		"internal/bytealg.IndexByteString": func(e *Exec, a []V) V { return e.indexByte(strOf(a[0]), a[1]) },
		"internal/bytealg.Compare": func(e *Exec, a []V) V {
			return e.cmpStr(sliceStr(sliceOf(a[0])), sliceStr(sliceOf(a[1])))
		},
		"internal/bytealg.CompareString": func(e *Exec, a []V) V { return e.cmpStr(strOf(a[0]), strOf(a[1])) },
		"internal/bytealg.Equal": func(e *Exec, a []V) V {
			return e.eqStr(sliceStr(sliceOf(a[0])), sliceStr(sliceOf(a[1])))
		},
		"bytes.Equal": func(e *Exec, a []V) V {
			return e.eqStr(sliceStr(sliceOf(a[0])), sliceStr(sliceOf(a[1])))
		},
		"internal/bytealg.Count":       func(e *Exec, a []V) V { return e.countByte(sliceStr(sliceOf(a[0])), a[1]) },
		"internal/bytealg.CountString": func(e *Exec, a []V) V { return e.countByte(strOf(a[0]), a[1]) },
		"internal/bytealg.MakeNoZero": func(e *Exec, a []V) V {
			n := e.concInt(a[0], 64, true)
			if n < 0 || n > 1<<24 {
				e.unsupported("MakeNoZero %d", n)
			}
			return V{o: &Slice{obj: e.newObj(n), len: n, cap: n, es: 1}}
		},
		"internal/bytealg.Index":       func(e *Exec, a []V) V { return e.indexStr(sliceStr(sliceOf(a[0])), sliceStr(sliceOf(a[1]))) },
		"internal/bytealg.IndexString": func(e *Exec, a []V) V { return e.indexStr(strOf(a[0]), strOf(a[1])) },
		"math/bits.Len64":              func(e *Exec, a []V) V { return bitLen(e, a[0], 64) },
		"math/bits.Len":                func(e *Exec, a []V) V { return bitLen(e, a[0], 64) },
		"math/bits.Len32":              func(e *Exec, a []V) V { return bitLen(e, a[0], 32) },
		"math/bits.Len16":              func(e *Exec, a []V) V { return bitLen(e, a[0], 16) },
		"math/bits.Len8":               func(e *Exec, a []V) V { return bitLen(e, a[0], 8) },
		"math/bits.TrailingZeros64":    func(e *Exec, a []V) V { return tz(e, a[0], 64) },
		"math/bits.TrailingZeros32":    func(e *Exec, a []V) V { return tz(e, a[0], 32) },
		"math/bits.TrailingZeros":      func(e *Exec, a []V) V { return tz(e, a[0], 64) },
		"math.Log":                     mathFn1(math.Log),
		"math.Exp":                     mathFn1(math.Exp),
		"math.Floor":                   mathFn1(math.Floor),
		"math.floor":                   mathFn1(math.Floor),
		"math.Ceil":                    mathFn1(math.Ceil),
		"math.Log2":                    mathFn1(math.Log2),
		"math.Sqrt":                    func(e *Exec, a []V) V { return e.fp(fpSqrt, 64, 64, a[0], V{}, true) },
		"math.sqrt":                    func(e *Exec, a []V) V { return e.fp(fpSqrt, 64, 64, a[0], V{}, true) },
		"reflect.TypeFor":              func(e *Exec, a []V) V { return V{} }, // only found in error values
		"fmt.Errorf":                   func(e *Exec, a []V) V { return e.errorf(a) },
		"fmt.Printf":                   func(e *Exec, a []V) V { return V{o: Tuple{V{}, V{}}} },
		"fmt.Println":                  func(e *Exec, a []V) V { return V{o: Tuple{V{}, V{}}} },
		"fmt.Print":                    func(e *Exec, a []V) V { return V{o: Tuple{V{}, V{}}} },
		"errors.Is":                    func(e *Exec, a []V) V { return V{n: b2u(e.errorsIs(a[0], a[1]))} },
		"errors.As":                    func(e *Exec, a []V) V { return V{n: b2u(e.errorsAs(a[0], a[1]))} },
		"encoding/binary.Read":         func(e *Exec, a []V) V { return e.binRead(a) },
		"encoding/binary.Write":        func(e *Exec, a []V) V { return e.binWrite(a) },
		"encoding/binary.Size": func(e *Exec, a []V) V {
			_, _, ls, ok := e.binTarget(a[0])
			if !ok {
				return V{n: ^uint64(0)}
			}
			n := 0
			for _, l := range ls {
				n += leafBytes(l.t)
			}
			return V{n: uint64(n)}
		},
		"math/rand.Float32": func(e *Exec, a []V) V { e.unsupported("rand.Float32"); return V{} },
		"time.Now": func(e *Exec, a []V) V {
			f := e.p.pkgs["time"]
			if f == nil {
				e.unsupported("time.Now")
			}
			return zeroV(e.p.tinfo(f.Pkg.Scope().Lookup("Time").Type()))
		},
		"time.Since": nop,
		// the runtime's random source: some fixed sequence, different on every call
		"math/rand.runtime_rand": func(e *Exec, a []V) V {
			e.rnd += 0x9e3779b97f4a7c15
			z := (e.rnd ^ e.rnd>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			return V{n: z ^ z>>31}
		},
		"(golang.org/x/text/unicode/norm.Form).String": func(e *Exec, a []V) V {
			s := strOf(a[1])
			ascii := true
			for i := 0; i < len(s.s); i++ {
				b := s.at(i)
				if !e.truth(e.sv0(b2u(b.n < 0x80), b, func(t *Term) *Term { return e.tb.Ult(t, e.tb.Const(8, 0x80)) })) {
					ascii = false
					break
				}
			}
			if ascii {
				return a[1] // every normal form leaves ASCII unchanged
			}
			// otherwise fix the text and run the real normaliser on it
			c := e.concStr(s)
			np := e.p.pkgs["golang.org/x/text/unicode/norm"]
			f := e.p.method(np.Type("Form").Type(), np.Pkg, "String")
			return e.call(e.p.realFn(f), []V{a[0], mkStr(c)}, nil, e.lastFr, nil)
		},
		"strconv.ParseFloat": func(e *Exec, a []V) V { return e.concCall("strconv", "parseFloatPrefix", a) },
		"unique.Make":        func(e *Exec, a []V) V { e.unsupported("unique"); return V{} },
	}
	delete(intrinsics, "strconv.ParseFloat")

	symIntr = map[string]intrinsic{
		"Bool":   func(e *Exec, a []V) V { return e.newVar(strOf(a[0]).s, 0) },
		"Byte":   func(e *Exec, a []V) V { return e.newVar(strOf(a[0]).s, 8) },
		"Uint16": func(e *Exec, a []V) V { return e.newVar(strOf(a[0]).s, 16) },
		"Uint32": func(e *Exec, a []V) V { return e.newVar(strOf(a[0]).s, 32) },
		"Uint64": func(e *Exec, a []V) V { return e.newVar(strOf(a[0]).s, 64) },
		"Bytes": func(e *Exec, a []V) V {
			n := int(a[1].n)
			ob := e.newObj(n)
			for i := 0; i < n; i++ {
				e.set(ob, i, e.newVar(fmt.Sprintf("%s[%d]", strOf(a[0]).s, i), 8))
			}
			return V{o: &Slice{obj: ob, len: n, cap: n, es: 1}}
		},
		"Choose": func(e *Exec, a []V) V {
			n := a[1].n
			v := e.newVar(strOf(a[0]).s, 16)
			t := v.o.(*Term)
			e.assume(e.sv(b2u(v.n < n), e.tb.Ult(t, e.tb.Const(16, n))))
			return V{n: e.concr(v, 16)}
		},
		"Conc":   func(e *Exec, a []V) V { return V{n: e.concr(a[0], 64)} },
		"Assume": func(e *Exec, a []V) V { e.assume(a[0]); return V{} },
		"Assert": func(e *Exec, a []V) V {
			if !e.check(a[0]) {
				panic(stopSig{stopViolation, strOf(a[1]).s})
			}
			return V{}
		},
		"Fail":  func(e *Exec, a []V) V { panic(stopSig{stopViolation, strOf(a[0]).s}) },
		// the bytes before data are not there: whoever looks at them is told on
		"Far": func(e *Exec, a []V) V {
			n := int(a[0].n)
			d := a[1].o.(*Slice)
			ob := e.newObj(d.len)
			for i := 0; i < d.len; i++ {
				e.set(ob, i, d.obj.get(d.off+i))
			}
			e.far = true
			return V{o: &Slice{obj: ob, off: -n, len: n + d.len, cap: n + d.len, es: 1}}
		},
		// only the first of them are
		"FarHead": func(e *Exec, a []V) V {
			s := a[0].o.(*Slice)
			h := a[1].o.(*Slice)
			s.obj.far = -s.off
			s.obj.head = e.newObj(h.len)
			for i := 0; i < h.len; i++ {
				e.set(s.obj.head, i, h.obj.get(h.off+i))
			}
			return V{}
		},
		"Idle": func(e *Exec, a []V) V { e.yield(nil, true); return V{} },
		"GiveUp": func(e *Exec, a []V) V { e.unsupported("%s", strOf(a[0]).s); return V{} },
		"Stop":  func(e *Exec, a []V) V { panic(stopSig{stopDead, "stopped"}) },
		"Reach": func(e *Exec, a []V) V { e.reached[strOf(a[0]).s]++; return V{} },
		"ObsInt": func(e *Exec, a []V) V {
			e.obs = append(e.obs, fmt.Sprintf("%s=%d", strOf(a[0]).s, int64(a[1].n)))
			return V{}
		},
		"ObsStr": func(e *Exec, a []V) V {
			e.obs = append(e.obs, fmt.Sprintf("%s=%s", strOf(a[0]).s, hex.EncodeToString([]byte(strOf(a[1]).s))))
			return V{}
		},
		"ObsBytes": func(e *Exec, a []V) V {
			e.obs = append(e.obs, fmt.Sprintf("%s=%s", strOf(a[0]).s, hex.EncodeToString([]byte(sliceStr(sliceOf(a[1])).s))))
			return V{}
		},
		"Param": func(e *Exec, a []V) V {
			if v, ok := e.cfg.params[strOf(a[0]).s]; ok {
				return V{n: uint64(int64(v))}
			}
			return a[1]
		},
		"And": func(e *Exec, a []V) V { return e.and(a[0], a[1]) },
		"Or":  func(e *Exec, a []V) V { return e.or(a[0], a[1]) },
		"Ite": func(e *Exec, a []V) V {
			if a[0].o == nil {
				if a[0].n != 0 {
					return a[1]
				}
				return a[2]
			}
			n := a[2].n
			if a[0].n != 0 {
				n = a[1].n
			}
			return e.sv(n, e.tb.Ite(a[0].o.(*Term), e.term(a[1], 64), e.term(a[2], 64)))
		},
		"EqBytes": func(e *Exec, a []V) V { return e.eqStr(sliceStr(sliceOf(a[0])), sliceStr(sliceOf(a[1]))) },
		"Engine":  func(e *Exec, a []V) V { return V{n: 1} },
	}
}

func (e *Exec) sv0(n uint64, v V, f func(*Term) *Term) V {
	if v.o == nil {
		return V{n: n}
	}
	return e.sv(n, f(v.o.(*Term)))
}

func (e *Exec) concCall(pkg, name string, a []V) V { e.unsupported("%s.%s", pkg, name); return V{} }

func (e *Exec) assume(v V) {
	if v.o == nil {
		if v.n == 0 {
			panic(stopSig{stopAssume, "assumption false"})
		}
		return
	}
	t := v.o.(*Term)
	if v.n != 0 {
		e.decideX(t, true, false, 0, false, true)
		return
	}
	e.decideX(t, false, false, 0, false, false)
	panic(stopSig{stopAssume, "assumption false"})
}

func (e *Exec) countByte(s *Str, c V) V {
	n := uint64(0)
	var t *Term
	for i := 0; i < len(s.s); i++ {
		q := e.equalW(s.at(i), c, 8)
		if q.o == nil {
			n += q.n
			if t != nil && q.n == 1 {
				t = e.tb.Add(t, e.tb.Const(64, 1))
			}
			continue
		}
		if t == nil {
			t = e.tb.Const(64, n)
		}
		n += q.n
		t = e.tb.Add(t, e.tb.Ite(q.o.(*Term), e.tb.Const(64, 1), e.tb.Const(64, 0)))
	}
	if t == nil {
		return V{n: n}
	}
	return e.sv(n, t)
}

func (e *Exec) indexStr(s, sub *Str) V {
	for i := 0; i+len(sub.s) <= len(s.s); i++ {
		if e.truth(e.eqStr(s.sub(i, i+len(sub.s)), sub)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}
