package main

import (
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func f64(n uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(n)))
	}
	return math.Float64frombits(n)
}
func fbits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// fpConc evaluates an FP opcode natively.
func fpConc(op uint64, w, aw int, a, b uint64) uint64 {
	switch op {
	case fpAdd, fpSub, fpMul, fpDiv:
		if w == 32 {
			x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
			var r float32
			switch op {
			case fpAdd:
				r = x + y
			case fpSub:
				r = x - y
			case fpMul:
				r = x * y
			case fpDiv:
				r = x / y
			}
			return uint64(math.Float32bits(r))
		}
		x, y := math.Float64frombits(a), math.Float64frombits(b)
		switch op {
		case fpAdd:
			x = x + y
		case fpSub:
			x = x - y
		case fpMul:
			x = x * y
		case fpDiv:
			x = x / y
		}
		return math.Float64bits(x)
	case fpSqrt:
		if w == 32 {
			return uint64(math.Float32bits(float32(math.Sqrt(float64(math.Float32frombits(uint32(a)))))))
		}
		return math.Float64bits(math.Sqrt(math.Float64frombits(a)))
	case fpCvtFF:
		return fbits(f64(a, aw), w)
	case fpFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext(a, aw))))
		}
		return math.Float64bits(float64(sext(a, aw)))
	case fpFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case fpToS:
		return uint64(int64(f64(a, aw))) & mask(w)
	case fpToU:
		f := f64(a, aw)
		return uint64(f) & mask(w)
	}
	panic("fpConc")
}

func (e *Exec) fp(op uint64, w, aw int, a, b V, unary bool) V {
	n := fpConc(op, w, aw, a.n, b.n)
	if a.o == nil && (unary || b.o == nil) {
		return V{n: n}
	}
	var tb *Term
	if !unary {
		tb = e.term(b, aw)
	}
	t := e.tb.FP(op, w, e.term(a, aw), tb)
	return V{n, t}
}

func (c *comp) binop(x *ssa.BinOp) opFn {
	d, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	ti := c.p.tinfo(x.X.Type())
	w := ti.w
	m := mask(w)
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if ti.scalar() && ti.k != kFloat {
			return func(e *Exec, fr *Frame) {
				p, q := a.v(e, fr), b.v(e, fr)
				r := p.n == q.n
				if p.o == nil && q.o == nil {
					fr.regs[d] = V{n: b2u(r != neg)}
					return
				}
				t := e.tb.Eq(e.term(p, w), e.term(q, w))
				if neg {
					t = e.tb.Not(t)
				}
				fr.regs[d] = e.sv(b2u(r != neg), t)
			}
		}
		yt := c.p.tinfo(x.Y.Type())
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			var r V
			// comparison of interface with concrete is made explicit by SSA; nil constants appear as V{}
			_ = yt
			r = e.equal(p, q, ti)
			if neg {
				r = e.not(r)
			}
			fr.regs[d] = r
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := x.Op
		if ti.k == kInt || ti.k == kUint {
			sgn := ti.k == kInt
			return func(e *Exec, fr *Frame) {
				p, q := a.v(e, fr), b.v(e, fr)
				if op == token.GTR || op == token.LEQ {
					p, q = q, p
				}
				var r bool
				if sgn {
					r = sext(p.n, w) < sext(q.n, w)
				} else {
					r = p.n < q.n
				}
				neg := op == token.LEQ || op == token.GEQ
				if p.o == nil && q.o == nil {
					fr.regs[d] = V{n: b2u(r != neg)}
					return
				}
				var t *Term
				if sgn {
					t = e.tb.Slt(e.term(p, w), e.term(q, w))
				} else {
					t = e.tb.Ult(e.term(p, w), e.term(q, w))
				}
				if neg {
					t = e.tb.Not(t)
				}
				fr.regs[d] = e.sv(b2u(r != neg), t)
			}
		}
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			switch op {
			case token.LSS:
				fr.regs[d] = e.less(p, q, ti)
			case token.GTR:
				fr.regs[d] = e.less(q, p, ti)
			case token.LEQ:
				if ti.k == kFloat {
					fr.regs[d] = e.fle(p, q, w)
				} else {
					fr.regs[d] = e.not(e.less(q, p, ti))
				}
			case token.GEQ:
				if ti.k == kFloat {
					fr.regs[d] = e.fle(q, p, w)
				} else {
					fr.regs[d] = e.not(e.less(p, q, ti))
				}
			}
		}
	}
	if ti.k == kString && x.Op == token.ADD {
		return func(e *Exec, fr *Frame) {
			fr.regs[d] = strV(concatStr(strOf(a.v(e, fr)), strOf(b.v(e, fr))))
		}
	}
	if ti.k == kFloat {
		var op uint64
		switch x.Op {
		case token.ADD:
			op = fpAdd
		case token.SUB:
			op = fpSub
		case token.MUL:
			op = fpMul
		case token.QUO:
			op = fpDiv
		}
		return func(e *Exec, fr *Frame) { fr.regs[d] = e.fp(op, w, w, a.v(e, fr), b.v(e, fr), false) }
	}
	if ti.k == kBool {
		switch x.Op {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
		}
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			tp, tq := e.term(p, 0), e.term(q, 0)
			switch x.Op {
			case token.AND, token.LAND:
				fr.regs[d] = e.sv(p.n&q.n, e.tb.And(tp, tq))
			case token.OR, token.LOR:
				fr.regs[d] = e.sv(p.n|q.n, e.tb.Or(tp, tq))
			default:
				e.unsupported("bool op %s", x.Op)
			}
		}
	}
	if ti.k == kOther {
		s := x.String()
		return func(e *Exec, fr *Frame) { e.unsupported("binop %s on %s", s, ti.t) }
	}
	sgn := ti.k == kInt
	switch x.Op {
	case token.ADD:
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			n := (p.n + q.n) & m
			if p.o == nil && q.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			fr.regs[d] = e.sv(n, e.tb.Add(e.term(p, w), e.term(q, w)))
		}
	case token.SUB:
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			n := (p.n - q.n) & m
			if p.o == nil && q.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			fr.regs[d] = e.sv(n, e.tb.Sub(e.term(p, w), e.term(q, w)))
		}
	case token.MUL:
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			n := (p.n * q.n) & m
			if p.o == nil && q.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			fr.regs[d] = e.sv(n, e.tb.Mul(e.term(p, w), e.term(q, w)))
		}
	case token.QUO, token.REM:
		op := OUDiv
		switch {
		case x.Op == token.QUO && sgn:
			op = OSDiv
		case x.Op == token.REM && sgn:
			op = OSRem
		case x.Op == token.REM:
			op = OURem
		}
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			nz := V{n: b2u(q.n != 0)}
			if q.o != nil {
				nz = e.sv(nz.n, e.tb.Not(e.tb.Eq(q.o.(*Term), e.tb.Const(w, 0))))
			}
			if !e.check(nz) {
				e.rtpanic("integer divide by zero")
			}
			t := e.tb.Div(op, e.tb.Const(w, p.n), e.tb.Const(w, q.n))
			n := t.k
			if p.o == nil && q.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			fr.regs[d] = e.sv(n, e.tb.Div(op, e.term(p, w), e.term(q, w)))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		op := x.Op
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			var n uint64
			switch op {
			case token.AND:
				n = p.n & q.n
			case token.OR:
				n = p.n | q.n
			case token.XOR:
				n = p.n ^ q.n
			default:
				n = p.n &^ q.n
			}
			if p.o == nil && q.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			tp, tq := e.term(p, w), e.term(q, w)
			var t *Term
			switch op {
			case token.AND:
				t = e.tb.BAnd(tp, tq)
			case token.OR:
				t = e.tb.BOr(tp, tq)
			case token.XOR:
				t = e.tb.BXor(tp, tq)
			default:
				t = e.tb.BAnd(tp, e.tb.BNot(tq))
			}
			fr.regs[d] = e.sv(n, t)
		}
	case token.SHL, token.SHR:
		yt := c.p.tinfo(x.Y.Type())
		op := OShl
		if x.Op == token.SHR {
			op = OLShr
			if sgn {
				op = OAShr
			}
		}
		return func(e *Exec, fr *Frame) {
			p, q := a.v(e, fr), b.v(e, fr)
			if yt.k == kInt {
				nn := V{n: b2u(sext(q.n, yt.w) >= 0)}
				if q.o != nil {
					nn = e.sv(nn.n, e.tb.Not(e.tb.Slt(q.o.(*Term), e.tb.Const(yt.w, 0))))
				}
				if !e.check(nn) {
					e.rtpanic("negative shift amount")
				}
			}
			s := q.n
			var n uint64
			switch op {
			case OShl:
				if s < 64 {
					n = p.n << s & m
				}
			case OLShr:
				if s < 64 {
					n = p.n >> s
				}
			default:
				if s > 63 {
					s = 63
				}
				n = uint64(sext(p.n, w)>>s) & m
			}
			if p.o == nil && q.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			fr.regs[d] = e.sv(n, e.tb.Shift(op, e.term(p, w), e.term(q, yt.w)))
		}
	}
	panic(unsup{"binop " + x.Op.String()})
}

func (e *Exec) not(v V) V {
	if v.o == nil {
		return V{n: 1 - v.n}
	}
	return e.sv(1-v.n, e.tb.Not(v.o.(*Term)))
}

func (e *Exec) fle(p, q V, w int) V {
	r := b2u(f64(p.n, w) <= f64(q.n, w))
	if p.o == nil && q.o == nil {
		return V{n: r}
	}
	return e.sv(r, e.tb.FLe(e.term(p, w), e.term(q, w)))
}

func (e *Exec) less(p, q V, ti *TInfo) V {
	w := ti.w
	switch ti.k {
	case kInt:
		r := b2u(sext(p.n, w) < sext(q.n, w))
		if p.o == nil && q.o == nil {
			return V{n: r}
		}
		return e.sv(r, e.tb.Slt(e.term(p, w), e.term(q, w)))
	case kUint:
		r := b2u(p.n < q.n)
		if p.o == nil && q.o == nil {
			return V{n: r}
		}
		return e.sv(r, e.tb.Ult(e.term(p, w), e.term(q, w)))
	case kFloat:
		r := b2u(f64(p.n, w) < f64(q.n, w))
		if p.o == nil && q.o == nil {
			return V{n: r}
		}
		return e.sv(r, e.tb.FLt(e.term(p, w), e.term(q, w)))
	case kString:
		c := e.cmpStr(strOf(p), strOf(q))
		r := b2u(sext(c.n, 64) < 0)
		if c.o == nil {
			return V{n: r}
		}
		return e.sv(r, e.tb.Slt(c.o.(*Term), e.tb.Const(64, 0)))
	}
	e.unsupported("ordering on %s", ti.t)
	return V{}
}

// cmpStr is bytes.Compare as one (ite) term.
func (e *Exec) cmpStr(a, b *Str) V {
	n := min(len(a.s), len(b.s))
	tail := 0
	if len(a.s) < len(b.s) {
		tail = -1
	} else if len(a.s) > len(b.s) {
		tail = 1
	}
	if a.sym == nil && b.sym == nil {
		r := 0
		switch {
		case a.s < b.s:
			r = -1
		case a.s > b.s:
			r = 1
		}
		return V{n: uint64(int64(r))}
	}
	cr := 0
	switch {
	case a.s < b.s:
		cr = -1
	case a.s > b.s:
		cr = 1
	}
	tb := e.tb
	neg, pos := tb.Const(64, ^uint64(0)), tb.Const(64, 1)
	t := tb.Const(64, uint64(int64(tail)))
	for i := n - 1; i >= 0; i-- {
		x, y := e.term(a.at(i), 8), e.term(b.at(i), 8)
		if x == y {
			continue
		}
		t = tb.Ite(tb.Eq(x, y), t, tb.Ite(tb.Ult(x, y), neg, pos))
	}
	return e.sv(uint64(int64(cr)), t)
}

func (e *Exec) eqStr(a, b *Str) V {
	if len(a.s) != len(b.s) {
		return V{}
	}
	if a.sym == nil && b.sym == nil {
		return V{n: b2u(a.s == b.s)}
	}
	t := e.tb.tt
	for i := 0; i < len(a.s); i++ {
		t = e.tb.And(t, e.tb.Eq(e.term(a.at(i), 8), e.term(b.at(i), 8)))
		if t == e.tb.ff {
			break
		}
	}
	return e.sv(b2u(a.s == b.s), t)
}

// equal compares two values of static type ti.
func (e *Exec) equal(p, q V, ti *TInfo) V {
	switch ti.k {
	case kBool, kInt, kUint:
		if p.o == nil && q.o == nil {
			return V{n: b2u(p.n == q.n)}
		}
		return e.sv(b2u(p.n == q.n), e.tb.Eq(e.term(p, ti.w), e.term(q, ti.w)))
	case kFloat:
		r := b2u(f64(p.n, ti.w) == f64(q.n, ti.w))
		if p.o == nil && q.o == nil {
			return V{n: r}
		}
		return e.sv(r, e.tb.FEq(e.term(p, ti.w), e.term(q, ti.w)))
	case kString:
		return e.eqStr(strOf(p), strOf(q))
	case kPtr, kUnsafePtr, kChan:
		if _, ok := p.o.(*SymPtr); ok {
			e.unsupported("symbolic pointer comparison")
		}
		return V{n: b2u(p.o == q.o && (p.o == nil || p.n == q.n))}
	case kSlice, kMap, kFunc:
		return V{n: b2u((p.o == nil) == (q.o == nil) && (p.o == nil || p.o == q.o))}
	case kIface:
		if p.o == nil || q.o == nil {
			return V{n: b2u(p.o == nil && q.o == nil)}
		}
		a, b := p.o.(*Iface), q.o.(*Iface)
		if a.t != b.t {
			return V{}
		}
		t := e.p.tinfo(a.t)
		if t.k == kSlice || t.k == kMap || t.k == kFunc {
			e.rtpanic("comparing uncomparable type " + a.t.String())
		}
		return e.equal(a.v, b.v, t)
	case kStruct:
		r := V{n: 1}
		a, b := p.o.(*Agg), q.o.(*Agg)
		for i, f := range ti.fields {
			if st := ti.t.Underlying().(*types.Struct); st.Field(i).Name() == "_" {
				continue
			}
			r = e.and(r, e.equal(aggGet(a, ti.foff[i], f), aggGet(b, ti.foff[i], f), f))
		}
		return r
	case kArray:
		r := V{n: 1}
		a, b := p.o.(*Agg), q.o.(*Agg)
		for i := 0; i < ti.alen; i++ {
			r = e.and(r, e.equal(aggGet(a, i*ti.elem.cells, ti.elem), aggGet(b, i*ti.elem.cells, ti.elem), ti.elem))
		}
		return r
	}
	e.unsupported("equality on %s", ti.t)
	return V{}
}

func (e *Exec) and(a, b V) V {
	if a.o == nil && b.o == nil {
		return V{n: a.n & b.n}
	}
	return e.sv(a.n&b.n, e.tb.And(e.term(a, 0), e.term(b, 0)))
}
func (e *Exec) or(a, b V) V {
	if a.o == nil && b.o == nil {
		return V{n: a.n | b.n}
	}
	return e.sv(a.n|b.n, e.tb.Or(e.term(a, 0), e.term(b, 0)))
}

// ---- conversions ----

func (c *comp) convert(x ssa.Value, src ssa.Value, ft, tt types.Type) opFn {
	d, s := c.reg(x), c.op(src)
	f, t := c.p.tinfo(ft), c.p.tinfo(tt)
	switch {
	case (f.k == kInt || f.k == kUint) && (t.k == kInt || t.k == kUint):
		sg := f.k == kInt
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			n := v.n
			if sg {
				n = uint64(sext(n, f.w))
			}
			n &= mask(t.w)
			if v.o == nil {
				fr.regs[d] = V{n: n}
				return
			}
			tm := v.o.(*Term)
			if t.w <= f.w {
				tm = e.tb.Extract(t.w-1, 0, tm)
			} else if sg {
				tm = e.tb.SExt(t.w, tm)
			} else {
				tm = e.tb.ZExt(t.w, tm)
			}
			fr.regs[d] = e.sv(n, tm)
		}
	case (f.k == kInt || f.k == kUint) && t.k == kFloat:
		op := uint64(fpFromS)
		if f.k == kUint {
			op = fpFromU
		}
		return func(e *Exec, fr *Frame) { fr.regs[d] = e.fp(op, t.w, f.w, s.v(e, fr), V{}, true) }
	case f.k == kFloat && (t.k == kInt || t.k == kUint):
		op := uint64(fpToS)
		if t.k == kUint {
			op = fpToU
		}
		return func(e *Exec, fr *Frame) { fr.regs[d] = e.fp(op, t.w, f.w, s.v(e, fr), V{}, true) }
	case f.k == kFloat && t.k == kFloat:
		if f.w == t.w {
			return func(e *Exec, fr *Frame) { fr.regs[d] = s.v(e, fr) }
		}
		return func(e *Exec, fr *Frame) { fr.regs[d] = e.fp(fpCvtFF, t.w, f.w, s.v(e, fr), V{}, true) }
	case f.k == kString && t.k == kSlice:
		if t.elem.w == 8 {
			return func(e *Exec, fr *Frame) { fr.regs[d] = e.strToSlice(strOf(s.v(e, fr))) }
		}
		return func(e *Exec, fr *Frame) { // []rune
			st := strOf(s.v(e, fr))
			var rs []V
			for i := 0; i < len(st.s); {
				r, n := e.decodeRune(st.sub(i, len(st.s)))
				rs = append(rs, r)
				i += n
			}
			ob := e.newObj(len(rs))
			for i, r := range rs {
				e.set(ob, i, r)
			}
			fr.regs[d] = V{o: &Slice{obj: ob, len: len(rs), cap: len(rs), es: 1}}
		}
	case f.k == kSlice && t.k == kString:
		if f.elem.w == 8 {
			return func(e *Exec, fr *Frame) {
				v := s.v(e, fr)
				if v.o == nil {
					fr.regs[d] = V{}
					return
				}
				fr.regs[d] = strV(sliceStr(v.o.(*Slice)))
			}
		}
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			out := &Str{}
			if v.o != nil {
				sl := v.o.(*Slice)
				for i := 0; i < sl.len; i++ {
					out = concatStr(out, e.runeStr(sl.obj.get(sl.off+i), 32))
				}
			}
			fr.regs[d] = strV(out)
		}
	case (f.k == kInt || f.k == kUint) && t.k == kString:
		return func(e *Exec, fr *Frame) { fr.regs[d] = strV(e.runeStr(s.v(e, fr), f.w)) }
	case f.k == kString && t.k == kString, f.k == t.k && !f.scalar():
		return func(e *Exec, fr *Frame) { fr.regs[d] = s.v(e, fr) }
	case (f.k == kPtr || f.k == kUnsafePtr) && (t.k == kPtr || t.k == kUnsafePtr):
		return func(e *Exec, fr *Frame) { fr.regs[d] = s.v(e, fr) }
	case f.k == kBool && t.k == kBool:
		return func(e *Exec, fr *Frame) { fr.regs[d] = s.v(e, fr) }
	}
	return func(e *Exec, fr *Frame) { e.unsupported("conversion %s -> %s", ft, tt) }
}

func (e *Exec) runeStr(v V, w int) *Str {
	if v.o != nil {
		t := v.o.(*Term)
		if e.truth(e.sv(b2u(v.n < 0x80), e.tb.Ult(t, e.tb.Const(w, 0x80)))) {
			return &Str{s: string([]byte{byte(v.n)}), sym: []*Term{e.tb.Extract(7, 0, t)}}
		}
	}
	n := e.concr(v, w)
	r := rune(int32(uint32(n)))
	if n > 0x10ffff {
		r = utf8.RuneError
	}
	return &Str{s: string(r)}
}

// ---- maps ----

func (e *Exec) newMap(kt types.Type) *Map {
	return &Map{idx: map[any]*MapEnt{}, init: e.initMode, kt: kt}
}

type ckey struct {
	t types.Type
	n uint64
	s string
	o any
}

// ckeyOf gives a hashable key for concrete values.
func (e *Exec) ckeyOf(v V, t *TInfo) (any, bool) {
	switch t.k {
	case kBool, kInt, kUint:
		if v.o != nil {
			return nil, false
		}
		return ckey{n: v.n}, true
	case kFloat:
		if v.o != nil {
			return nil, false
		}
		if f64(v.n, t.w) == 0 {
			return ckey{}, true
		}
		return ckey{n: v.n}, true
	case kString:
		s := strOf(v)
		if s.sym != nil {
			return nil, false
		}
		return ckey{s: s.s}, true
	case kPtr, kChan, kUnsafePtr:
		return ckey{n: v.n, o: v.o}, true
	case kIface:
		if v.o == nil {
			return ckey{}, true
		}
		i := v.o.(*Iface)
		k, ok := e.ckeyOf(i.v, e.p.tinfo(i.t))
		if !ok {
			return nil, false
		}
		if ck, ok := k.(ckey); ok && ck.t == nil {
			ck.t = i.t
			return ck, true
		}
		return nil, false
	}
	return nil, false
}

func (e *Exec) mapFind(m *Map, k V) *MapEnt {
	kt := e.p.tinfo(m.kt)
	ck, ok := e.ckeyOf(k, kt)
	if ok && m.nsym == 0 {
		return m.idx[ck]
	}
	if ok {
		if en := m.idx[ck]; en != nil {
			return en
		}
	}
	for _, en := range m.ents {
		if en.dead {
			continue
		}
		if e.truth(e.equal(en.k, k, kt)) {
			return en
		}
	}
	return nil
}

func (e *Exec) mapSave(m *Map) {
	if !m.init || e.initMode || m.saved {
		return
	}
	m.saved = true
	ents := make([]MapEnt, len(m.ents))
	for i, en := range m.ents {
		ents[i] = *en
	}
	old := append([]*MapEnt(nil), m.ents...)
	idx := map[any]*MapEnt{}
	for k, v := range m.idx {
		idx[k] = v
	}
	n, nsym := m.n, m.nsym
	e.undoMaps = append(e.undoMaps, func() {
		for i := range old {
			*old[i] = ents[i]
		}
		m.ents, m.idx, m.n, m.nsym, m.saved = old, idx, n, nsym, false
	})
}

func (e *Exec) mapSet(m *Map, k, v V) {
	e.mapSave(m)
	if en := e.mapFind(m, k); en != nil {
		en.v = v
		return
	}
	kt := e.p.tinfo(m.kt)
	en := &MapEnt{k: k, v: v}
	m.ents = append(m.ents, en)
	m.n++
	if ck, ok := e.ckeyOf(k, kt); ok {
		m.idx[ck] = en
	} else {
		m.nsym++
	}
}

func (e *Exec) mapDelete(m *Map, k V) {
	e.mapSave(m)
	en := e.mapFind(m, k)
	if en == nil {
		return
	}
	en.dead = true
	m.n--
	kt := e.p.tinfo(m.kt)
	if ck, ok := e.ckeyOf(en.k, kt); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == en {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			break
		}
	}
}

var _ = bits.Len
