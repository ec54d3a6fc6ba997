package main

// Hash-consed bit-vector / boolean terms with local simplification.
// Width 0 means Bool. All bit-vector terms have width <= 64.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OIte // bool or bv
	OEq  // bv,bv -> bool  (bool,bool -> bool as well)
	OUlt
	OSlt
	OConcat
	OExtract // k = lo, w = hi-lo+1
	OSExt
	OBNot
	OBAnd
	OBOr
	OBXor
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OFP // k = fp opcode
)

type VarSet [4]uint64

func (v *VarSet) overlaps(o *VarSet) bool {
	return v[0]&o[0]|v[1]&o[1]|v[2]&o[2]|v[3]&o[3] != 0
}
func (v *VarSet) union(o *VarSet) {
	v[0] |= o[0]
	v[1] |= o[1]
	v[2] |= o[2]
	v[3] |= o[3]
}

type Term struct {
	op      Op
	w       int
	k       uint64
	a, b, c *Term
	id      int
	h1, h2  uint64
	vars    VarSet
	fin     bool // a decision diagram: a constant, or an ITE on a Boolean variable, ordered by variable, over such terms
	cl      int  // number of leaves of an ITE tree with constant leaves, 0 for other terms
	defd    int  // solver generation in which a definition was sent
}

type termKey struct {
	op      Op
	w       int
	k       uint64
	a, b, c *Term
}

// TB is a term builder (one per worker).
type TB struct {
	tab    map[termKey]*Term
	nextID int
	tt, ff *Term
}

func NewTB() *TB {
	tb := &TB{tab: make(map[termKey]*Term, 1<<14)}
	tb.tt = tb.mk(OConst, 0, 1, nil, nil, nil)
	tb.ff = tb.mk(OConst, 0, 0, nil, nil, nil)
	return tb
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func (tb *TB) mk(op Op, w int, k uint64, a, b, c *Term) *Term {
	key := termKey{op, w, k, a, b, c}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: tb.nextID}
	tb.nextID++
	h1 := mix(mix(mix(0x1234567, uint64(op)), uint64(w)), k)
	h2 := mix(mix(mix(0xabcdef01, k), uint64(w)), uint64(op))
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			h1 = mix(h1, x.h1)
			h2 = mix(h2, x.h2)
			t.vars.union(&x.vars)
		} else {
			h1 = mix(h1, 77)
		}
	}
	t.h1, t.h2 = h1, h2
	switch {
	case op == OConst:
		t.cl = 1
	case op == OIte && b.cl > 0 && c.cl > 0 && b.cl+c.cl <= 130:
		t.cl = b.cl + c.cl
	}
	t.fin = op == OConst || op == OIte && w > 0 && a.op == OVar && b.fin && c.fin &&
		(b.op == OConst || a.k < b.a.k) && (c.op == OConst || a.k < c.a.k)
	if op == OVar {
		t.vars[(k/64)%4] |= 1 << (k % 64)
	}
	tb.tab[key] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *Term) isC() bool         { return t.op == OConst }
func (t *Term) isK(k uint64) bool { return t.op == OConst && t.k == k }
func (tb *TB) Const(w int, k uint64) *Term {
	if w == 0 {
		if k&1 == 1 {
			return tb.tt
		}
		return tb.ff
	}
	return tb.mk(OConst, w, k&mask(w), nil, nil, nil)
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.tt
	}
	return tb.ff
}
func (tb *TB) Var(id int, w int) *Term { return tb.mk(OVar, w, uint64(id), nil, nil, nil) }

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tb.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return tb.mk(ONot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isC() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.ff
	}
	if a.h1 > b.h1 {
		a, b = b, a
	}
	return tb.mk(OAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isC() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tb.tt
	}
	if a.h1 > b.h1 {
		a, b = b, a
	}
	return tb.mk(OOr, 0, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isC() && b.isC() {
			if a.k == 1 {
				return c
			}
			return tb.Not(c)
		}
		if a.isC() {
			if a.k == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isC() {
			if b.k == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.b == a && implies(c, b.a) {
		return b
	}
	if a.op == OIte && a.c == b && implies(a.a, c) {
		return a
	}
	return tb.mk(OIte, a.w, 0, c, a, b)
}

// isIteC reports an ITE tree with only constant leaves, of bounded size.
func (tb *TB) isIteC(t *Term) bool {
	return t.op == OIte && t.cl > 0
}

// zeroTop matches "the bits of x from lo up are zero".
func zeroTop(c *Term) (x *Term, lo int, ok bool) {
	if c.op != OEq {
		return
	}
	a, b := c.a, c.b
	if a.isC() {
		a, b = b, a
	}
	if !b.isK(0) {
		return
	}
	if a.op == OExtract {
		l := int(a.k)
		if l+a.w == a.a.w {
			return a.a, l, true
		}
		return
	}
	return a, 0, true
}

// implies is a cheap syntactic check of c => d for bounds on one term.
func implies(c, d *Term) bool {
	if c == d {
		return true
	}
	if x, l1, ok := zeroTop(c); ok {
		if y, l2, ok := zeroTop(d); ok {
			return x == y && l1 <= l2
		}
		return false
	}
	if c.op == OUlt && d.op == OUlt {
		if c.a == d.a && c.b.isC() && d.b.isC() {
			return c.b.k <= d.b.k
		}
		if c.b == d.b && c.a.isC() && d.a.isC() {
			return c.a.k >= d.a.k
		}
	}
	return false
}

func (tb *TB) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return tb.Ite(t.a, tb.mapIte(t.b, f), tb.mapIte(t.c, f))
	}
	return f(t)
}

// rng returns a cheap unsigned range.
func rng(t *Term) (uint64, uint64) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OConcat:
		l1, h1 := rng(t.a)
		l2, h2 := rng(t.b)
		s := uint(t.b.w)
		return l1<<s | l2, h1<<s | h2
	case OIte:
		if t.w > 0 {
			l1, h1 := rng(t.b)
			l2, h2 := rng(t.c)
			return min(l1, l2), max(h1, h2)
		}
	case OBAnd:
		_, h1 := rng(t.a)
		_, h2 := rng(t.b)
		return 0, min(h1, h2)
	case OURem:
		if t.b.isC() && t.b.k > 0 {
			return 0, t.b.k - 1
		}
	case OUDiv:
		if t.b.isC() && t.b.k > 0 {
			l, h := rng(t.a)
			return l / t.b.k, h / t.b.k
		}
	case OAdd:
		l1, h1 := rng(t.a)
		l2, h2 := rng(t.b)
		s, c := bits.Add64(h1, h2, 0)
		if c == 0 && s <= mask(t.w) {
			return l1 + l2, s
		}
	}
	return 0, mask(t.w)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.tt
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		if a.h1 > b.h1 {
			a, b = b, a
		}
		return tb.mk(OEq, 0, 0, a, b, nil)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if b.isC() {
		lo, hi := rng(a)
		if b.k < lo || b.k > hi {
			return tb.ff
		}
		switch a.op {
		case OConcat:
			return tb.And(tb.Eq(a.a, tb.Const(a.a.w, b.k>>uint(a.b.w))), tb.Eq(a.b, tb.Const(a.b.w, b.k)))
		case OAdd:
			if a.b.isC() {
				return tb.Eq(a.a, tb.Const(a.w, b.k-a.b.k))
			}
		case OBXor:
			if a.b.isC() {
				return tb.Eq(a.a, tb.Const(a.w, b.k^a.b.k))
			}
		case OBNot:
			return tb.Eq(a.a, tb.Const(a.w, ^b.k))
		case OSExt:
			lowk := b.k & mask(a.a.w)
			if uint64(sext(lowk, a.a.w))&mask(a.w) == b.k {
				return tb.Eq(a.a, tb.Const(a.a.w, lowk))
			}
			return tb.ff
		case OIte:
			if a.b.isC() || a.c.isC() || tb.isIteC(a) {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		}
	} else {
		la, ha := rng(a)
		lb, hb := rng(b)
		if ha < lb || hb < la {
			return tb.ff
		}
		if a.op == OConcat && b.op == OConcat {
			if a.b.w == b.b.w {
				return tb.And(tb.Eq(a.a, b.a), tb.Eq(a.b, b.b))
			}
			// split at the highest common cut if both top parts align after trimming
			pa, pb := parts(a), parts(b)
			if cut, ok := commonCut(pa, pb); ok {
				return tb.And(tb.Eq(tb.Extract(a.w-1, cut, a), tb.Extract(b.w-1, cut, b)), tb.Eq(tb.Extract(cut-1, 0, a), tb.Extract(cut-1, 0, b)))
			}
		}
		// zero-extended vs anything whose width matches is left alone
	}
	if a.op == OAdd && b.op == OAdd {
		if a.a == b.a {
			return tb.Eq(a.b, b.b)
		}
		if a.b == b.b {
			return tb.Eq(a.a, b.a)
		}
	}
	if a.h1 > b.h1 && !b.isC() {
		a, b = b, a
	}
	return tb.mk(OEq, 0, 0, a, b, nil)
}

func commonCut(pa, pb []*Term) (int, bool) {
	cuts := map[int]bool{}
	n := 0
	for i := len(pa) - 1; i > 0; i-- {
		n += pa[i].w
		cuts[n] = true
	}
	n = 0
	for i := len(pb) - 1; i > 0; i-- {
		n += pb[i].w
		if cuts[n] {
			return n, true
		}
	}
	return 0, false
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Ult width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return tb.ff
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.k < b.k)
	}
	la, ha := rng(a)
	lb, hb := rng(b)
	if ha < lb {
		return tb.tt
	}
	if la >= hb {
		return tb.ff
	}
	if b.isK(1) {
		return tb.Eq(a, tb.Const(a.w, 0))
	}
	if a.isK(0) {
		return tb.Not(tb.Eq(b, a))
	}
	if (b.isC() && tb.isIteC(a)) || (b.isC() && a.op == OIte && (a.b.isC() || a.c.isC())) {
		return tb.Ite(a.a, tb.Ult(a.b, b), tb.Ult(a.c, b))
	}
	if (a.isC() && tb.isIteC(b)) || (a.isC() && b.op == OIte && (b.b.isC() || b.c.isC())) {
		return tb.Ite(b.a, tb.Ult(a, b.b), tb.Ult(a, b.c))
	}
	// strip common zero prefix
	za, zb := topZeros(a), topZeros(b)
	if z := min(za, zb); z > 0 && z < a.w {
		return tb.Ult(tb.Extract(a.w-z-1, 0, a), tb.Extract(b.w-z-1, 0, b))
	}
	// concat vs const with all-zero low part: compare high parts only
	if b.isC() && a.op == OConcat {
		lw := a.b.w
		if b.k&mask(lw) == 0 {
			return tb.Ult(a.a, tb.Const(a.a.w, b.k>>uint(lw)))
		}
		if a.a.isC() {
			hk := b.k >> uint(lw)
			if a.a.k == hk {
				return tb.Ult(a.b, tb.Const(lw, b.k))
			}
		}
	}
	if a.isC() && b.op == OConcat {
		lw := b.b.w
		if a.k&mask(lw) == mask(lw) {
			return tb.Ult(tb.Const(b.a.w, a.k>>uint(lw)), b.a)
		}
	}
	// x < 2^k  <=>  high bits are zero
	if b.isC() && b.k&(b.k-1) == 0 && a.op != OIte {
		n := bits.TrailingZeros64(b.k)
		if n > 0 && n < a.w && (a.op == OVar || a.op == OExtract || a.op == OConcat) {
			return tb.Eq(tb.Extract(a.w-1, n, a), tb.Const(a.w-n, 0))
		}
	}
	return tb.mk(OUlt, 0, 0, a, b, nil)
}

func topZeros(t *Term) int {
	switch t.op {
	case OConst:
		return t.w - bits.Len64(t.k)
	case OConcat:
		if t.a.isC() {
			z := topZeros(t.a)
			if z == t.a.w {
				return z + topZeros(t.b)
			}
			return z
		}
		return 0
	}
	return 0
}

func (tb *TB) Ule(a, b *Term) *Term { return tb.Not(tb.Ult(b, a)) }

func (tb *TB) Slt(a, b *Term) *Term {
	if a == b {
		return tb.ff
	}
	if a.isC() && b.isC() {
		return tb.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	sg := uint64(1) << uint(a.w-1)
	_, ha := rng(a)
	_, hb := rng(b)
	if ha < sg && hb < sg {
		return tb.Ult(a, b)
	}
	if b.isC() && tb.isIteC(a) || (b.isC() && a.op == OIte && (a.b.isC() || a.c.isC())) {
		return tb.Ite(a.a, tb.Slt(a.b, b), tb.Slt(a.c, b))
	}
	if a.isC() && tb.isIteC(b) || (a.isC() && b.op == OIte && (b.b.isC() || b.c.isC())) {
		return tb.Ite(b.a, tb.Slt(a, b.b), tb.Slt(a, b.c))
	}
	if b.isK(0) {
		return tb.Eq(tb.Extract(a.w-1, a.w-1, a), tb.Const(1, 1))
	}
	if ha < sg && b.isC() && b.k >= sg { // nonneg < negative
		return tb.ff
	}
	if hb < sg && a.isC() && a.k >= sg {
		return tb.tt
	}
	return tb.mk(OSlt, 0, 0, a, b, nil)
}

// parts flattens a concat, most significant first.
func parts(t *Term) []*Term {
	var out []*Term
	for t.op == OConcat {
		out = append(out, t.a)
		t = t.b
	}
	return append(out, t)
}

// Concat joins parts, most significant first.
func (tb *TB) Concat(ps ...*Term) *Term {
	// flatten + merge
	var fl []*Term
	for _, p := range ps {
		if p == nil || p.w == 0 {
			continue
		}
		if p.op == OConcat {
			fl = append(fl, parts(p)...)
		} else {
			fl = append(fl, p)
		}
	}
	out := fl[:0:0]
	for _, p := range fl {
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.isC() && p.isC() {
				out[n-1] = tb.Const(q.w+p.w, q.k<<uint(p.w)|p.k)
				continue
			}
			if q.op == OExtract && p.op == OExtract && q.a == p.a && q.k == p.k+uint64(p.w) {
				out[n-1] = tb.Extract(int(q.k)+q.w-1, int(p.k), q.a)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) > 1 {
		it := -1
		for i, p := range out {
			if p.isC() {
				continue
			}
			if it >= 0 || !tb.isIteC(p) {
				it = -2
				break
			}
			it = i
		}
		if it >= 0 {
			w := 0
			for _, p := range out {
				w += p.w
			}
			return tb.mapIte(out[it], func(x *Term) *Term {
				k := uint64(0)
				for i, p := range out {
					if i == it {
						p = x
					}
					k = k<<uint(p.w) | p.k
				}
				return tb.Const(w, k)
			})
		}
	}
	t := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		t = tb.mk(OConcat, out[i].w+t.w, 0, out[i], t, nil)
	}
	return t
}

func (tb *TB) Extract(hi, lo int, t *Term) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return tb.Const(w, t.k>>uint(lo))
	case OExtract:
		return tb.Extract(hi+int(t.k), lo+int(t.k), t.a)
	case OConcat:
		lw := t.b.w
		if hi < lw {
			return tb.Extract(hi, lo, t.b)
		}
		if lo >= lw {
			return tb.Extract(hi-lw, lo-lw, t.a)
		}
		return tb.Concat(tb.Extract(hi-lw, 0, t.a), tb.Extract(lw-1, lo, t.b))
	case OIte:
		if tb.isIteC(t) {
			return tb.mapIte(t, func(x *Term) *Term { return tb.Extract(hi, lo, x) })
		}
	case OSExt:
		if hi < t.a.w {
			return tb.Extract(hi, lo, t.a)
		}
		if lo == 0 {
			return tb.SExt(w, t.a)
		}
	case OBAnd, OBOr, OBXor:
		if t.b.isC() || w <= 8 {
			x, y := tb.Extract(hi, lo, t.a), tb.Extract(hi, lo, t.b)
			switch t.op {
			case OBAnd:
				return tb.BAnd(x, y)
			case OBOr:
				return tb.BOr(x, y)
			default:
				return tb.BXor(x, y)
			}
		}
	case OBNot:
		return tb.BNot(tb.Extract(hi, lo, t.a))
	case OAdd:
		if lo == 0 {
			return tb.Add(tb.Extract(hi, 0, t.a), tb.Extract(hi, 0, t.b))
		}
	case OMul:
		if lo == 0 {
			return tb.Mul(tb.Extract(hi, 0, t.a), tb.Extract(hi, 0, t.b))
		}
	}
	return tb.mk(OExtract, w, uint64(lo), t, nil, nil)
}

func (tb *TB) ZExt(w int, t *Term) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tb.Extract(w-1, 0, t)
	}
	if tb.isIteC(t) {
		return tb.mapIte(t, func(x *Term) *Term { return tb.Const(w, x.k) })
	}
	return tb.Concat(tb.Const(w-t.w, 0), t)
}

func (tb *TB) SExt(w int, t *Term) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tb.Extract(w-1, 0, t)
	}
	if t.isC() {
		return tb.Const(w, uint64(sext(t.k, t.w)))
	}
	if tb.isIteC(t) {
		return tb.mapIte(t, func(x *Term) *Term { return tb.Const(w, uint64(sext(x.k, x.w))) })
	}
	if _, h := rng(t); h < 1<<uint(t.w-1) {
		return tb.ZExt(w, t)
	}
	if t.op == OSExt {
		return tb.SExt(w, t.a)
	}
	return tb.mk(OSExt, w, 0, t, nil, nil)
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isC() {
		return tb.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, a.w, 0, a, nil, nil)
}

// bitwise combines with segment splitting where a side is constant 0/1s.
func (tb *TB) segs(a, b *Term) ([]*Term, []*Term, bool) {
	if a.op != OConcat && b.op != OConcat && !a.isC() && !b.isC() {
		return nil, nil, false
	}
	pa, pb := parts(a), parts(b)
	// refine constants into runs of equal bits lazily: cut points
	cut := map[int]bool{}
	n := 0
	for i := len(pa) - 1; i >= 0; i-- {
		n += pa[i].w
		cut[n] = true
	}
	n = 0
	for i := len(pb) - 1; i >= 0; i-- {
		n += pb[i].w
		cut[n] = true
	}
	addRuns := func(ps []*Term) {
		n := 0
		for i := len(ps) - 1; i >= 0; i-- {
			p := ps[i]
			if p.isC() {
				for j := 1; j < p.w; j++ {
					if (p.k>>uint(j))&1 != (p.k>>uint(j-1))&1 {
						cut[n+j] = true
					}
				}
			}
			n += p.w
		}
	}
	addRuns(pa)
	addRuns(pb)
	if len(cut) <= 1 {
		return nil, nil, false
	}
	if len(cut) > 24 {
		return nil, nil, false
	}
	var oa, ob []*Term
	lo := 0
	for i := 1; i <= a.w; i++ {
		if cut[i] {
			oa = append(oa, tb.Extract(i-1, lo, a))
			ob = append(ob, tb.Extract(i-1, lo, b))
			lo = i
		}
	}
	// reverse to MSB first
	for i, j := 0, len(oa)-1; i < j; i, j = i+1, j-1 {
		oa[i], oa[j] = oa[j], oa[i]
		ob[i], ob[j] = ob[j], ob[i]
	}
	return oa, ob, true
}

func (tb *TB) BAnd(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return tb.Const(a.w, a.k&b.k)
	}
	if a == b {
		return a
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(b.w) {
			return a
		}
	}
	if oa, ob, ok := tb.segs(a, b); ok {
		res := make([]*Term, len(oa))
		for i := range oa {
			res[i] = tb.BAnd(oa[i], ob[i])
		}
		return tb.Concat(res...)
	}
	if a.h1 > b.h1 && !b.isC() {
		a, b = b, a
	}
	return tb.mk(OBAnd, a.w, 0, a, b, nil)
}

func (tb *TB) BOr(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return tb.Const(a.w, a.k|b.k)
	}
	if a == b {
		return a
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return b
		}
	}
	if oa, ob, ok := tb.segs(a, b); ok {
		res := make([]*Term, len(oa))
		for i := range oa {
			res[i] = tb.BOr(oa[i], ob[i])
		}
		return tb.Concat(res...)
	}
	if a.h1 > b.h1 && !b.isC() {
		a, b = b, a
	}
	return tb.mk(OBOr, a.w, 0, a, b, nil)
}

func (tb *TB) BXor(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return tb.Const(a.w, a.k^b.k)
	}
	if a == b {
		return tb.Const(a.w, 0)
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return tb.BNot(a)
		}
	}
	if oa, ob, ok := tb.segs(a, b); ok {
		res := make([]*Term, len(oa))
		for i := range oa {
			res[i] = tb.BXor(oa[i], ob[i])
		}
		return tb.Concat(res...)
	}
	if a.h1 > b.h1 && !b.isC() {
		a, b = b, a
	}
	return tb.mk(OBXor, a.w, 0, a, b, nil)
}

func (tb *TB) Add(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return tb.Const(a.w, a.k+b.k)
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isC() {
			return tb.Add(a.a, tb.Const(a.w, a.b.k+b.k))
		}
		if tb.isIteC(a) {
			return tb.mapIte(a, func(x *Term) *Term { return tb.Const(x.w, x.k+b.k) })
		}
		return tb.mk(OAdd, a.w, 0, a, b, nil)
	}
	if a.op == OAdd && a.b.isC() {
		return tb.Add(tb.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isC() {
		return tb.Add(tb.Add(a, b.a), b.b)
	}
	// x + (-y) cancellation: Neg is represented as Mul(y,-1)
	if b.op == OMul && b.b.isK(mask(b.w)) && b.a == a {
		return tb.Const(a.w, 0)
	}
	if a.op == OMul && a.b.isK(mask(a.w)) && a.a == b {
		return tb.Const(a.w, 0)
	}
	if b.op == OMul && b.b.isK(mask(b.w)) && a.op == OAdd {
		if a.a == b.a {
			return a.b
		}
		if a.b == b.a {
			return a.a
		}
	}
	if a.h1 > b.h1 {
		a, b = b, a
	}
	return tb.mk(OAdd, a.w, 0, a, b, nil)
}

func (tb *TB) Neg(a *Term) *Term { return tb.Mul(a, tb.Const(a.w, mask(a.w))) }
func (tb *TB) Sub(a, b *Term) *Term {
	if a == b {
		return tb.Const(a.w, 0)
	}
	if b.isC() {
		return tb.Add(a, tb.Const(a.w, -b.k))
	}
	return tb.Add(a, tb.Neg(b))
}

func (tb *TB) Mul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() {
		return tb.Const(a.w, a.k*b.k)
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return tb.ShlK(a, bits.TrailingZeros64(b.k))
		}
		if a.op == OMul && a.b.isC() {
			return tb.Mul(a.a, tb.Const(a.w, a.b.k*b.k))
		}
		if a.op == OAdd && a.b.isC() {
			return tb.Add(tb.Mul(a.a, b), tb.Const(a.w, a.b.k*b.k))
		}
		if tb.isIteC(a) {
			return tb.mapIte(a, func(x *Term) *Term { return tb.Const(x.w, x.k*b.k) })
		}
		return tb.mk(OMul, a.w, 0, a, b, nil)
	}
	if a.h1 > b.h1 {
		a, b = b, a
	}
	return tb.mk(OMul, a.w, 0, a, b, nil)
}

func (tb *TB) Div(op Op, a, b *Term) *Term { // b known nonzero on this path
	if a.isC() && b.isC() && b.k != 0 {
		switch op {
		case OUDiv:
			return tb.Const(a.w, a.k/b.k)
		case OURem:
			return tb.Const(a.w, a.k%b.k)
		case OSDiv:
			x, y := sext(a.k, a.w), sext(b.k, b.w)
			if y == -1 {
				return tb.Const(a.w, uint64(-x))
			}
			return tb.Const(a.w, uint64(x/y))
		case OSRem:
			x, y := sext(a.k, a.w), sext(b.k, b.w)
			if y == -1 {
				return tb.Const(a.w, 0)
			}
			return tb.Const(a.w, uint64(x%y))
		}
	}
	if b.isC() && b.k != 0 && tb.isIteC(a) {
		return tb.mapIte(a, func(x *Term) *Term { return tb.Div(op, x, b) })
	}
	if b.isC() && b.k != 0 {
		sg := uint64(1) << uint(a.w-1)
		_, ha := rng(a)
		if op == OSDiv && ha < sg && b.k < sg {
			op = OUDiv
		}
		if op == OSRem && ha < sg && b.k < sg {
			op = OURem
		}
		if b.k&(b.k-1) == 0 {
			n := bits.TrailingZeros64(b.k)
			if op == OUDiv {
				return tb.LShrK(a, n)
			}
			if op == OURem {
				if n == 0 {
					return tb.Const(a.w, 0)
				}
				return tb.ZExt(a.w, tb.Extract(n-1, 0, a))
			}
		}
	}
	return tb.mk(op, a.w, 0, a, b, nil)
}

func (tb *TB) ShlK(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return tb.Const(a.w, 0)
	}
	return tb.Concat(tb.Extract(a.w-n-1, 0, a), tb.Const(n, 0))
}

func (tb *TB) LShrK(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return tb.Const(a.w, 0)
	}
	return tb.Concat(tb.Const(n, 0), tb.Extract(a.w-1, n, a))
}

func (tb *TB) AShrK(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		n = a.w - 1
	}
	return tb.SExt(a.w, tb.Extract(a.w-1, n, a))
}

// Shift with Go semantics; amt is unsigned of any width.
func (tb *TB) Shift(op Op, a, amt *Term) *Term {
	if amt.isC() {
		n := 64
		if amt.k < 64 {
			n = int(amt.k)
		}
		switch op {
		case OShl:
			return tb.ShlK(a, n)
		case OLShr:
			return tb.LShrK(a, n)
		default:
			return tb.AShrK(a, n)
		}
	}
	w := a.w
	if amt.w < w {
		return tb.mk(op, w, 0, a, tb.ZExt(w, amt), nil)
	}
	if amt.w == w {
		return tb.mk(op, w, 0, a, amt, nil)
	}
	big := tb.Not(tb.Ult(amt, tb.Const(amt.w, uint64(w))))
	s := tb.mk(op, w, 0, a, tb.Extract(w-1, 0, amt), nil)
	if op == OAShr {
		return tb.Ite(big, tb.AShrK(a, w-1), s)
	}
	return tb.Ite(big, tb.Const(w, 0), s)
}

// ---- floating point opcodes (bits in, bits out) ----
const (
	fpAdd = iota
	fpSub
	fpMul
	fpDiv
	fpSqrt
	fpCvtFF // a: float of width a.w -> float of width w
	fpFromS // signed int a -> float w
	fpFromU // unsigned int a -> float w
	fpToS   // float a -> signed int w (RTZ)
	fpToU   // float a -> unsigned int w
)

// apply2 computes f over two decision diagrams (b may be nil) by cases.
func (tb *TB) apply2(a, b *Term, f func(x, y uint64) *Term) *Term {
	memo := map[[2]*Term]*Term{}
	var rec func(a, b *Term) *Term
	rec = func(a, b *Term) *Term {
		if a.isC() && (b == nil || b.isC()) {
			var y uint64
			if b != nil {
				y = b.k
			}
			return f(a.k, y)
		}
		k := [2]*Term{a, b}
		if t, ok := memo[k]; ok {
			return t
		}
		var c *Term
		if !a.isC() {
			c = a.a
		}
		if b != nil && !b.isC() && (c == nil || b.a.k < c.k) {
			c = b.a
		}
		a1, a0, b1, b0 := a, a, b, b
		if !a.isC() && a.a == c {
			a1, a0 = a.b, a.c
		}
		if b != nil && !b.isC() && b.a == c {
			b1, b0 = b.b, b.c
		}
		t := tb.Ite(c, rec(a1, b1), rec(a0, b0))
		memo[k] = t
		return t
	}
	return rec(a, b)
}

// finPair reports that a and b are decision diagrams, small enough together and not both constant.
func finPair(a, b *Term) bool {
	if !a.fin || b != nil && !b.fin || a.isC() && (b == nil || b.isC()) {
		return false
	}
	v := a.vars
	if b != nil {
		v.union(&b.vars)
	}
	n := 0
	for _, x := range v {
		n += bits.OnesCount64(x)
	}
	return n <= 10
}

func (tb *TB) FP(op uint64, w int, a, b *Term) *Term {
	if finPair(a, b) {
		return tb.apply2(a, b, func(x, y uint64) *Term { return tb.Const(w, fpConc(op, w, a.w, x, y)) })
	}
	return tb.mk(OFP, w, op, a, b, nil)
}

func (tb *TB) fNaN(a *Term) *Term {
	if a.w == 64 {
		return tb.Ult(tb.Const(63, 0x7ff0000000000000), tb.Extract(62, 0, a))
	}
	return tb.Ult(tb.Const(31, 0x7f800000), tb.Extract(30, 0, a))
}
func (tb *TB) fZero(a *Term) *Term {
	return tb.Eq(tb.Extract(a.w-2, 0, a), tb.Const(a.w-1, 0))
}
func (tb *TB) FEq(a, b *Term) *Term {
	if finPair(a, b) {
		return tb.apply2(a, b, func(x, y uint64) *Term { return tb.Bool(f64(x, a.w) == f64(y, a.w)) })
	}
	nn := tb.And(tb.Not(tb.fNaN(a)), tb.Not(tb.fNaN(b)))
	return tb.And(nn, tb.Or(tb.Eq(a, b), tb.And(tb.fZero(a), tb.fZero(b))))
}
func (tb *TB) fKey(a *Term) *Term {
	sg := tb.Eq(tb.Extract(a.w-1, a.w-1, a), tb.Const(1, 1))
	return tb.Ite(sg, tb.BNot(a), tb.Concat(tb.Const(1, 1), tb.Extract(a.w-2, 0, a)))
}
func (tb *TB) FLt(a, b *Term) *Term {
	if finPair(a, b) {
		return tb.apply2(a, b, func(x, y uint64) *Term { return tb.Bool(f64(x, a.w) < f64(y, a.w)) })
	}
	nn := tb.And(tb.Not(tb.fNaN(a)), tb.Not(tb.fNaN(b)))
	zz := tb.And(tb.fZero(a), tb.fZero(b))
	return tb.And(nn, tb.And(tb.Not(zz), tb.Ult(tb.fKey(a), tb.fKey(b))))
}
func (tb *TB) FLe(a, b *Term) *Term { return tb.Or(tb.FLt(a, b), tb.FEq(a, b)) }

// ---- printing ----

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OConcat: "concat", OBNot: "bvnot", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr"}

func constStr(w int, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, k)
	}
	return fmt.Sprintf("#b%0*b", w, k)
}

func varName(id, w int) string { return fmt.Sprintf("v%d_%d", id, w) }

// emit writes definitions needed for t and returns its reference.
func emit(sb *strings.Builder, t *Term, gen int, nd *int) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		n := varName(int(t.k), t.w)
		if t.defd != gen {
			t.defd = gen
			*nd++
			fmt.Fprintf(sb, "(declare-const %s %s)\n", n, sortStr(t.w))
		}
		return n
	}
	n := fmt.Sprintf("t%d", t.id)
	if t.defd == gen {
		return n
	}
	var body string
	ea := emit(sb, t.a, gen, nd)
	var eb, ec string
	if t.b != nil {
		eb = emit(sb, t.b, gen, nd)
	}
	if t.c != nil {
		ec = emit(sb, t.c, gen, nd)
	}
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+t.w-1, t.k, ea)
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ea)
	case OFP:
		body = fpBody(t, ea, eb)
	default:
		body = "(" + opNames[t.op] + " " + ea
		if eb != "" {
			body += " " + eb
		}
		if ec != "" {
			body += " " + ec
		}
		body += ")"
	}
	t.defd = gen
	*nd++
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", n, sortStr(t.w), body)
	return n
}

func fpSort(w int) string {
	if w == 64 {
		return "11 53"
	}
	return "8 24"
}
func toFP(w int, s string) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(w), s) }

func fpBody(t *Term, ea, eb string) string {
	switch t.k {
	case fpAdd, fpSub, fpMul, fpDiv:
		n := map[uint64]string{fpAdd: "fp.add", fpSub: "fp.sub", fpMul: "fp.mul", fpDiv: "fp.div"}[t.k]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, toFP(t.w, ea), toFP(t.w, eb))
	case fpSqrt:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", toFP(t.w, ea))
	case fpCvtFF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), toFP(t.a.w, ea))
	case fpFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), ea)
	case fpFromU:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), ea)
	case fpToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(t.a.w, ea))
	case fpToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(t.a.w, ea))
	}
	panic("fp op")
}
