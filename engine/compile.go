package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int // >=0 register, -1 const, -2 global
	c V
	g int
}

func (o *opnd) v(e *Exec, fr *Frame) V {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	if o.r == -1 {
		return o.c
	}
	return V{o: e.globals[o.g]}
}

type SymPtr struct {
	obj   *Obj
	base  int
	idx   *Term
	count int
	es    int
}

type comp struct {
	p    *Prog
	fn   *Fn
	regs map[ssa.Value]int
}

type unsup struct{ s string }

func (p *Prog) compile(fn *Fn) {
	if in := lookupIntrinsic(p, fn); in != nil && !fn.noIntr {
		fn.intr = in
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				fn.err = fmt.Errorf("not encodable: %s", u.s)
				return
			}
			panic(r)
		}
	}()
	f := fn.fn
	if len(f.Blocks) == 0 {
		fn.err = fmt.Errorf("no body (assembly or external)")
		return
	}
	if f.Pkg != nil {
		pp := f.Pkg.Pkg.Path()
		fn.isRepo = strings.HasPrefix(pp, p.repoMod) && (!strings.Contains(pp, "zz_verif") || strings.HasSuffix(pp, "/zz_verif/tsgen"))
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pp := o.Pkg.Pkg.Path()
		fn.isRepo = strings.HasPrefix(pp, p.repoMod) && !strings.Contains(pp, "zz_verif")
	}
	c := &comp{p: p, fn: fn, regs: map[ssa.Value]int{}}
	for _, x := range f.Params {
		c.reg(x)
	}
	fn.nparam = len(f.Params)
	for _, x := range f.FreeVars {
		c.reg(x)
	}
	fn.nfree = len(f.FreeVars)
	blocks := make([]*Block, len(f.Blocks))
	for i := range f.Blocks {
		blocks[i] = &Block{index: i, fn: fn}
	}
	fn.blocks = blocks
	for i, b := range f.Blocks {
		c.block(blocks[i], b)
	}
	if f.Recover != nil {
		fn.recover = blocks[f.Recover.Index]
	}
	fn.nregs = len(c.regs)
}

func (c *comp) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func (c *comp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, c: c.p.constV(x)}
	case *ssa.Global:
		c.p.compMu.Lock()
		i, ok := c.p.globIdx[x]
		c.p.compMu.Unlock()
		if !ok {
			panic(unsup{"unknown global " + x.String()})
		}
		return opnd{r: -2, g: i}
	case *ssa.Function:
		return opnd{r: -1, c: V{o: &Closure{fn: x}}}
	case *ssa.Builtin:
		return opnd{r: -1}
	}
	return opnd{r: c.reg(v)}
}

func (p *Prog) constV(x *ssa.Const) V {
	t := p.tinfo(x.Type())
	if x.Value == nil {
		return zeroV(t)
	}
	switch t.k {
	case kBool:
		if constant.BoolVal(x.Value) {
			return V{n: 1}
		}
		return V{}
	case kString:
		return mkStr(constant.StringVal(x.Value))
	case kInt, kUint:
		if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return V{n: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return V{n: u & mask(t.w)}
	case kFloat:
		f, _ := constant.Float64Val(x.Value)
		if t.w == 32 {
			f32, _ := constant.Float32Val(x.Value)
			return V{n: uint64(math.Float32bits(f32))}
		}
		return V{n: math.Float64bits(f)}
	case kUnsafePtr, kPtr:
		return V{}
	case kIface:
		return V{}
	}
	panic(unsup{"constant of type " + x.Type().String()})
}

// lateLoads: go/ssa reads a variable operand before a later call of the same
// statement, the gc compiler after it ("return v, f(&v)"). Loads of variables
// that belong to a return statement or a call's arguments are moved to just
// before their user.
func lateLoads(sb *ssa.BasicBlock) []ssa.Instruction {
	late := map[ssa.Instruction][]ssa.Instruction{} // user -> loads
	moved := map[ssa.Instruction]bool{}
	lastCall := -1
	pos := map[ssa.Instruction]int{}
	for i, in := range sb.Instrs {
		pos[in] = i
		if _, ok := in.(*ssa.Call); ok {
			lastCall = i
		}
	}
	if lastCall < 0 {
		return sb.Instrs
	}
	for i, in := range sb.Instrs {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || i > lastCall {
			continue
		}
		switch a := u.X.(type) {
		case *ssa.Alloc, *ssa.Global:
		case *ssa.FieldAddr:
			if _, ok := a.X.(*ssa.Alloc); !ok {
				continue
			}
		default:
			continue
		}
		refs := u.Referrers()
		if refs == nil || len(*refs) != 1 {
			continue
		}
		user := (*refs)[0]
		if user.Block() != sb || !u.Pos().IsValid() || !user.Pos().IsValid() || u.Pos() < user.Pos() {
			continue
		}
		switch user.(type) {
		case *ssa.Return, *ssa.Call:
		default:
			continue
		}
		between := false
		for j := i + 1; j < pos[user]; j++ {
			if _, ok := sb.Instrs[j].(*ssa.Call); ok {
				between = true
			}
		}
		if between {
			late[user] = append(late[user], in)
			moved[in] = true
		}
	}
	if len(moved) == 0 {
		return sb.Instrs
	}
	var out []ssa.Instruction
	for _, in := range sb.Instrs {
		if moved[in] {
			continue
		}
		out = append(out, late[in]...)
		out = append(out, in)
	}
	return out
}

func (c *comp) block(b *Block, sb *ssa.BasicBlock) {
	for _, in := range lateLoads(sb) {
		switch x := in.(type) {
		case *ssa.Phi:
			c.reg(x)
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			ed := c.edge(sb, 0)
			b.term = func(e *Exec, fr *Frame) *edge { return ed }
			continue
		case *ssa.If:
			cv := c.op(x.Cond)
			e1, e2 := c.edge(sb, 0), c.edge(sb, 1)
			b.term = func(e *Exec, fr *Frame) *edge {
				v := cv.v(e, fr)
				if v.o == nil {
					if v.n != 0 {
						return e1
					}
					return e2
				}
				if e.decide(v.o.(*Term), v.n != 0) {
					return e1
				}
				return e2
			}
			continue
		case *ssa.Return:
			ops := make([]opnd, len(x.Results))
			for i, r := range x.Results {
				ops[i] = c.op(r)
			}
			switch len(ops) {
			case 0:
				b.term = func(e *Exec, fr *Frame) *edge { return nil }
			case 1:
				b.term = func(e *Exec, fr *Frame) *edge { fr.ret = ops[0].v(e, fr); return nil }
			default:
				b.term = func(e *Exec, fr *Frame) *edge {
					t := make(Tuple, len(ops))
					for i := range ops {
						t[i] = ops[i].v(e, fr)
					}
					fr.ret = V{o: t}
					return nil
				}
			}
			continue
		case *ssa.Panic:
			v := c.op(x.X)
			b.term = func(e *Exec, fr *Frame) *edge {
				pv := v.v(e, fr)
				panic(&TargetPanic{val: pv, msg: "panic: " + e.descVal(pv), where: e.backtrace()})
			}
			continue
		}
		b.ops = append(b.ops, c.instr(in))
		b.ins = append(b.ins, in)
	}
	if b.term == nil {
		b.term = func(e *Exec, fr *Frame) *edge { e.unsupported("block without terminator"); return nil }
	}
}

func (e *Exec) descVal(v V) string {
	if i, ok := v.o.(*Iface); ok {
		switch o := i.v.o.(type) {
		case *Str:
			return o.s
		case *Obj:
			if len(o.n) > 0 {
				if s, ok := o.get(0).o.(*Str); ok {
					return s.s
				}
			}
		}
		return i.t.String()
	}
	return "?"
}

func (c *comp) edge(sb *ssa.BasicBlock, k int) *edge {
	to := sb.Succs[k]
	// which predecessor index is this edge?
	nth := 0
	for i := 0; i < k; i++ {
		if sb.Succs[i] == to {
			nth++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == sb {
			if nth == 0 {
				pi = i
				break
			}
			nth--
		}
	}
	ed := &edge{to: c.fn.blocks[to.Index]}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ed.moves = append(ed.moves, move{c.reg(ph), c.op(ph.Edges[pi])})
	}
	return ed
}

func (c *comp) instr(in ssa.Instruction) opFn {
	p := c.p
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		n := p.tinfo(x.Type().Underlying().(*types.Pointer).Elem()).cells
		return func(e *Exec, fr *Frame) { fr.regs[d] = V{o: e.newObj(n)} }
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.callInstr(x)
	case *ssa.ChangeInterface:
		return c.copyOp(x, x.X)
	case *ssa.ChangeType:
		return c.copyOp(x, x.X)
	case *ssa.Convert:
		return c.convert(x, x.X, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return c.convert(x, x.X, x.X.Type(), x.Type())
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.Extract:
		d, s, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(e *Exec, fr *Frame) { fr.regs[d] = s.v(e, fr).o.(Tuple)[i] }
	case *ssa.Field:
		d, s := c.reg(x), c.op(x.X)
		ti := p.tinfo(x.X.Type())
		ft, off := ti.fields[x.Field], ti.foff[x.Field]
		return func(e *Exec, fr *Frame) { fr.regs[d] = aggGet(s.v(e, fr).o.(*Agg), off, ft) }
	case *ssa.FieldAddr:
		d, s := c.reg(x), c.op(x.X)
		ti := p.tinfo(x.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(ti.foff[x.Field])
		return func(e *Exec, fr *Frame) {
			b := s.v(e, fr)
			if b.o == nil {
				e.rtpanic("invalid memory address or nil pointer dereference")
			}
			fr.regs[d] = V{b.n + off, b.o}
		}
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MakeClosure:
		d := c.reg(x)
		bs := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = c.op(b)
		}
		f := x.Fn.(*ssa.Function)
		return func(e *Exec, fr *Frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].v(e, fr)
			}
			fr.regs[d] = V{o: &Closure{fn: f, env: env}}
		}
	case *ssa.MakeInterface:
		d, s := c.reg(x), c.op(x.X)
		t := p.canon(x.X.Type())
		return func(e *Exec, fr *Frame) { fr.regs[d] = V{o: &Iface{t, s.v(e, fr)}} }
	case *ssa.MakeMap:
		d := c.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(e *Exec, fr *Frame) { fr.regs[d] = V{o: e.newMap(kt)} }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		et := p.tinfo(x.Type().Underlying().(*types.Slice).Elem())
		lw, cw := p.tinfo(x.Len.Type()), p.tinfo(x.Cap.Type())
		return func(e *Exec, fr *Frame) {
			lv, cv := l.v(e, fr), cp.v(e, fr)
			for _, q := range []struct {
				v V
				t *TInfo
			}{{lv, lw}, {cv, cw}} {
				if q.v.o != nil && q.t.w == 64 {
					t := q.v.o.(*Term)
					big := e.tb.Ult(e.tb.Const(64, 1<<40), t)
					if e.check(e.sv(b2u(q.v.n > 1<<40), big)) {
						e.rtpanic("makeslice: len out of range")
					}
				}
			}
			n, m := e.concInt(lv, lw.w, lw.k == kInt), e.concInt(cv, cw.w, cw.k == kInt)
			if n < 0 || n > 1<<40 {
				e.rtpanic("makeslice: len out of range")
			}
			if m < n {
				e.rtpanic("makeslice: cap out of range")
			}
			if m*et.cells > 1<<24 {
				e.unsupported("allocation of %d cells", m*et.cells)
			}
			fr.regs[d] = V{o: &Slice{obj: e.newObj(m * et.cells), len: n, cap: m, es: et.cells}}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(e *Exec, fr *Frame) {
			mv := m.v(e, fr)
			if mv.o == nil {
				e.rtpanic("assignment to entry in nil map")
			}
			e.mapSet(mv.o.(*Map), k.v(e, fr), v.v(e, fr))
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Range:
		d, s := c.reg(x), c.op(x.X)
		isStr := p.tinfo(x.X.Type()).k == kString
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			if isStr {
				fr.regs[d] = V{o: &Iter{str: strOf(v)}}
				return
			}
			it := &Iter{}
			if v.o != nil {
				it.m = v.o.(*Map)
				it.ents = append(it.ents, it.m.ents...)
			}
			fr.regs[d] = V{o: it}
		}
	case *ssa.RunDefers:
		return func(e *Exec, fr *Frame) { e.runDeferred(fr) }
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, s := c.reg(x), c.op(x.X)
		n := p.tinfo(x.Type().Underlying().(*types.Pointer).Elem()).alen
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			if v.o == nil {
				if n > 0 {
					e.rtpanic("cannot convert slice to array pointer: length too short")
				}
				fr.regs[d] = V{}
				return
			}
			sl := v.o.(*Slice)
			if sl.len < n {
				e.rtpanic("cannot convert slice to array pointer: length too short")
			}
			fr.regs[d] = V{uint64(sl.off), sl.obj}
		}
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		ti := p.tinfo(x.Val.Type())
		if ti.agg() {
			return func(e *Exec, fr *Frame) {
				pv := a.v(e, fr)
				if pv.o == nil {
					e.rtpanic("invalid memory address or nil pointer dereference")
				}
				e.storeT(pv.o.(*Obj), int(pv.n), ti, v.v(e, fr))
			}
		}
		return func(e *Exec, fr *Frame) {
			pv := a.v(e, fr)
			if pv.o == nil {
				e.rtpanic("invalid memory address or nil pointer dereference")
			}
			e.set(pv.o.(*Obj), int(pv.n), v.v(e, fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Go:
		ce := c.callee(&x.Call)
		return func(e *Exec, fr *Frame) {
			if ce.blt != nil {
				e.unsupported("go with a builtin")
			}
			fn, clo, args := ce.resolve(e, fr)
			e.spawn(func() {
				if clo != nil {
					e.callClosure(clo, args, nil)
					return
				}
				e.call(fn, args, nil, nil, nil)
			})
		}
	case *ssa.MakeChan:
		d := c.reg(x)
		return func(e *Exec, fr *Frame) { fr.regs[d] = V{o: &Chan{}} }
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(e *Exec, fr *Frame) { e.send(ch.v(e, fr), v.v(e, fr)) }
	case *ssa.Select:
		return c.selectInstr(x)
	}
	panic(unsup{fmt.Sprintf("instruction %T", in)})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *comp) copyOp(dst ssa.Value, src ssa.Value) opFn {
	d, s := c.reg(dst), c.op(src)
	return func(e *Exec, fr *Frame) { fr.regs[d] = s.v(e, fr) }
}

func (c *comp) unop(x *ssa.UnOp) opFn {
	d, s := c.reg(x), c.op(x.X)
	switch x.Op {
	case token.MUL:
		ti := c.p.tinfo(x.Type())
		if ti.agg() {
			return func(e *Exec, fr *Frame) {
				pv := s.v(e, fr)
				if pv.o == nil {
					e.rtpanic("invalid memory address or nil pointer dereference")
				}
				fr.regs[d] = e.loadT(pv.o.(*Obj), int(pv.n), ti)
			}
		}
		w := ti.w
		return func(e *Exec, fr *Frame) {
			pv := s.v(e, fr)
			switch ob := pv.o.(type) {
			case *Obj:
				i := int(pv.n)
				if ob.o == nil {
					fr.regs[d] = V{n: ob.n[i]}
				} else {
					fr.regs[d] = V{ob.n[i], ob.o[i]}
				}
			case nil:
				e.rtpanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				fr.regs[d] = e.symLoad(ob, pv.n, w)
			default:
				e.unsupported("load through %T", pv.o)
			}
		}
	case token.NOT:
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			if v.o == nil {
				fr.regs[d] = V{n: 1 - v.n}
			} else {
				fr.regs[d] = e.sv(1-v.n, e.tb.Not(v.o.(*Term)))
			}
		}
	case token.SUB:
		ti := c.p.tinfo(x.Type())
		w := ti.w
		if ti.k == kFloat {
			sg := uint64(1) << uint(w-1)
			return func(e *Exec, fr *Frame) {
				v := s.v(e, fr)
				if v.o == nil {
					fr.regs[d] = V{n: v.n ^ sg}
				} else {
					fr.regs[d] = e.sv(v.n^sg, e.tb.BXor(v.o.(*Term), e.tb.Const(w, sg)))
				}
			}
		}
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			n := -v.n & mask(w)
			if v.o == nil {
				fr.regs[d] = V{n: n}
			} else {
				fr.regs[d] = e.sv(n, e.tb.Neg(v.o.(*Term)))
			}
		}
	case token.XOR:
		w := c.p.tinfo(x.Type()).w
		return func(e *Exec, fr *Frame) {
			v := s.v(e, fr)
			n := ^v.n & mask(w)
			if v.o == nil {
				fr.regs[d] = V{n: n}
			} else {
				fr.regs[d] = e.sv(n, e.tb.BNot(v.o.(*Term)))
			}
		}
	case token.ARROW:
		et := c.p.tinfo(x.X.Type().Underlying().(*types.Chan).Elem())
		return func(e *Exec, fr *Frame) {
			v, ok := e.recv(s.v(e, fr), et)
			if x.CommaOk {
				v = V{o: Tuple{v, V{n: b2u(ok)}}}
			}
			fr.regs[d] = v
		}
	}
	panic(unsup{"unop " + x.Op.String()})
}

// symLoad reads obj[base + idx*es + fieldoff] for a symbolic in-range idx.
func (e *Exec) symLoad(sp *SymPtr, n uint64, w int) V {
	fo := int(n) // extra field offset accumulated by FieldAddr on top of the pointer
	// group equal consecutive constants
	tb := e.tb
	get := func(i int) *Term {
		v := sp.obj.get(sp.base + fo + i*sp.es)
		if v.o != nil {
			if t, ok := v.o.(*Term); ok {
				return t
			}
			e.unsupported("symbolic index into non-scalar table")
		}
		return tb.Const(w, v.n)
	}
	r := get(sp.count - 1)
	last := r
	iw := sp.idx.w
	for i := sp.count - 2; i >= 0; i-- {
		t := get(i)
		if t == last {
			continue
		}
		// indices <= i take t (for the run ending at i)
		last = t
		r = tb.Ite(tb.Ult(tb.Const(iw, uint64(i)), sp.idx), r, t)
	}
	// concrete value
	memo := map[*Term]uint64{}
	ci := e.evalTerm(sp.idx, memo)
	cv := sp.obj.n[sp.base+fo+int(ci)*sp.es]
	return e.sv(cv, r)
}

func (c *comp) indexAddr(x *ssa.IndexAddr) opFn {
	d, s, ix := c.reg(x), c.op(x.X), c.op(x.Index)
	it := c.p.tinfo(x.Index.Type())
	var et *TInfo
	alen := -1
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = c.p.tinfo(u.Elem())
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		et = c.p.tinfo(a.Elem())
		alen = int(a.Len())
	}
	es := et.cells
	loadOnly := et.scalar()
	if x.Referrers() != nil {
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			loadOnly = false
		}
	}
	return func(e *Exec, fr *Frame) {
		b := s.v(e, fr)
		var ob *Obj
		off, n := 0, alen
		if alen < 0 {
			if b.o != nil {
				sl := b.o.(*Slice)
				ob, off, n = sl.obj, sl.off, sl.len
			} else {
				n = 0
			}
		} else {
			if b.o == nil {
				e.rtpanic("invalid memory address or nil pointer dereference")
			}
			ob, off = b.o.(*Obj), int(b.n)
		}
		iv := ix.v(e, fr)
		i, sp := e.idx(iv, it, n, loadOnly)
		if sp != nil {
			fr.regs[d] = V{o: &SymPtr{obj: ob, base: off, idx: sp, count: n, es: es}}
			return
		}
		off += i * es
		if off < 0 {
			ob, off = ob.near(off, es)
		}
		fr.regs[d] = V{uint64(off), ob}
	}
}

// idx bounds-checks an index; returns either a concrete index or a symbolic one (when allowed).
func (e *Exec) idx(iv V, it *TInfo, n int, symOK bool) (int, *Term) {
	if iv.o == nil {
		var i int64
		if it.k == kInt {
			i = sext(iv.n, it.w)
		} else {
			i = int64(iv.n)
		}
		if i < 0 || i >= int64(n) {
			e.rtpanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := iv.o.(*Term)
	var t64 *Term
	if it.k == kInt {
		t64 = e.tb.SExt(64, t)
	} else {
		t64 = e.tb.ZExt(64, t)
	}
	var cn uint64
	if it.k == kInt {
		cn = uint64(sext(iv.n, it.w))
	} else {
		cn = iv.n
	}
	if !e.check(e.sv(b2u(cn < uint64(n)), e.tb.Ult(t64, e.tb.Const(64, uint64(n))))) {
		e.rtpanic(fmt.Sprintf("index out of range [%d] with length %d", int64(cn), n))
	}
	if symOK && n <= 1024 {
		return 0, t64
	}
	return int(e.concr(iv, it.w)), nil
}

func (c *comp) index(x *ssa.Index) opFn {
	d, s, ix := c.reg(x), c.op(x.X), c.op(x.Index)
	it := c.p.tinfo(x.Index.Type())
	xt := c.p.tinfo(x.X.Type())
	if xt.k == kString {
		return func(e *Exec, fr *Frame) { fr.regs[d] = e.strIndex(strOf(s.v(e, fr)), ix.v(e, fr), it) }
	}
	et := xt.elem
	return func(e *Exec, fr *Frame) {
		a := s.v(e, fr).o.(*Agg)
		iv := ix.v(e, fr)
		i, sp := e.idx(iv, it, xt.alen, et.scalar())
		if sp != nil {
			ob := &Obj{n: a.n, o: a.o}
			fr.regs[d] = e.symLoad(&SymPtr{obj: ob, idx: sp, count: xt.alen, es: 1}, 0, et.w)
			return
		}
		fr.regs[d] = aggGet(a, i*et.cells, et)
	}
}

func (e *Exec) strIndex(st *Str, iv V, it *TInfo) V {
	i, sp := e.idx(iv, it, len(st.s), true)
	if sp != nil {
		ob := &Obj{n: make([]uint64, len(st.s))}
		for j := 0; j < len(st.s); j++ {
			ob.n[j] = uint64(st.s[j])
			if st.sym != nil && st.sym[j] != nil {
				if ob.o == nil {
					ob.o = make([]any, len(st.s))
				}
				ob.o[j] = st.sym[j]
			}
		}
		return e.symLoad(&SymPtr{obj: ob, idx: sp, count: len(st.s), es: 1}, 0, 8)
	}
	return st.at(i)
}

func (c *comp) lookup(x *ssa.Lookup) opFn {
	d, s, k := c.reg(x), c.op(x.X), c.op(x.Index)
	if c.p.tinfo(x.X.Type()).k == kString {
		it := c.p.tinfo(x.Index.Type())
		return func(e *Exec, fr *Frame) { fr.regs[d] = e.strIndex(strOf(s.v(e, fr)), k.v(e, fr), it) }
	}
	et := c.p.tinfo(x.X.Type().Underlying().(*types.Map).Elem())
	return func(e *Exec, fr *Frame) {
		mv := s.v(e, fr)
		var ent *MapEnt
		if mv.o != nil {
			ent = e.mapFind(mv.o.(*Map), k.v(e, fr))
		}
		v, ok := zeroV(et), V{}
		if ent != nil {
			v, ok = ent.v, V{n: 1}
		}
		if x.CommaOk {
			fr.regs[d] = V{o: Tuple{v, ok}}
		} else {
			fr.regs[d] = v
		}
	}
}

func (c *comp) next(x *ssa.Next) opFn {
	d, s := c.reg(x), c.op(x.Iter)
	tt := x.Type().(*types.Tuple)
	var kt, vt *TInfo
	if !x.IsString {
		kt, vt = c.p.tinfo(tt.At(1).Type()), c.p.tinfo(tt.At(2).Type())
	}
	return func(e *Exec, fr *Frame) {
		it := s.v(e, fr).o.(*Iter)
		if x.IsString {
			if it.i >= len(it.str.s) {
				fr.regs[d] = V{o: Tuple{V{}, V{}, V{}}}
				return
			}
			pos := it.i
			r, n := e.decodeRune(it.str.sub(pos, len(it.str.s)))
			it.i += n
			fr.regs[d] = V{o: Tuple{V{n: 1}, V{n: uint64(pos)}, r}}
			return
		}
		for it.i < len(it.ents) {
			en := it.ents[it.i]
			it.i++
			if en.dead {
				continue
			}
			fr.regs[d] = V{o: Tuple{V{n: 1}, en.k, en.v}}
			return
		}
		z := func(t *TInfo) V {
			if t.k == kOther {
				return V{}
			}
			return zeroV(t)
		}
		fr.regs[d] = V{o: Tuple{V{}, z(kt), z(vt)}}
	}
}

// decodeRune decodes one rune of a possibly symbolic string.
func (e *Exec) decodeRune(s *Str) (V, int) {
	b0 := s.at(0)
	if b0.o != nil {
		t := b0.o.(*Term)
		if e.truth(e.sv(b2u(b0.n < 0x80), e.tb.Ult(t, e.tb.Const(8, 0x80)))) {
			return e.sv(b0.n, e.tb.ZExt(32, t)), 1
		}
	} else if b0.n < 0x80 {
		return V{n: b0.n}, 1
	}
	// run the real decoder
	f := e.p.findFunc("unicode/utf8", "DecodeRuneInString")
	if f == nil {
		e.unsupported("utf8 decoder not loaded")
	}
	m := min(len(s.s), 4)
	r := e.callSSA(f, []V{strV(s.sub(0, m))}, nil, nil).o.(Tuple)
	return r[0], e.concInt(r[1], 64, true)
}

func (p *Prog) findFunc(pkg, name string) *ssa.Function {
	if sp := p.pkgs[pkg]; sp != nil {
		return sp.Func(name)
	}
	return nil
}

func (c *comp) slice(x *ssa.Slice) opFn {
	d, s := c.reg(x), c.op(x.X)
	var lo, hi, mx *opnd
	var ts [3]*TInfo
	mk := func(v ssa.Value, k int) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		ts[k] = c.p.tinfo(v.Type())
		return &o
	}
	lo, hi, mx = mk(x.Low, 0), mk(x.High, 1), mk(x.Max, 2)
	xt := c.p.tinfo(x.X.Type())
	isStr := xt.k == kString
	alen, es := -1, 1
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		a := c.p.tinfo(p.Elem())
		alen, es = a.alen, a.elem.cells
	} else if xt.k == kSlice {
		es = xt.elem.cells
	}
	return func(e *Exec, fr *Frame) {
		b := s.v(e, fr)
		var sl Slice
		var st *Str
		capn := 0
		switch {
		case isStr:
			st = strOf(b)
			sl.len = len(st.s)
			capn = sl.len
		case alen >= 0:
			if b.o == nil {
				e.rtpanic("invalid memory address or nil pointer dereference")
			}
			sl = Slice{obj: b.o.(*Obj), off: int(b.n), len: alen, cap: alen, es: es}
			capn = alen
		default:
			if b.o != nil {
				sl = *b.o.(*Slice)
			}
			sl.es = es
			capn = sl.cap
		}
		// evaluate bounds as 64-bit values
		ext := func(o *opnd, k int, def int) V {
			if o == nil {
				return V{n: uint64(def)}
			}
			v := o.v(e, fr)
			t := ts[k]
			if t.w == 64 {
				return v
			}
			if t.k == kInt {
				n := uint64(sext(v.n, t.w))
				if v.o == nil {
					return V{n: n}
				}
				return e.sv(n, e.tb.SExt(64, v.o.(*Term)))
			}
			if v.o == nil {
				return v
			}
			return e.sv(v.n, e.tb.ZExt(64, v.o.(*Term)))
		}
		mv := ext(mx, 2, capn)
		hv := ext(hi, 1, sl.len)
		lv := ext(lo, 0, 0)
		if mv.o != nil || hv.o != nil || lv.o != nil {
			le := func(a, b V) V {
				if a.o == nil && b.o == nil {
					return V{n: b2u(a.n <= b.n)}
				}
				return e.sv(b2u(a.n <= b.n), e.tb.Ule(e.term(a, 64), e.term(b, 64)))
			}
			if !e.check(le(mv, V{n: uint64(capn)})) || !e.check(le(hv, mv)) || !e.check(le(lv, hv)) {
				e.rtpanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", int64(lv.n), int64(hv.n), int64(mv.n), capn))
			}
		}
		m, h, l := int64(e.concr(mv, 64)), int64(e.concr(hv, 64)), int64(e.concr(lv, 64))
		if m < 0 || m > int64(capn) || h < 0 || h > m || l < 0 || l > h {
			e.rtpanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, capn))
		}
		if isStr {
			fr.regs[d] = strV(st.sub(int(l), int(h)))
			return
		}
		if sl.obj == nil { // nil slice
			fr.regs[d] = V{}
			return
		}
		fr.regs[d] = V{o: &Slice{obj: sl.obj, off: sl.off + int(l)*es, len: int(h - l), cap: int(m - l), es: es}}
	}
}

func (c *comp) typeAssert(x *ssa.TypeAssert) opFn {
	d, s := c.reg(x), c.op(x.X)
	at := c.p.canon(x.AssertedType)
	ti := c.p.tinfo(x.AssertedType)
	isI := ti.k == kIface
	return func(e *Exec, fr *Frame) {
		v := s.v(e, fr)
		ok := false
		var res V
		if v.o != nil {
			i := v.o.(*Iface)
			if isI {
				if e.p.implements(i.t, at) {
					ok, res = true, v
				}
			} else if i.t == at {
				ok, res = true, i.v
			}
		}
		if x.CommaOk {
			if !ok {
				res = zeroV(ti)
			}
			fr.regs[d] = V{o: Tuple{res, V{n: b2u(ok)}}}
			return
		}
		if !ok {
			e.rtpanic("interface conversion: wrong dynamic type, want " + at.String())
		}
		fr.regs[d] = res
	}
}

// ---- calls ----

type callee struct {
	fn     *Fn
	dyn    opnd
	invoke bool
	pkg    *types.Package
	name   string
	recv   opnd
	blt    func(e *Exec, args []V) V
	args   []opnd
}

func (c *comp) callee(cc *ssa.CallCommon) *callee {
	ce := &callee{}
	for _, a := range cc.Args {
		ce.args = append(ce.args, c.op(a))
	}
	if cc.IsInvoke() {
		ce.invoke = true
		ce.recv = c.op(cc.Value)
		ce.pkg = cc.Method.Pkg()
		ce.name = cc.Method.Name()
		return ce
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		ce.blt = c.builtin(f, cc)
	case *ssa.Function:
		ce.fn = c.p.fnOf(f)
	default:
		ce.dyn = c.op(cc.Value)
	}
	return ce
}

func (ce *callee) resolve(e *Exec, fr *Frame) (fn *Fn, clo *Closure, args []V) {
	if ce.invoke {
		r := ce.recv.v(e, fr)
		if r.o == nil {
			e.rtpanic("invalid memory address or nil pointer dereference (nil interface call " + ce.name + ")")
		}
		i := r.o.(*Iface)
		m := e.p.method(i.t, ce.pkg, ce.name)
		if m == nil {
			e.unsupported("method %s not found on %s", ce.name, i.t)
		}
		args = make([]V, len(ce.args)+1)
		args[0] = i.v
		for k := range ce.args {
			args[k+1] = ce.args[k].v(e, fr)
		}
		return e.p.fnOf(m), nil, args
	}
	args = make([]V, len(ce.args))
	for k := range ce.args {
		args[k] = ce.args[k].v(e, fr)
	}
	if ce.fn != nil {
		return ce.fn, nil, args
	}
	d := ce.dyn.v(e, fr)
	if d.o == nil {
		e.rtpanic("invalid memory address or nil pointer dereference (nil func)")
	}
	return nil, d.o.(*Closure), args
}

func (c *comp) callInstr(x *ssa.Call) opFn {
	d := c.reg(x)
	ce := c.callee(&x.Call)
	if ce.blt != nil {
		if x.Call.Value.(*ssa.Builtin).Name() == "recover" {
			return func(e *Exec, fr *Frame) {
				if pf := fr.dparent; pf != nil && pf.pan != nil {
					fr.regs[d] = pf.pan.val
					if fr.regs[d].o == nil {
						fr.regs[d] = e.mkErr("panic called with nil argument")
					}
					pf.pan = nil
				} else {
					fr.regs[d] = V{}
				}
			}
		}
		return func(e *Exec, fr *Frame) {
			args := make([]V, len(ce.args))
			for k := range ce.args {
				args[k] = ce.args[k].v(e, fr)
			}
			fr.regs[d] = ce.blt(e, args)
		}
	}
	if ce.fn != nil && !ce.invoke {
		na := len(ce.args)
		if na <= 6 {
			return func(e *Exec, fr *Frame) {
				var buf [6]V
				for k := 0; k < na; k++ {
					buf[k] = ce.args[k].v(e, fr)
				}
				fr.regs[d] = e.call(ce.fn, append([]V(nil), buf[:na]...), nil, fr, nil)
			}
		}
	}
	return func(e *Exec, fr *Frame) {
		fn, clo, args := ce.resolve(e, fr)
		if clo != nil {
			fr.regs[d] = e.callClosure(clo, args, fr)
			return
		}
		fr.regs[d] = e.call(fn, args, nil, fr, nil)
	}
}

func (c *comp) deferInstr(x *ssa.Defer) opFn {
	c.fn.defers = true
	ce := c.callee(&x.Call)
	return func(e *Exec, fr *Frame) {
		if ce.blt != nil {
			args := make([]V, len(ce.args))
			for k := range ce.args {
				args[k] = ce.args[k].v(e, fr)
			}
			fr.defers = append(fr.defers, deferred{blt: ce.blt, args: args})
			return
		}
		fn, clo, args := ce.resolve(e, fr)
		fr.defers = append(fr.defers, deferred{fn: fn, clo: clo, args: args})
	}
}

func (c *comp) builtin(f *ssa.Builtin, cc *ssa.CallCommon) func(e *Exec, args []V) V {
	p := c.p
	switch f.Name() {
	case "len":
		switch p.tinfo(cc.Args[0].Type()).k {
		case kString:
			return func(e *Exec, a []V) V { return V{n: uint64(len(strOf(a[0]).s))} }
		case kSlice:
			return func(e *Exec, a []V) V {
				if a[0].o == nil {
					return V{}
				}
				return V{n: uint64(a[0].o.(*Slice).len)}
			}
		case kMap:
			return func(e *Exec, a []V) V {
				if a[0].o == nil {
					return V{}
				}
				return V{n: uint64(a[0].o.(*Map).n)}
			}
		case kArray:
			n := p.tinfo(cc.Args[0].Type()).alen
			return func(e *Exec, a []V) V { return V{n: uint64(n)} }
		case kPtr:
			n := p.tinfo(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).alen
			return func(e *Exec, a []V) V { return V{n: uint64(n)} }
		}
	case "cap":
		switch p.tinfo(cc.Args[0].Type()).k {
		case kSlice:
			return func(e *Exec, a []V) V {
				if a[0].o == nil {
					return V{}
				}
				return V{n: uint64(a[0].o.(*Slice).cap)}
			}
		case kArray:
			n := p.tinfo(cc.Args[0].Type()).alen
			return func(e *Exec, a []V) V { return V{n: uint64(n)} }
		}
	case "append":
		et := p.tinfo(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		fromStr := p.tinfo(cc.Args[1].Type()).k == kString
		return func(e *Exec, a []V) V { return e.appendV(a[0], a[1], et, fromStr) }
	case "copy":
		et := p.tinfo(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		fromStr := p.tinfo(cc.Args[1].Type()).k == kString
		return func(e *Exec, a []V) V {
			if a[0].o == nil || a[1].o == nil {
				return V{}
			}
			dst := a[0].o.(*Slice)
			var src *Slice
			if fromStr {
				src = e.strToSlice(strOf(a[1])).o.(*Slice)
			} else {
				src = a[1].o.(*Slice)
			}
			n := min(dst.len, src.len)
			k := n * et.cells
			if k > 0 {
				var on []any
				so, off := src.obj.near(src.off, k)
				if so.o != nil {
					on = so.o[off : off+k]
				}
				e.copyCells(dst.obj, dst.off, so.n[off:off+k], on)
			}
			return V{n: uint64(n)}
		}
	case "delete":
		return func(e *Exec, a []V) V {
			if a[0].o != nil {
				e.mapDelete(a[0].o.(*Map), a[1])
			}
			return V{}
		}
	case "clear":
		t0 := p.tinfo(cc.Args[0].Type())
		return func(e *Exec, a []V) V {
			if a[0].o == nil {
				return V{}
			}
			if t0.k == kMap {
				m := a[0].o.(*Map)
				e.mapSave(m)
				for _, en := range m.ents {
					en.dead = true
				}
				m.ents, m.idx, m.n, m.nsym = nil, map[any]*MapEnt{}, 0, 0
				return V{}
			}
			s := a[0].o.(*Slice)
			k := s.len * s.es
			e.copyCells(s.obj, s.off, make([]uint64, k), nil)
			return V{}
		}
	case "panic":
		return func(e *Exec, a []V) V {
			panic(&TargetPanic{val: a[0], msg: "panic: " + e.descVal(a[0]), where: e.backtrace()})
		}
	case "print", "println":
		return func(e *Exec, a []V) V { return V{} }
	case "recover":
		return func(e *Exec, a []V) V { return V{} }
	case "min", "max":
		t := p.tinfo(cc.Args[0].Type())
		isMin := f.Name() == "min"
		return func(e *Exec, a []V) V {
			r := a[0]
			for _, y := range a[1:] {
				// pick y if y<r (min) or r<y (max)
				var lt V
				if isMin {
					lt = e.less(y, r, t)
				} else {
					lt = e.less(r, y, t)
				}
				if lt.o == nil {
					if lt.n != 0 {
						r = y
					}
				} else if t.scalar() && t.k != kFloat {
					n := r.n
					if lt.n != 0 {
						n = y.n
					}
					r = e.sv(n, e.tb.Ite(lt.o.(*Term), e.term(y, t.w), e.term(r, t.w)))
				} else if e.truth(lt) {
					r = y
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(e *Exec, a []V) V {
			if a[0].o == nil {
				e.rtpanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "String": // unsafe.String
		return func(e *Exec, a []V) V {
			n := e.concInt(a[1], 64, true)
			if n == 0 {
				return V{}
			}
			return strV(sliceStr(&Slice{obj: a[0].o.(*Obj), off: int(a[0].n), len: n, cap: n, es: 1}))
		}
	case "StringData":
		return func(e *Exec, a []V) V {
			s := strOf(a[0])
			if len(s.s) == 0 {
				return V{}
			}
			return V{o: e.strToSlice(s).o.(*Slice).obj}
		}
	case "SliceData":
		return func(e *Exec, a []V) V {
			if a[0].o == nil {
				return V{}
			}
			s := a[0].o.(*Slice)
			return V{uint64(s.off), s.obj}
		}
	case "Slice": // unsafe.Slice
		es := p.tinfo(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).cells
		return func(e *Exec, a []V) V {
			n := e.concInt(a[1], 64, true)
			if a[0].o == nil {
				return V{}
			}
			return V{o: &Slice{obj: a[0].o.(*Obj), off: int(a[0].n), len: n, cap: n, es: es}}
		}
	case "close":
		return func(e *Exec, a []V) V {
			ch := chanOf(e, a[0])
			if ch.closed {
				e.rtpanic("close of closed channel")
			}
			ch.closed = true
			return V{}
		}
	case "Sizeof":
		n := types.SizesFor("gc", "amd64").Sizeof(cc.Args[0].Type())
		return func(e *Exec, a []V) V { return V{n: uint64(n)} }
	}
	name := f.Name()
	return func(e *Exec, a []V) V { e.unsupported("builtin %s", name); return V{} }
}

func (e *Exec) appendV(a, b V, et *TInfo, fromStr bool) V {
	var src *Slice
	if b.o != nil {
		if fromStr {
			src = e.strToSlice(strOf(b)).o.(*Slice)
		} else {
			src = b.o.(*Slice)
		}
	}
	if src == nil || src.len == 0 {
		return a
	}
	var dst Slice
	if a.o != nil {
		dst = *a.o.(*Slice)
	}
	es := et.cells
	n := dst.len + src.len
	var srcO []any
	k := src.len * es
	if src.obj.o != nil {
		srcO = src.obj.o[src.off : src.off+k]
	}
	srcN := src.obj.n[src.off : src.off+k]
	if n > dst.cap {
		nc := growCap(dst.cap, n, et)
		if nc*es > 1<<24 {
			e.unsupported("append growth to %d cells", nc*es)
		}
		ob := e.newObj(nc * es)
		if dst.len > 0 {
			e.copyCells(ob, 0, dst.obj.n[dst.off:dst.off+dst.len*es], dst.obj.osub(dst.off, dst.len*es))
		}
		dst = Slice{obj: ob, len: dst.len, cap: nc, es: es}
	}
	dst.es = es
	e.copyCells(dst.obj, dst.off+dst.len*es, srcN, srcO)
	dst.len = n
	return V{o: &dst}
}

// growCap reproduces the runtime's slice growth (nextslicecap + roundupsize, amd64).
func growCap(old, need int, et *TInfo) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	sz, noscan := et.byteSize()
	if sz == 0 {
		return need
	}
	return roundUpSize(nc*sz, noscan) / sz
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(size int, noscan bool) int {
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if req <= c {
				return c - (req - size)
			}
		}
	}
	return (req + 8191) &^ 8191
}

var stdSizes = types.SizesFor("gc", "amd64")

func (t *TInfo) byteSize() (int, bool) {
	return int(stdSizes.Sizeof(t.t)), !hasPtr(t)
}

func hasPtr(t *TInfo) bool {
	switch t.k {
	case kBool, kInt, kUint, kFloat:
		return false
	case kStruct:
		for _, f := range t.fields {
			if hasPtr(f) {
				return true
			}
		}
		return false
	case kArray:
		return t.alen > 0 && hasPtr(t.elem)
	}
	return true
}
