package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Standard library functions that rest on reflection or the runtime.

// Chan is a channel of the program under test. Sends never block.
type Chan struct {
	buf    []V
	closed bool
	cap    int
}

func chanOf(e *Exec, v V) *Chan {
	if v.o == nil {
		e.unsupported("operation on a nil channel")
	}
	return v.o.(*Chan)
}

func (e *Exec) recv(v V, ti *TInfo) (V, bool) {
	c := chanOf(e, v)
	if len(c.buf) > 0 {
		x := c.buf[0]
		c.buf = c.buf[1:]
		return x, true
	}
	if !c.closed {
		e.wait(func() bool { return len(c.buf) > 0 || c.closed })
		return e.recv(v, ti)
	}
	return zeroV(ti), false
}

func (e *Exec) send(v, x V) {
	c := chanOf(e, v)
	if c.closed {
		e.rtpanic("send on closed channel")
	}
	c.buf = append(c.buf, x)
}

// selectInstr takes the first ready case in source order.
func (c *comp) selectInstr(x *ssa.Select) opFn {
	d := c.reg(x)
	type st struct {
		send  bool
		ch, v opnd
		et    *TInfo
	}
	var sts []st
	var ets []*TInfo
	for _, s := range x.States {
		y := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: c.p.tinfo(s.Chan.Type().Underlying().(*types.Chan).Elem())}
		if y.send {
			y.v = c.op(s.Send)
		} else {
			ets = append(ets, y.et)
		}
		sts = append(sts, y)
	}
	var sel func(e *Exec, fr *Frame)
	sel = func(e *Exec, fr *Frame) {
		t := Tuple{V{n: ^uint64(0)}, V{}}
		for _, et := range ets {
			t = append(t, zeroV(et))
		}
		r := 1
		for i, s := range sts {
			cv := s.ch.v(e, fr)
			if !s.send {
				r++
			}
			if cv.o == nil {
				continue
			}
			if s.send {
				e.send(cv, s.v.v(e, fr))
			} else if ch := cv.o.(*Chan); len(ch.buf) > 0 || ch.closed {
				v, ok := e.recv(cv, s.et)
				t[1], t[r] = V{n: b2u(ok)}, v
			} else {
				continue
			}
			t[0] = V{n: uint64(i)}
			fr.regs[d] = V{o: t}
			return
		}
		if x.Blocking {
			var cs []*Chan
			for _, s := range sts {
				if cv := s.ch.v(e, fr); cv.o != nil {
					cs = append(cs, cv.o.(*Chan))
				}
			}
			e.wait(func() bool {
				for _, c := range cs {
					if len(c.buf) > 0 || c.closed {
						return true
					}
				}
				return false
			})
			sel(e, fr)
			return
		}
		fr.regs[d] = V{o: t}
	}
	return sel
}

// mkWrapErrs builds a *fmt.wrapErrors.
func (e *Exec) mkWrapErrs(msg string, inner []V) V {
	if e.p.tWrapErrs == nil {
		return e.mkWrapErr(msg, inner[0])
	}
	es := e.newObj(len(inner))
	for i, x := range inner {
		e.set(es, i, x)
	}
	ob := e.newObj(2)
	e.set(ob, 0, mkStr(msg))
	e.set(ob, 1, V{o: &Slice{obj: es, len: len(inner), cap: len(inner), es: 1}})
	return V{o: &Iface{t: e.p.tWrapErrs, v: V{o: ob}}}
}

func (e *Exec) hasMethod(t types.Type, name string) bool {
	sel := e.p.ssa.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig, ok := sel.Type().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String])
}

// native turns a scalar of the program into a Go value for formatting.
func (e *Exec) native(v V, t *TInfo) (any, bool) {
	if v.o != nil && t.w > 16 {
		return nil, false
	}
	n := v.n
	if t.scalar() {
		if t.k == kBool {
			return e.truth(v), true
		}
		n = e.concr(v, t.w)
	}
	switch t.k {
	case kInt:
		switch t.w {
		case 8:
			return int8(n), true
		case 16:
			return int16(n), true
		case 32:
			return int32(n), true
		}
		return int64(n), true
	case kUint:
		switch t.w {
		case 8:
			return uint8(n), true
		case 16:
			return uint16(n), true
		case 32:
			return uint32(n), true
		}
		return n, true
	case kFloat:
		if t.w == 32 {
			return math.Float32frombits(uint32(n)), true
		}
		return math.Float64frombits(n), true
	}
	return nil, false
}

// fmtArg formats one operand.
func (e *Exec) fmtArg(flags string, verb byte, arg V) *Str {
	if arg.o == nil {
		if verb == 'v' {
			return &Str{s: "<nil>"}
		}
		return &Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	i := arg.o.(*Iface)
	if verb == 'T' {
		return &Str{s: types.TypeString(i.t, func(p *types.Package) string { return p.Name() })}
	}
	if strings.IndexByte("vsqxX", verb) >= 0 && !strings.Contains(flags, "#") {
		for _, m := range []string{"Error", "String"} {
			if e.hasMethod(i.t, m) {
				r, _ := e.callMethod(arg, m)
				return e.fmtStr(flags, verb, strOf(r))
			}
		}
	}
	t := e.p.tinfo(i.t)
	switch {
	case t.k == kString:
		return e.fmtStr(flags, verb, strOf(i.v))
	case t.k == kSlice && t.elem.k == kUint && t.elem.w == 8:
		if verb != 'v' && verb != 'd' {
			return e.fmtStr(flags, verb, sliceStr(sliceOf(i.v)))
		}
		return &Str{s: fmt.Sprintf("%"+flags+string(verb), []byte(e.concStr(sliceStr(sliceOf(i.v)))))}
	case t.scalar():
		if x, ok := e.native(i.v, t); ok {
			return &Str{s: fmt.Sprintf("%"+flags+string(verb), x)}
		}
	}
	return &Str{s: "‹?›"}
}

func (e *Exec) fmtStr(flags string, verb byte, s *Str) *Str {
	if flags == "" && (verb == 's' || verb == 'v') {
		return s
	}
	return &Str{s: fmt.Sprintf("%"+flags+string(verb), e.concStr(s))}
}

func (e *Exec) sprintf(a []V) *Str {
	f := e.concStr(strOf(a[0]))
	args := sliceOf(a[1])
	r := &Str{}
	lit := func(s string) { r = concatStr(r, &Str{s: s}) }
	ai := 0
	for i := 0; i < len(f); i++ {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		lit(f[i : i+j])
		i += j + 1
		k := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[i]
		if verb == '%' {
			lit("%")
			continue
		}
		if verb == '[' || verb == '*' || verb >= 0x80 {
			return &Str{s: "‹" + f + "›"}
		}
		if ai >= args.len {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		r = concatStr(r, e.fmtArg(f[k:i], verb, args.obj.get(args.off+ai)))
		ai++
	}
	if ai < args.len {
		lit("%!(EXTRA)")
	}
	return r
}

func (e *Exec) sprint(args *Slice, ln bool) *Str {
	r := &Str{}
	prevStr := false
	for i := 0; i < args.len; i++ {
		v := args.obj.get(args.off + i)
		isStr := v.o != nil && e.p.tinfo(v.o.(*Iface).t).k == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			r = concatStr(r, &Str{s: " "})
		}
		r = concatStr(r, e.fmtArg("", 'v', v))
		prevStr = isStr
	}
	if ln {
		r = concatStr(r, &Str{s: "\n"})
	}
	return r
}

func (e *Exec) fwrite(w V, s *Str) V {
	if w.o == nil {
		e.rtpanic("invalid memory address or nil pointer dereference")
	}
	r, ok := e.callMethod(w, "Write", e.strToSlice(s))
	if !ok {
		e.unsupported("no Write method")
	}
	return r
}

// sliceArg takes a slice held in an interface.
func (e *Exec) sliceArg(v V) (*Slice, *TInfo) {
	if v.o == nil {
		e.unsupported("sorting nil")
	}
	i := v.o.(*Iface)
	t := e.p.tinfo(i.t)
	if t.k != kSlice {
		e.rtpanic("reflect: call of Swapper on a value that is no slice")
	}
	return sliceOf(i.v), t
}

func (e *Exec) swapper(s *Slice, t *TInfo) *Closure {
	return &Closure{nat: func(e *Exec, a []V) V {
		i, j := e.concInt(a[0], 64, true), e.concInt(a[1], 64, true)
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			e.rtpanic("reflect: slice index out of range")
		}
		x := e.loadT(s.obj, s.off+i*s.es, t.elem)
		y := e.loadT(s.obj, s.off+j*s.es, t.elem)
		e.storeT(s.obj, s.off+i*s.es, t.elem, y)
		e.storeT(s.obj, s.off+j*s.es, t.elem, x)
		return V{}
	}}
}

func (e *Exec) sortWith(fn string, a []V, extra ...V) V {
	s, t := e.sliceArg(a[0])
	f := e.p.findFunc("sort", fn)
	ls := V{o: &Agg{n: make([]uint64, 2), o: []any{a[1].o, e.swapper(s, t)}}}
	args := []V{ls}
	if len(extra) == 2 { // pdqsort_func(data, 0, n, limit)
		args = append(args, V{}, V{n: uint64(s.len)}, V{n: uint64(bits.Len(uint(s.len)))})
	} else {
		args = append(args, V{n: uint64(s.len)})
	}
	return e.callSSA(f, args, nil, e.lastFr)
}

// deepEqual is reflect.DeepEqual.
func (e *Exec) deepEqual(p, q V, t *TInfo, d int) V {
	if d > 64 {
		e.unsupported("DeepEqual on a deep value")
	}
	switch t.k {
	case kFunc:
		return V{n: b2u(p.o == nil && q.o == nil)}
	case kPtr:
		if p.o == nil || q.o == nil || p.o == q.o && p.n == q.n {
			return V{n: b2u((p.o == nil) == (q.o == nil))}
		}
		et := e.p.tinfo(t.t.Underlying().(*types.Pointer).Elem())
		return e.deepEqual(e.loadT(p.o.(*Obj), int(p.n), et), e.loadT(q.o.(*Obj), int(q.n), et), et, d+1)
	case kSlice:
		if (p.o == nil) != (q.o == nil) {
			return V{}
		}
		a, b := sliceOf(p), sliceOf(q)
		if a.len != b.len {
			return V{}
		}
		r := V{n: 1}
		for i := 0; i < a.len; i++ {
			r = e.and(r, e.deepEqual(e.loadT(a.obj, a.off+i*a.es, t.elem), e.loadT(b.obj, b.off+i*b.es, t.elem), t.elem, d+1))
		}
		return r
	case kMap:
		if p.o == nil || q.o == nil {
			return V{n: b2u((p.o == nil) == (q.o == nil))}
		}
		a, b := p.o.(*Map), q.o.(*Map)
		if a.n != b.n {
			return V{}
		}
		et := e.p.tinfo(t.t.Underlying().(*types.Map).Elem())
		r := V{n: 1}
		for _, en := range a.ents {
			if en.dead {
				continue
			}
			o := e.mapFind(b, en.k)
			if o == nil {
				return V{}
			}
			r = e.and(r, e.deepEqual(en.v, o.v, et, d+1))
		}
		return r
	case kIface:
		if p.o == nil || q.o == nil {
			return V{n: b2u(p.o == nil && q.o == nil)}
		}
		a, b := p.o.(*Iface), q.o.(*Iface)
		if a.t != b.t {
			return V{}
		}
		return e.deepEqual(a.v, b.v, e.p.tinfo(a.t), d+1)
	case kStruct:
		r := V{n: 1}
		a, b := p.o.(*Agg), q.o.(*Agg)
		for i, f := range t.fields {
			r = e.and(r, e.deepEqual(aggGet(a, t.foff[i], f), aggGet(b, t.foff[i], f), f, d+1))
		}
		return r
	case kArray:
		r := V{n: 1}
		a, b := p.o.(*Agg), q.o.(*Agg)
		for i := 0; i < t.alen; i++ {
			r = e.and(r, e.deepEqual(aggGet(a, i*t.elem.cells, t.elem), aggGet(b, i*t.elem.cells, t.elem), t.elem, d+1))
		}
		return r
	}
	return e.equal(p, q, t)
}

func init() {
	str := func(s *Str) V { return strV(s) }
	fmtRes := V{o: Tuple{V{}, V{}}}
	alias := func(pkg, name string) intrinsic {
		return func(e *Exec, a []V) V { return e.callSSA(e.p.findFunc(pkg, name), a, nil, e.lastFr) }
	}
	for n, f := range map[string]intrinsic{
		"fmt.Sprintf":  func(e *Exec, a []V) V { return str(e.sprintf(a)) },
		"fmt.Sprint":   func(e *Exec, a []V) V { return str(e.sprint(sliceOf(a[0]), false)) },
		"fmt.Sprintln": func(e *Exec, a []V) V { return str(e.sprint(sliceOf(a[0]), true)) },
		"fmt.Fprintf":  func(e *Exec, a []V) V { return e.fwrite(a[0], e.sprintf(a[1:])) },
		"fmt.Fprint":   func(e *Exec, a []V) V { return e.fwrite(a[0], e.sprint(sliceOf(a[1]), false)) },
		"fmt.Fprintln": func(e *Exec, a []V) V { return e.fwrite(a[0], e.sprint(sliceOf(a[1]), true)) },
		"fmt.Append": func(e *Exec, a []V) V {
			return e.appendV(a[0], strV(e.sprint(sliceOf(a[1]), false)), e.p.tinfo(types.Typ[types.Uint8]), true)
		},
		"fmt.Appendf": func(e *Exec, a []V) V {
			return e.appendV(a[0], strV(e.sprintf(a[1:])), e.p.tinfo(types.Typ[types.Uint8]), true)
		},
		"fmt.Printf":       func(e *Exec, a []V) V { return fmtRes },
		"sort.Slice":       func(e *Exec, a []V) V { return e.sortWith("pdqsort_func", a, V{}, V{}) },
		"sort.SliceStable": func(e *Exec, a []V) V { return e.sortWith("stable_func", a) },
		"sort.SliceIsSorted": func(e *Exec, a []V) V {
			s, _ := e.sliceArg(a[0])
			for i := s.len - 1; i > 0; i-- {
				if e.truth(e.callClosure(a[1].o.(*Closure), []V{{n: uint64(i)}, {n: uint64(i - 1)}}, e.lastFr)) {
					return V{}
				}
			}
			return V{n: 1}
		},
		"reflect.Swapper": func(e *Exec, a []V) V { s, t := e.sliceArg(a[0]); return V{o: e.swapper(s, t)} },
		"reflect.DeepEqual": func(e *Exec, a []V) V {
			return e.deepEqual(a[0], a[1], e.p.tinfo(types.Universe.Lookup("any").Type()), 0)
		},
		"slices.overlaps": func(e *Exec, a []V) V {
			x, y := sliceOf(a[0]), sliceOf(a[1])
			return V{n: b2u(x.len > 0 && y.len > 0 && x.obj == y.obj && x.off < y.off+y.len*y.es && y.off < x.off+x.len*x.es)}
		},
		"slices.startIdx": func(e *Exec, a []V) V {
			x, y := sliceOf(a[0]), sliceOf(a[1])
			return V{n: uint64((y.off - x.off) / max(1, x.es))}
		},
		"maps.clone": func(e *Exec, a []V) V {
			i := a[0].o.(*Iface)
			m := i.v.o.(*Map)
			c := e.newMap(m.kt)
			for _, en := range m.ents {
				if !en.dead {
					e.mapSet(c, en.k, en.v)
				}
			}
			return V{o: &Iface{t: i.t, v: V{o: c}}}
		},
		"math.archMax":     alias("math", "max"),
		"math.archMin":     alias("math", "min"),
		"math.archHypot":   alias("math", "hypot"),
		"math.archModf":    alias("math", "modf"),
		"math.Trunc":       mathFn1(math.Trunc),
		"math.Round":       mathFn1(math.Round),
		"math.RoundToEven": mathFn1(math.RoundToEven),
		"math.Log10":       mathFn1(math.Log10),
		"math.Log1p":       mathFn1(math.Log1p),
		"math.Exp2":        mathFn1(math.Exp2),
		"math.Pow": func(e *Exec, a []V) V {
			x, y := e.concr(a[0], 64), e.concr(a[1], 64)
			return V{n: math.Float64bits(math.Pow(math.Float64frombits(x), math.Float64frombits(y)))}
		},
		"(*sync.WaitGroup).Add": func(e *Exec, a []V) V {
			e.sched().wg[e.wgOf(a[0])] += int(int64(e.concr(a[1], 64)))
			return V{}
		},
		"(*sync.WaitGroup).Done": func(e *Exec, a []V) V {
			e.sched().wg[e.wgOf(a[0])]--
			return V{}
		},
		"(*sync.WaitGroup).Wait": func(e *Exec, a []V) V {
			s, k := e.sched(), e.wgOf(a[0])
			e.wait(func() bool { return s.wg[k] <= 0 })
			return V{}
		},
		"(*sync.WaitGroup).Go": func(e *Exec, a []V) V {
			s, k := e.sched(), e.wgOf(a[0])
			s.wg[k]++
			e.spawn(func() {
				e.callClosure(a[1].o.(*Closure), nil, nil)
				s.wg[k]--
			})
			return V{}
		},
		"(*sync.RWMutex).TryLock":       func(e *Exec, a []V) V { return V{n: 1} },
		"(*sync.RWMutex).TryRLock":      func(e *Exec, a []V) V { return V{n: 1} },
		"sync/atomic.runtime_procPin":   nop,
		"sync/atomic.runtime_procUnpin": nop,
		"sync.runtime_procPin":          nop,
		"sync.runtime_procUnpin":        nop,
		"(*sync/atomic.Value).Load":     func(e *Exec, a []V) V { return a[0].o.(*Obj).get(int(a[0].n)) },
		"(*sync/atomic.Value).Store":    func(e *Exec, a []V) V { e.set(a[0].o.(*Obj), int(a[0].n), a[1]); return V{} },
		"runtime.Gosched": func(e *Exec, a []V) V {
			if e.sc != nil {
				e.yield(nil, false)
			}
			return V{}
		},
	} {
		intrinsics[n] = f
	}
}
