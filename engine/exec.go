package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Prog is the shared, immutable-after-load program.
type Prog struct {
	repl      map[string]*ssa.Function
	ssa       *ssa.Program
	tcache    sync.Map // types.Type -> *TInfo
	canonMu   sync.Mutex
	canonMap  typeutil.Map
	fns       sync.Map // *ssa.Function -> *Fn
	reals     sync.Map
	compMu    sync.Mutex
	globIdx   map[*ssa.Global]int
	globs     []*ssa.Global
	methMu    sync.Mutex
	meth      map[methKey]*ssa.Function
	implMu    sync.Mutex
	impl      map[implKey]bool
	pkgs      map[string]*ssa.Package
	harness   *ssa.Package
	inits     []*ssa.Function
	repoMod   string
	tErrStr   types.Type // *errors.errorString
	tWrapErr  types.Type // *fmt.wrapError
	tWrapErrs types.Type // *fmt.wrapErrors
	initOnce  sync.Once
	initFails map[string]string
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct {
	t types.Type
	i types.Type
}

type opFn func(e *Exec, fr *Frame)

type edge struct {
	to    *Block
	moves []move
}
type move struct {
	dst int
	src opnd
}

type Block struct {
	ops   []opFn
	ins   []ssa.Instruction
	term  func(e *Exec, fr *Frame) *edge // nil edge => return
	index int
	fn    *Fn
}

type Fn struct {
	fn      *ssa.Function
	name    string
	blocks  []*Block
	nregs   int
	nparam  int
	nfree   int
	defers  bool
	recover *Block
	intr    func(e *Exec, args []V) V
	once    sync.Once
	isRepo  bool
	hits    atomic.Int64
	results *types.Tuple
	err     error
	noIntr  bool
}

type Frame struct {
	fn      *Fn
	regs    []V
	ret     V
	defers  []deferred
	pan     *TargetPanic // currently panicking (while running defers)
	dparent *Frame       // frame whose deferred call this is
	caller  *Frame
	cur     *Block
	curI    int
}

type deferred struct {
	fn   *Fn
	clo  *Closure
	args []V
	blt  func(e *Exec, args []V) V
}

// TargetPanic is a panic of the program under test.
type TargetPanic struct {
	val   V // interface value
	msg   string
	where string
}

// run-ending signals
type stopKind int

const (
	stopDone stopKind = iota
	stopAssume
	stopViolation
	stopUnsupported
	stopSteps
	stopInternal
	stopDead // path cut on purpose (sym.Stop)
)

func (k stopKind) String() string {
	return [...]string{"done", "assume", "violation", "unsupported", "steplimit", "internal", "stopped"}[k]
}

type stopSig struct {
	kind stopKind
	msg  string
}

type decision struct {
	cond   *Term
	val    bool
	conc   bool
	cval   uint64
	noflip bool
	oblig  bool // an assertion / runtime check: flipping it is a proof obligation
	where  *Frame
}

type prefEnt struct {
	val  bool
	conc bool
	cval uint64
	dbg  string
}

type obsEnt struct{ s string }

// Exec is one interpreter (one per worker).
type Exec struct {
	p        *Prog
	tb       *TB
	globals  []*Obj
	stack    []V
	sp       int
	steps    int64
	maxSteps int64
	objSeq   int
	initMode bool
	undo     []undoEnt
	undoMaps []func()

	model      map[int]uint64
	vars       []*Term
	vnames     []string
	prefix     []prefEnt
	trail      []decision
	known      map[*Term]bool
	obs        []string
	rnd        uint64
	reached    map[string]int
	tags       map[string]string
	asserts    int // syntactically discharged
	incomplete map[string]int
	fresh      int
	cfg        *runCfg
	depth      int
	onces      map[*Obj]bool
	dbg        bool
	natRand    uint64
	lastFr     *Frame
	ctr        map[string]int
	ents       map[string]bool
	sc         *sched
	far        bool // see Far
}

func NewExec(p *Prog) *Exec {
	e := &Exec{p: p, tb: NewTB(), maxSteps: 40_000_000, known: map[*Term]bool{}, incomplete: map[string]int{}, reached: map[string]int{}}
	e.stack = make([]V, 1<<16)
	e.globals = make([]*Obj, len(p.globs))
	e.initMode = true
	for i, g := range p.globs {
		e.globals[i] = e.newObj(p.tinfo(g.Type().Underlying().(*types.Pointer).Elem()).cells)
	}
	return e
}

func (e *Exec) runInits() map[string]string {
	fails := map[string]string{}
	e.initMode = true
	for _, f := range e.p.inits {
		name := f.Pkg.Pkg.Path()
		func() {
			defer func() {
				if r := recover(); r != nil {
					fails[name] = fmt.Sprint(descPanic(r))
					e.sp = 0
				}
			}()
			e.steps = 0
			e.runInit(f, fails)
		}()
	}
	e.initMode = false
	return fails
}

// runInit interprets one package initialiser; an instruction that cannot be
// run (reflection, the runtime) leaves its result zero and is recorded.
func (e *Exec) runInit(f *ssa.Function, fails map[string]string) {
	fn := e.p.fnOf(f)
	fn.once.Do(func() { e.p.compile(fn) })
	if fn.err != nil {
		panic(stopSig{stopUnsupported, fn.err.Error()})
	}
	fr := &Frame{fn: fn, regs: make([]V, fn.nregs)}
	b := fn.blocks[0]
	for {
		e.lastFr = fr
		for _, op := range b.ops {
			func() {
				sp, depth, stk := e.sp, e.depth, len(e.stack)
				defer func() {
					if r := recover(); r != nil {
						if len(e.stack) == stk {
							e.sp = sp
						}
						e.depth = depth
						n := f.Pkg.Pkg.Path()
						if fails[n] == "" {
							fails[n] = descPanic(r)
						} else if len(fails[n]) < 400 {
							fails[n] += "; " + descPanic(r)
						}
					}
				}()
				op(e, fr)
			}()
		}
		ed := b.term(e, fr)
		if ed == nil {
			return
		}
		vs := make([]V, len(ed.moves))
		for i, m := range ed.moves {
			vs[i] = m.src.v(e, fr)
		}
		for i, m := range ed.moves {
			fr.regs[m.dst] = vs[i]
		}
		b = ed.to
	}
}

func descPanic(r any) string {
	switch x := r.(type) {
	case stopSig:
		return x.kind.String() + ": " + x.msg
	case *TargetPanic:
		return "panic: " + x.msg
	}
	return fmt.Sprint(r)
}

func (e *Exec) unsupported(f string, a ...any) {
	panic(stopSig{stopUnsupported, fmt.Sprintf(f, a...)})
}

// ---- decisions ----

func (e *Exec) decide(t *Term, val bool) bool { return e.decideX(t, val, false, 0, false, false) }

func (e *Exec) decideX(t *Term, val bool, conc bool, cval uint64, oblig, noflip bool) bool {
	if t.isC() {
		return t.k == 1
	}
	base, bv := t, val
	if t.op == ONot {
		base, bv = t.a, !val
	}
	if k, ok := e.known[base]; ok {
		if k != bv {
			panic(stopSig{stopInternal, "decision contradicts known value"})
		}
		return val
	}
	// conjunction / disjunction consequences
	i := len(e.trail)
	if i < len(e.prefix) {
		if e.prefix[i].val != val {
			if e.dbg {
				fmt.Println("DIVERGE decision", i, "of", len(e.prefix), e.termStr(t), "\nPARENT", e.prefix[i].dbg)
			}
			panic(stopSig{stopInternal, fmt.Sprintf("replay divergence at decision %d", i)})
		}
	}
	e.trail = append(e.trail, decision{cond: t, val: val, conc: conc, cval: cval, oblig: oblig, noflip: noflip})
	e.learn(base, bv)
	return val
}

func (e *Exec) learn(t *Term, v bool) {
	e.known[t] = v
	switch {
	case t.op == OAnd && v:
		e.learnN(t.a, true)
		e.learnN(t.b, true)
	case t.op == OOr && !v:
		e.learnN(t.a, false)
		e.learnN(t.b, false)
	}
}
func (e *Exec) learnN(t *Term, v bool) {
	if t.op == ONot {
		t, v = t.a, !v
	}
	if t.isC() {
		return
	}
	if _, ok := e.known[t]; ok {
		return
	}
	e.learn(t, v)
}

// truth decides a bool value.
func (e *Exec) truth(v V) bool {
	if v.o == nil {
		return v.n != 0
	}
	return e.decide(v.o.(*Term), v.n != 0)
}

// check is truth for a safety obligation: the false side is a violation or panic.
func (e *Exec) check(v V) bool {
	if v.o == nil {
		e.asserts++
		return v.n != 0
	}
	return e.decideX(v.o.(*Term), v.n != 0, false, 0, true, false)
}

func (e *Exec) term(v V, w int) *Term {
	if v.o == nil {
		return e.tb.Const(w, v.n)
	}
	return v.o.(*Term)
}

func (e *Exec) sv(n uint64, t *Term) V {
	if t.isC() {
		if t.k != n {
			panic(stopSig{stopInternal, fmt.Sprintf("term/concrete mismatch %d vs %d (w%d)", t.k, n, t.w)})
		}
		return V{n: n}
	}
	if e.dbg {
		if g := e.evalTerm(t, map[*Term]uint64{}); g != n {
			panic(stopSig{stopInternal, fmt.Sprintf("term eval mismatch: term=%d concrete=%d op=%d", g, n, t.op)})
		}
	}
	return V{n, t}
}

// concr concretises a scalar value by case splitting over its feasible values.
func (e *Exec) concr(v V, w int) uint64 {
	if v.o == nil {
		return v.n
	}
	t := v.o.(*Term)
	cnt := 0
	for {
		i := len(e.trail)
		c := v.n
		pre := false
		if i < len(e.prefix) {
			if !e.prefix[i].conc {
				// prefix recorded no split here => value was already determined
				eq := e.tb.Eq(t, e.tb.Const(w, c))
				if eq.isC() || e.isKnown(eq) {
					return c
				}
				if e.dbg {
					fmt.Println("DIVERGE conc", e.termStr(t), "value", c, "i", i, "of", len(e.prefix), "prefix", e.prefix[i:])
					for k, d := range e.prefix {
						fmt.Println(" P ", k, d.val, d.conc, d.cval, d.dbg)
					}
					for k, d := range e.trail {
						fmt.Println("   ", k, d.val, d.conc, d.cval, e.termStr(d.cond))
					}
				}
				panic(stopSig{stopInternal, "replay divergence at concretisation"})
			}
			// the recorded split may belong to a later point if this one is determined
			eq := e.tb.Eq(t, e.tb.Const(w, c))
			if eq.isC() || e.isKnown(eq) {
				return c
			}
			c = e.prefix[i].cval
			pre = true
		}
		eq := e.tb.Eq(t, e.tb.Const(w, c))
		if eq.isC() || e.isKnown(eq) {
			if c == v.n {
				return c
			}
			if !pre {
				panic(stopSig{stopInternal, "concretisation"})
			}
		}
		nofl := false
		if !pre && cnt >= e.cfg.concLimit {
			nofl = true
			e.incomplete["value-split limit reached"]++
		}
		if e.decideX(eq, v.n == c, true, c, false, nofl) {
			return c
		}
		cnt++
	}
}

func (e *Exec) termStr(t *Term) string {
	var sb strings.Builder
	nd := 0
	r := emit(&sb, t, nextGen(), &nd)
	return sb.String() + " => " + r
}

func (e *Exec) isKnown(t *Term) bool {
	if t.op == ONot {
		t = t.a
	}
	_, ok := e.known[t]
	return ok
}

func (e *Exec) concInt(v V, w int, signed bool) int {
	n := e.concr(v, w)
	if signed {
		return int(sext(n, w))
	}
	return int(n)
}

// ---- calls ----

func (p *Prog) fnOf(f *ssa.Function) *Fn {
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	n := fnName(f)
	if r := p.repl[n]; r != nil && r != f {
		return p.fnOf(r)
	}
	x, _ := p.fns.LoadOrStore(f, &Fn{fn: f, name: n})
	return x.(*Fn)
}

// realFn is fnOf without intrinsic replacement.
func (p *Prog) realFn(f *ssa.Function) *Fn {
	x, _ := p.reals.LoadOrStore(f, &Fn{fn: f, name: fnName(f), noIntr: true})
	return x.(*Fn)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (e *Exec) callClosure(c *Closure, args []V, caller *Frame) V {
	if c.nat != nil {
		return c.nat(e, args)
	}
	return e.callSSA(c.fn, args, c.env, caller)
}

func (e *Exec) callSSA(f *ssa.Function, args, env []V, caller *Frame) V {
	return e.call(e.p.fnOf(f), args, env, caller, nil)
}

func (e *Exec) call(fn *Fn, args, env []V, caller *Frame, dparent *Frame) V {
	fn.once.Do(func() { e.p.compile(fn) })
	if fn.intr != nil {
		return fn.intr(e, args)
	}
	if fn.err != nil {
		e.unsupported("%s: %v", fn.name, fn.err)
	}
	if fn.isRepo {
		fn.hits.Add(1)
	}
	e.depth++
	if e.depth > 20000 {
		panic(stopSig{stopSteps, "call depth limit"})
	}
	base := e.sp
	if base+fn.nregs > len(e.stack) {
		// grow: old frames keep their slices into the old array
		e.stack = make([]V, max(2*len(e.stack), 2*fn.nregs))
		base = 0
		e.sp = 0
	}
	regs := e.stack[base : base+fn.nregs : base+fn.nregs]
	stk := e.stack
	e.sp = base + fn.nregs
	clear(regs)
	copy(regs, args)
	copy(regs[fn.nparam:], env)
	fr := &Frame{fn: fn, regs: regs, caller: caller, dparent: dparent}
	if fn.defers {
		e.runDefer(fr)
	} else {
		e.loop(fr, fn.blocks[0])
	}
	if len(stk) == len(e.stack) && &stk[0] == &e.stack[0] {
		e.sp = base
	}
	e.depth--
	return fr.ret
}

func (e *Exec) loop(fr *Frame, b *Block) {
	for {
		e.steps += int64(len(b.ops)) + 1
		if e.steps > e.maxSteps {
			panic(stopSig{stopSteps, "step limit in " + fr.fn.name})
		}
		fr.cur = b
		e.lastFr = fr
		for i, op := range b.ops {
			fr.curI = i
			op(e, fr)
		}
		fr.curI = len(b.ops)
		ed := b.term(e, fr)
		if ed == nil {
			return
		}
		switch len(ed.moves) {
		case 0:
		case 1:
			fr.regs[ed.moves[0].dst] = ed.moves[0].src.v(e, fr)
		default:
			var tmp [8]V
			ms := ed.moves
			if len(ms) <= 8 {
				for i := range ms {
					tmp[i] = ms[i].src.v(e, fr)
				}
				for i := range ms {
					fr.regs[ms[i].dst] = tmp[i]
				}
			} else {
				t := make([]V, len(ms))
				for i := range ms {
					t[i] = ms[i].src.v(e, fr)
				}
				for i := range ms {
					fr.regs[ms[i].dst] = t[i]
				}
			}
		}
		b = ed.to
	}
}

// runDefer runs a function that has deferred calls.
func (e *Exec) runDefer(fr *Frame) {
	depth := e.depth
	run := func(b *Block) (tp *TargetPanic) {
		sp, stk := e.sp, e.stack
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(*TargetPanic); ok {
					tp = x
					e.depth = depth
					if len(stk) == len(e.stack) {
						e.sp = sp
					}
					return
				}
				panic(r)
			}
		}()
		e.loop(fr, b)
		return nil
	}
	tp := run(fr.fn.blocks[0])
	if tp == nil {
		return
	}
	fr.pan = tp
	for {
		tp2 := func() (tp *TargetPanic) {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(*TargetPanic); ok {
						tp = x
						e.depth = depth
						return
					}
					panic(r)
				}
			}()
			e.runDeferred(fr)
			return nil
		}()
		if tp2 != nil {
			fr.pan = tp2
			continue
		}
		break
	}
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.fn.recover != nil {
		if tp := run(fr.fn.recover); tp != nil {
			panic(tp)
		}
		return
	}
	// zero results
	res := fr.fn.fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		fr.ret = zeroV(e.p.tinfo(res.At(0).Type()))
	default:
		t := make(Tuple, res.Len())
		for i := range t {
			t[i] = zeroV(e.p.tinfo(res.At(i).Type()))
		}
		fr.ret = V{o: t}
	}
}

func (e *Exec) runDeferred(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.blt != nil {
			d.blt(e, d.args)
			continue
		}
		if d.clo != nil {
			if d.clo.nat != nil {
				d.clo.nat(e, d.args)
				continue
			}
			e.call(e.p.fnOf(d.clo.fn), d.args, d.clo.env, fr, fr)
			continue
		}
		e.call(d.fn, d.args, nil, fr, fr)
	}
}

func (e *Exec) rtpanic(msg string) {
	panic(&TargetPanic{val: e.mkErr("runtime error: " + msg), msg: "runtime error: " + msg, where: e.backtrace()})
}

func (e *Exec) backtrace() string {
	s := ""
	n := 0
	for fr := e.lastFr; fr != nil && n < 6; fr = fr.caller {
		if n > 0 {
			s += " < "
		}
		s += fr.fn.name
		n++
	}
	return s
}

// mkErr builds an *errors.errorString.
func (e *Exec) mkErr(msg string) V {
	ob := e.newObj(1)
	e.set(ob, 0, mkStr(msg))
	return V{o: &Iface{t: e.p.tErrStr, v: V{o: ob}}}
}

func (e *Exec) mkWrapErr(msg string, inner V) V {
	ob := e.newObj(2)
	e.set(ob, 0, mkStr(msg))
	e.set(ob, 1, inner)
	return V{o: &Iface{t: e.p.tWrapErr, v: V{o: ob}}}
}

func (p *Prog) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, nil}
	if !isExported(name) {
		k.pkg = pkg
	}
	p.methMu.Lock()
	defer p.methMu.Unlock()
	if f, ok := p.meth[k]; ok {
		return f
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = p.ssa.MethodValue(sel)
	}
	p.meth[k] = f
	return f
}

func isExported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

func (p *Prog) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	p.implMu.Lock()
	defer p.implMu.Unlock()
	if r, ok := p.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	p.impl[k] = r
	return r
}

// beginRun resets per-run state.
func (e *Exec) beginRun(prefix []prefEnt, model map[int]uint64) {
	for i := len(e.undo) - 1; i >= 0; i-- {
		u := e.undo[i]
		u.ob.n[u.i] = u.v.n
		if u.ob.o != nil {
			u.ob.o[u.i] = u.v.o
		} else if u.v.o != nil {
			u.ob.o = make([]any, len(u.ob.n))
			u.ob.o[u.i] = u.v.o
		}
	}
	e.undo = e.undo[:0]
	for i := len(e.undoMaps) - 1; i >= 0; i-- {
		e.undoMaps[i]()
	}
	e.undoMaps = e.undoMaps[:0]
	e.sp, e.depth, e.steps = 0, 0, 0
	e.prefix, e.model = prefix, model
	e.trail = e.trail[:0]
	clear(e.known)
	e.vars = e.vars[:0]
	e.vnames = e.vnames[:0]
	e.obs, e.rnd = nil, 0
	e.tags = nil
	e.asserts = 0
	e.onces = nil
	e.natRand = 0
	e.ctr = nil
	clear(e.reached)
	if len(e.tb.tab) > 3_000_000 {
		e.tb = NewTB()
	}
}

// newVar makes a symbolic scalar.
func (e *Exec) newVar(name string, w int) V {
	id := len(e.vars)
	t := e.tb.Var(id, w)
	e.vars = append(e.vars, t)
	e.vnames = append(e.vnames, name)
	return V{e.model[id] & maskB(w), t}
}

func maskB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (e *Exec) evalTerm(t *Term, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return e.model[int(t.k)] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	ev := func(x *Term) uint64 { return e.evalTerm(x, memo) }
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - ev(t.a)
	case OAnd:
		r = ev(t.a) & ev(t.b)
	case OOr:
		r = ev(t.a) | ev(t.b)
	case OIte:
		if ev(t.a) == 1 {
			r = ev(t.b)
		} else {
			r = ev(t.c)
		}
	case OEq:
		r = b2(ev(t.a) == ev(t.b))
	case OUlt:
		r = b2(ev(t.a) < ev(t.b))
	case OSlt:
		r = b2(sext(ev(t.a), t.a.w) < sext(ev(t.b), t.b.w))
	case OConcat:
		r = ev(t.a)<<uint(t.b.w) | ev(t.b)
	case OExtract:
		r = ev(t.a) >> t.k
	case OSExt:
		r = uint64(sext(ev(t.a), t.a.w))
	case OBNot:
		r = ^ev(t.a)
	case OBAnd:
		r = ev(t.a) & ev(t.b)
	case OBOr:
		r = ev(t.a) | ev(t.b)
	case OBXor:
		r = ev(t.a) ^ ev(t.b)
	case OAdd:
		r = ev(t.a) + ev(t.b)
	case OMul:
		r = ev(t.a) * ev(t.b)
	case OUDiv, OURem, OSDiv, OSRem:
		b := ev(t.b)
		if b == 0 {
			r = 0
		} else {
			r = e.tb.Div(t.op, e.tb.Const(t.w, ev(t.a)), e.tb.Const(t.w, b)).k
		}
	case OShl:
		if s := ev(t.b); s < 64 {
			r = ev(t.a) << s
		}
	case OLShr:
		if s := ev(t.b); s < 64 {
			r = ev(t.a) >> s
		}
	case OAShr:
		s := min(ev(t.b), 63)
		r = uint64(sext(ev(t.a), t.w) >> s)
	case OFP:
		var b uint64
		if t.b != nil {
			b = ev(t.b)
		}
		r = fpConc(t.k, t.w, t.a.w, ev(t.a), b)
	}
	r &= maskB(t.w)
	memo[t] = r
	return r
}
