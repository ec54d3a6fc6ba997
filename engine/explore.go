package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"sync"
	"time"
)

type runCfg struct {
	params    map[string]int
	concLimit int
	workers   int
	solver    string
	solver2   string
	timeout   time.Duration
	budget    time.Duration
	maxSteps  int64
	maxPaths  int
	seed      uint64
	crossN    int // cross-check every unsat/sat with the second solver when >0
	dbg       bool
	samples   int
	stopFirst bool
}

type workItem struct {
	bits  []prefEnt // shared
	n     int       // prefix length; last entry flipped
	base  map[int]uint64
	delta map[int]uint64
}

type caseRec struct {
	model  []uint64
	names  []string
	widths []int
	obs    []string
	status string // "done", "violation: msg", "panic: msg"
	msg    string
	where  string
	npath  int
}

type cacheKey [2]uint64
type cacheVal struct {
	res   satRes
	model map[int]uint64
}

type Stats struct {
	Paths, Decisions, Queries, CacheHits, Flips, SatFlips, UnsatFlips int
	Oblig, ObligDischarged, SynDischarged, Assumed, MaxTrail, MaxVars int
	SolverTime                                                        time.Duration
	Cross, CrossDisagree, CrossUnknown                                int
	Steps                                                             int64
	Kinds                                                             map[string]int
	Incomplete                                                        map[string]int
	Reached                                                           map[string]int
	Exhausted                                                         bool
	PathsAsserting                                                    int
	Wall                                                              time.Duration
}

// Explorer explores all paths of one harness.
type Explorer struct {
	p      *Prog
	cfg    *runCfg
	h      *Harness
	mu     sync.Mutex
	cond   *sync.Cond
	q      []workItem
	busy   int
	stop   bool
	st     Stats
	cmu    sync.RWMutex
	cache  map[cacheKey]cacheVal
	viol   []caseRec
	vseen  map[string]int
	samp   []caseRec
	rng    uint64
	onViol func(c caseRec) bool // returns true when confirmed: exploration stops
}

func (x *Explorer) rand() uint64 {
	x.rng ^= x.rng << 13
	x.rng ^= x.rng >> 7
	x.rng ^= x.rng << 17
	return x.rng
}

type worker struct {
	x  *Explorer
	e  *Exec
	s  *Solver
	s2 *Solver
	st Stats
}

type execPool struct {
	mu   sync.Mutex
	free []*worker
}

var pool execPool

func getWorker(p *Prog, cfg *runCfg) (*worker, error) {
	pool.mu.Lock()
	if n := len(pool.free); n > 0 {
		w := pool.free[n-1]
		pool.free = pool.free[:n-1]
		pool.mu.Unlock()
		return w, nil
	}
	pool.mu.Unlock()
	w := &worker{}
	w.e = NewExec(p)
	w.e.cfg = cfg
	w.e.maxSteps = 2_000_000_000
	fails := w.e.runInits()
	p.initOnce.Do(func() { p.initFails = fails })
	var err error
	w.s, err = NewSolver(cfg.solver, cfg.timeout)
	if err != nil {
		return nil, err
	}
	return w, nil
}

func closePool() {
	pool.mu.Lock()
	defer pool.mu.Unlock()
	for _, w := range pool.free {
		w.s.Close()
		if w.s2 != nil {
			w.s2.Close()
		}
	}
	pool.free = nil
}

func Explore(p *Prog, cfg *runCfg, h *Harness, onViol func(c caseRec) bool) *Explorer {
	x := &Explorer{p: p, cfg: cfg, h: h, cache: map[cacheKey]cacheVal{}, vseen: map[string]int{}, rng: cfg.seed*0x9E3779B97F4A7C15 + 88172645463325252, onViol: onViol}
	x.cond = sync.NewCond(&x.mu)
	x.st.Kinds, x.st.Incomplete, x.st.Reached = map[string]int{}, map[string]int{}, map[string]int{}
	x.q = []workItem{{}}
	t0 := time.Now()
	tm := time.AfterFunc(cfg.budget, func() {
		x.mu.Lock()
		if !x.stop {
			x.stop = true
			x.st.Incomplete["time budget"]++
		}
		x.cond.Broadcast()
		x.mu.Unlock()
	})
	var wg sync.WaitGroup
	for i := 0; i < cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.mu.Lock()
			for len(x.q) == 0 && x.busy > 0 && !x.stop {
				x.cond.Wait()
			}
			fin := len(x.q) == 0 || x.stop
			x.mu.Unlock()
			if fin && i > 0 {
				return
			}
			w, err := getWorker(p, cfg)
			if err != nil {
				x.mu.Lock()
				x.st.Incomplete["solver start: "+err.Error()]++
				x.mu.Unlock()
				return
			}
			w.x = x
			w.e.cfg = cfg
			w.e.maxSteps = cfg.maxSteps
			w.e.dbg = cfg.dbg
			w.st = Stats{}
			q0, t0 := w.s.Queries, w.s.Time
			w.loop(i)
			x.mu.Lock()
			x.st.add(&w.st)
			x.st.Queries += w.s.Queries - q0
			x.st.SolverTime += w.s.Time - t0
			x.mu.Unlock()
			pool.mu.Lock()
			pool.free = append(pool.free, w)
			pool.mu.Unlock()
		}()
		// let the first worker seed the queue before the others spend time on start-up
		if i == 0 {
			for {
				time.Sleep(2 * time.Millisecond)
				x.mu.Lock()
				r := len(x.q) > 1 || (x.st.Paths > 0 && x.busy == 0) || x.stop || len(x.st.Incomplete) > 0
				x.mu.Unlock()
				if r {
					break
				}
			}
		}
	}
	wg.Wait()
	tm.Stop()
	x.st.Exhausted = len(x.q) == 0 && !x.stop && len(x.st.Incomplete) == 0
	if len(x.q) > 0 && !x.stop {
		x.st.Incomplete["queue not drained"]++
	}
	x.st.Wall = time.Since(t0)
	return x
}

func (a *Stats) add(b *Stats) {
	a.Decisions += b.Decisions
	a.CacheHits += b.CacheHits
	a.Flips += b.Flips
	a.SatFlips += b.SatFlips
	a.UnsatFlips += b.UnsatFlips
	a.Oblig += b.Oblig
	a.ObligDischarged += b.ObligDischarged
	a.SynDischarged += b.SynDischarged
	a.Assumed += b.Assumed
	a.MaxTrail = max(a.MaxTrail, b.MaxTrail)
	a.MaxVars = max(a.MaxVars, b.MaxVars)
	a.Cross += b.Cross
	a.CrossDisagree += b.CrossDisagree
	a.CrossUnknown += b.CrossUnknown
	a.Steps += b.Steps
}

func (w *worker) loop(id int) {
	x := w.x
	for {
		x.mu.Lock()
		for len(x.q) == 0 && x.busy > 0 && !x.stop {
			x.cond.Wait()
		}
		if len(x.q) == 0 || x.stop {
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		var it workItem
		if id == 1 && len(x.q) > 64 {
			k := int(x.rand() % uint64(len(x.q)))
			it = x.q[k]
			x.q[k] = x.q[len(x.q)-1]
		} else {
			it = x.q[len(x.q)-1]
		}
		x.q[len(x.q)-1] = workItem{}
		x.q = x.q[:len(x.q)-1]
		x.busy++
		x.mu.Unlock()
		items := w.runItem(it)
		x.mu.Lock()
		x.q = append(x.q, items...)
		x.busy--
		if x.cfg.maxPaths > 0 && x.st.Paths >= x.cfg.maxPaths && !x.stop {
			x.stop = true
			x.st.Incomplete["path budget"]++
		}
		x.cond.Broadcast()
		x.mu.Unlock()
	}
}

func (w *worker) runItem(it workItem) []workItem {
	x, e := w.x, w.e
	model := make(map[int]uint64, len(it.base)+len(it.delta))
	for k, v := range it.base {
		model[k] = v
	}
	for k, v := range it.delta {
		model[k] = v
	}
	var prefix []prefEnt
	if it.n > 0 {
		prefix = make([]prefEnt, it.n)
		copy(prefix, it.bits[:it.n])
		prefix[it.n-1].val = !prefix[it.n-1].val
	}
	tb := e.tb
	e.beginRun(prefix, model)
	if e.tb != tb {
		w.s.restart()
		if w.s2 != nil {
			w.s2.restart()
		}
	}
	kind, msg, where := w.exec()
	w.st.Decisions += len(e.trail)
	w.st.Steps += e.steps
	w.st.SynDischarged += e.asserts
	w.st.MaxTrail = max(w.st.MaxTrail, len(e.trail))
	w.st.MaxVars = max(w.st.MaxVars, len(e.vars))
	if len(e.trail) < it.n && kind != stopUnsupported && kind != stopInternal {
		kind, msg = stopInternal, "replay shorter than its prefix"
	}
	var items []workItem
	if kind != stopInternal {
		items = w.flips(it.n, model)
	}

	x.mu.Lock()
	defer x.mu.Unlock()
	x.st.Paths++
	x.st.Kinds[kind.String()]++
	for k, v := range e.incomplete {
		x.st.Incomplete[k] += v
	}
	clear(e.incomplete)
	switch kind {
	case stopUnsupported, stopInternal:
		x.st.Incomplete[kind.String()+": "+msg+" @ "+where]++
	}
	for k, v := range e.reached {
		x.st.Reached[k] += v
	}
	rec := func(status string) caseRec {
		c := caseRec{status: status, msg: msg, where: where, obs: append([]string(nil), e.obs...), npath: x.st.Paths}
		for i, v := range e.vars {
			c.model = append(c.model, model[i]&maskB(v.w))
			c.widths = append(c.widths, v.w)
			c.names = append(c.names, e.vnames[i])
		}
		return c
	}
	switch kind {
	case stopDone:
		if x.cfg.samples > 0 {
			if len(x.samp) < x.cfg.samples {
				x.samp = append(x.samp, rec("done"))
			} else if k := x.rand() % uint64(x.st.Paths); k < uint64(x.cfg.samples) {
				x.samp[k] = rec("done")
			}
		}
	case stopViolation, stopSteps:
		key := msg + "|" + where
		x.vseen[key]++
		if x.vseen[key] <= 3 && len(x.viol) < 40 {
			c := rec(kind.String())
			x.viol = append(x.viol, c)
			if x.onViol != nil && !x.stop {
				x.mu.Unlock()
				conf := x.onViol(c)
				x.mu.Lock()
				if conf && x.cfg.stopFirst {
					x.stop = true
					x.st.Incomplete["stopped at the first confirmed violation"]++
				}
			}
		}
		if kind == stopSteps {
			x.st.Incomplete["step limit"]++
		}
	}
	return items
}

func (w *worker) exec() (kind stopKind, msg, where string) {
	e := w.e
	e.far = false
	defer e.endRun()
	defer func() {
		if r := recover(); r != nil {
			switch y := r.(type) {
			case stopSig:
				kind, msg = y.kind, y.msg
				where = e.backtrace()
			case *TargetPanic:
				kind, msg, where = stopViolation, "panic: "+y.msg, y.where
			default:
				if e.dbg {
					panic(r)
				}
				kind, msg, where = stopInternal, fmt.Sprint(r), e.backtrace()
				if _, ok := r.(runtime.Error); ok && e.far {
					kind, msg = stopViolation, "bytes far before the data are used"
				}
			}
		}
	}()
	e.callSSA(w.x.h.fn, nil, nil, nil)
	return stopDone, "", ""
}

// flips queries the negation of every new decision of the finished run.
func (w *worker) flips(from int, model map[int]uint64) []workItem {
	e := w.e
	type compo struct {
		vs   VarSet
		lits []int
		dead bool
	}
	var comps []*compo
	var items []workItem
	var bits []prefEnt
	for i := range e.trail {
		d := &e.trail[i]
		vs := &d.cond.vars
		// closure of overlapping components
		var in []*compo
		live := comps[:0]
		for _, c := range comps {
			if c.vs.overlaps(vs) {
				in = append(in, c)
			} else {
				live = append(live, c)
			}
		}
		n := 1
		for _, c := range in {
			n += len(c.lits)
		}
		m := &compo{vs: *vs, lits: make([]int, 0, n)}
		for _, c := range in {
			m.vs.union(&c.vs)
			m.lits = append(m.lits, c.lits...)
		}
		if i >= from && !d.noflip {
			w.st.Flips++
			if d.oblig {
				w.st.Oblig++
			}
			lits := make([]*Term, 0, n)
			neg := make([]bool, 0, n)
			sort.Ints(m.lits)
			for _, j := range m.lits {
				lits = append(lits, e.trail[j].cond)
				neg = append(neg, !e.trail[j].val)
			}
			lits = append(lits, d.cond)
			neg = append(neg, d.val)
			res, mod := w.query(lits, neg, &m.vs)
			switch res {
			case resSat:
				w.st.SatFlips++
				if bits == nil {
					bits = make([]prefEnt, len(e.trail))
					for k, t := range e.trail {
						bits[k] = prefEnt{val: t.val, conc: t.conc, cval: t.cval}
						if e.dbg {
							bits[k].dbg = e.termStr(t.cond)
						}
					}
				}
				items = append(items, workItem{bits: bits, n: i + 1, base: model, delta: mod})
			case resUnsat:
				w.st.UnsatFlips++
				if d.oblig {
					w.st.ObligDischarged++
				}
			default:
				e.incomplete["solver gave no answer"]++
			}
		}
		m.lits = append(m.lits, i)
		comps = append(live, m)
	}
	return items
}

func (w *worker) query(lits []*Term, neg []bool, vs *VarSet) (satRes, map[int]uint64) {
	x, e := w.x, w.e
	// structural key
	h := fnv.New128a()
	var buf [17]byte
	for i, l := range lits {
		binary.LittleEndian.PutUint64(buf[:], l.h1)
		binary.LittleEndian.PutUint64(buf[8:], l.h2)
		buf[16] = 0
		if neg[i] {
			buf[16] = 1
		}
		h.Write(buf[:])
	}
	sum := h.Sum(nil)
	key := cacheKey{binary.LittleEndian.Uint64(sum), binary.LittleEndian.Uint64(sum[8:])}
	x.cmu.RLock()
	v, ok := x.cache[key]
	x.cmu.RUnlock()
	if ok {
		w.st.CacheHits++
		return v.res, v.model
	}
	var vars []*Term
	for _, t := range e.vars {
		if t.vars.overlaps(vs) {
			vars = append(vars, t)
		}
	}
	// variables not used in the query must be declared too: restrict to those occurring
	if len(e.vars) > 256 {
		vars = usedVars(lits, vars)
	}
	res, mod := w.s.Check(lits, neg, vars)
	if res == resUnknown && x.cfg.solver2 != "" {
		w.ensure2()
		if w.s2 != nil {
			res, mod = w.s2check(lits, neg, vars)
		}
	} else if x.cfg.crossN > 0 && res != resUnknown && (key[0]%uint64(x.cfg.crossN)) == 0 {
		w.ensure2()
		if w.s2 != nil {
			r2, _ := w.s2check(lits, neg, vars)
			w.st.Cross++
			if r2 == resUnknown {
				w.st.CrossUnknown++
			} else if r2 != res {
				w.st.CrossDisagree++
				e.incomplete["solver disagreement"]++
			}
		}
	}
	x.cmu.Lock()
	x.cache[key] = cacheVal{res, mod}
	x.cmu.Unlock()
	return res, mod
}

func (w *worker) ensure2() {
	if w.s2 == nil {
		s, err := NewSolver(w.x.cfg.solver2, w.x.cfg.timeout)
		if err == nil {
			w.s2 = s
		}
	}
}

// s2check uses the second solver with its own definitions: generation tags on
// terms belong to the first solver, so definitions are swapped in and out.
func (w *worker) s2check(lits []*Term, neg []bool, vars []*Term) (satRes, map[int]uint64) {
	w.s2.restart()
	if w.s2.dead {
		return resUnknown, nil
	}
	r, m := w.s2.Check(lits, neg, vars)
	w.s.restart()
	return r, m
}

func usedVars(lits []*Term, vars []*Term) []*Term {
	used := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			used[t] = true
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, l := range lits {
		walk(l)
	}
	var r []*Term
	for _, v := range vars {
		if used[v] {
			r = append(r, v)
		}
	}
	return r
}
