package main

// Goroutines of the program under test. Each runs on a goroutine of the engine,
// one at a time: a new one runs until it has to wait, then its creator goes on;
// one that waits makes room for the one that is ready for longest. This is one
// schedule of many. Code that depends on the schedule gets its choices from the
// harness, which decides what the goroutines wait for and when it comes.

type coro struct {
	wake   chan struct{}
	cond   func() bool // what it waits for, nil: nothing
	idle   bool        // waits until all others wait
	parent *coro       // until it waits for the first time
	kill   bool
	stack  []V
	sp     int
	depth  int
	lastFr *Frame
}

type wgKey struct {
	ob *Obj
	i  uint64
}

type sched struct {
	cos  []*coro // in the order of their turns
	cur  *coro
	main *coro
	free [][]V
	pend any // a panic on its way to the first goroutine
	ack  chan struct{}
	wg   map[wgKey]int
}

type killSig struct{}

func (e *Exec) sched() *sched {
	if e.sc == nil {
		m := &coro{wake: make(chan struct{})}
		e.sc = &sched{cos: []*coro{m}, cur: m, main: m, ack: make(chan struct{}), wg: map[wgKey]int{}}
	}
	return e.sc
}

// enter makes c the running goroutine; the caller has to stop.
func (e *Exec) enter(c *coro) {
	s := e.sc
	s.cur = c
	e.stack, e.sp, e.depth, e.lastFr = c.stack, c.sp, c.depth, c.lastFr
	c.wake <- struct{}{}
}

func (e *Exec) switchTo(c *coro) {
	s := e.sc
	me := s.cur
	me.stack, me.sp, me.depth, me.lastFr = e.stack, e.sp, e.depth, e.lastFr
	e.enter(c)
	<-me.wake
	if me.kill {
		panic(killSig{})
	}
	if me == s.main && s.pend != nil {
		r := s.pend
		s.pend = nil
		panic(r)
	}
}

func (s *sched) remove(c *coro) {
	for i, x := range s.cos {
		if x == c {
			s.cos = append(s.cos[:i:i], s.cos[i+1:]...)
			return
		}
	}
}

// next is whose turn it is after that of the running goroutine.
func (s *sched) next() *coro {
	if p := s.cur.parent; p != nil {
		s.cur.parent = nil
		return p
	}
	var idle *coro
	for _, c := range s.cos {
		if c == s.cur || c.cond != nil && !c.cond() {
			continue
		}
		if !c.idle {
			return c
		}
		if idle == nil {
			idle = c
		}
	}
	return idle
}

func (e *Exec) spawn(run func()) {
	s := e.sched()
	if len(s.cos) > 10000 {
		e.unsupported("more than 10000 goroutines")
	}
	c := &coro{wake: make(chan struct{}), parent: s.cur}
	if n := len(s.free); n > 0 {
		c.stack, s.free = s.free[n-1], s.free[:n-1]
	} else {
		c.stack = make([]V, 1<<10)
	}
	s.cos = append(s.cos, c)
	st := c.stack
	go func() {
		<-c.wake
		defer func() {
			r := recover()
			if c.kill {
				s.ack <- struct{}{}
				return
			}
			s.free = append(s.free, st)
			n := s.main
			if r != nil {
				s.pend = r
			} else if n = s.next(); n == nil {
				s.pend, n = stopSig{stopSteps, "all goroutines are asleep"}, s.main
			}
			s.remove(c)
			e.enter(n)
		}()
		if c.kill {
			return
		}
		run()
	}()
	e.switchTo(c)
}

// wait lets others run until cond holds.
func (e *Exec) wait(cond func() bool) {
	if cond != nil && cond() {
		return
	}
	e.yield(cond, false)
	for cond != nil && !cond() {
		e.yield(cond, false)
	}
}

func (e *Exec) yield(cond func() bool, idle bool) {
	s := e.sched()
	me := s.cur
	me.cond, me.idle = cond, idle
	s.remove(me)
	s.cos = append(s.cos, me)
	n := s.next()
	if n != nil && n.idle && !idle && (cond == nil || cond()) {
		n = nil
	}
	if n == nil {
		if cond != nil && !cond() {
			panic(stopSig{stopSteps, "all goroutines are asleep"})
		}
	} else {
		e.switchTo(n)
	}
	me.cond, me.idle = nil, false
}

// endRun ends the goroutines that are left when a run ends.
func (e *Exec) endRun() {
	s := e.sc
	if s == nil {
		return
	}
	for _, c := range s.cos {
		if c != s.main {
			c.kill = true
			c.wake <- struct{}{}
			<-s.ack
		}
	}
	e.sc = nil
}

func (e *Exec) wgOf(v V) wgKey { return wgKey{v.o.(*Obj), v.n} }
