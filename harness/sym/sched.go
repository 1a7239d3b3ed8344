package sym

import (
	"sync/atomic"
	"time"
)

// Native counterpart of the executor's scheduler: goroutines started with Go run
// one at a time and hand over only at Yield/Block points, following the recorded
// "sched" decisions.

type gor struct {
	id   int
	wake chan struct{}
	cond func() bool
	done bool
	main bool
}

type schedState struct {
	gors     []*gor
	cur      *gor
	explore  bool
	preempts int
	fail     interface{}
	failed   bool
}

var sch *schedState

// Preempt is the preemption bound, set by the runner.
var Preempt = 2

type deadlock struct{}

func (deadlock) Error() string { return "deadlock: all goroutines blocked" }

func resetSched() { sch = nil }

func runMain(f func()) {
	s := &schedState{}
	g := &gor{wake: make(chan struct{}, 1), main: true}
	s.gors = []*gor{g}
	s.cur = g
	sch = s
	f()
}

func (s *schedState) runnable() []*gor {
	var r []*gor
	for _, g := range s.gors {
		if !g.done && (g.cond == nil || g.cond()) {
			r = append(r, g)
		}
	}
	return r
}

func (s *schedState) handTo(g *gor) {
	s.cur = g
	g.wake <- struct{}{}
}

func (s *schedState) wait(g *gor) {
	<-g.wake
	s.cur = g
	if g.main && s.failed {
		panic(s.fail)
	}
}

// Go starts f as a scheduled goroutine.
func Go(f func()) {
	s := sch
	g := &gor{id: len(s.gors), wake: make(chan struct{}, 1)}
	s.gors = append(s.gors, g)
	go func() {
		<-g.wake
		s.cur = g
		defer func() {
			r := recover()
			g.done = true
			if r != nil {
				s.fail, s.failed = r, true
				s.handTo(s.gors[0])
				return
			}
			rs := s.runnable()
			if len(rs) == 0 {
				s.fail, s.failed = deadlock{}, true
				s.handTo(s.gors[0])
				return
			}
			k := 0
			if s.explore && len(rs) > 1 {
				k = int(get("sched"))
			}
			if k >= len(rs) {
				k = 0
			}
			s.handTo(rs[k])
		}()
		f()
	}()
	Yield()
}

// Explore switches schedule exploration on.
func Explore() { sch.explore = true }

// Yield is a possible preemption point.
func Yield() {
	s := sch
	if s == nil || !s.explore || s.preempts >= Preempt {
		return
	}
	g := s.cur
	var others []*gor
	for _, r := range s.runnable() {
		if r != g {
			others = append(others, r)
		}
	}
	if len(others) == 0 {
		return
	}
	k := int(get("sched"))
	if k == 0 || k > len(others) {
		return
	}
	s.preempts++
	s.handTo(others[k-1])
	s.wait(g)
}

// Block parks the caller until cond holds.
func Block(cond func() bool) {
	s := sch
	if s == nil {
		for !cond() {
			time.Sleep(time.Millisecond)
		}
		return
	}
	if cond() {
		return
	}
	g := s.cur
	g.cond = cond
	rs := s.runnable()
	if len(rs) == 0 {
		panic(deadlock{})
	}
	k := 0
	if s.explore && len(rs) > 1 {
		k = int(get("sched"))
		if k >= len(rs) {
			k = 0
		}
	}
	if rs[k] != g {
		s.handTo(rs[k])
		s.wait(g)
	}
	g.cond = nil
}

// Wait blocks until every other scheduled goroutine has ended.
func Wait() {
	s := sch
	me := s.cur
	Block(func() bool {
		for _, x := range s.gors {
			if x != me && !x.done {
				return false
			}
		}
		return true
	})
}

// Mutex and RWMutex are cooperative locks used by instrumented sources.
type RWMutex struct {
	w int32
	r int32
}

func (m *RWMutex) Lock() {
	Yield()
	Block(func() bool { return m.w == 0 && m.r == 0 })
	atomic.StoreInt32(&m.w, 1)
}
func (m *RWMutex) Unlock() {
	if m.w == 0 {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.w = 0
	Yield()
}
func (m *RWMutex) RLock() {
	Yield()
	Block(func() bool { return m.w == 0 })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	Yield()
}
func (m *RWMutex) TryLock() bool {
	Yield()
	if m.w != 0 || m.r != 0 {
		return false
	}
	m.w = 1
	return true
}

type Mutex = RWMutex

// FixRand makes random numbers constant in the encoding, where no result depends on them.
func FixRand() {}
