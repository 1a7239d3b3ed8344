package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// gor is one interpreted goroutine. At most one runs at a time (token passing).
type gor struct {
	id   int
	top  *frame
	wake chan struct{}
	cond func() bool // nil when runnable
	done bool
	what string
}

type deadlockErr struct{ where string }

func (m *Machine) runnable() []*gor {
	var r []*gor
	for _, g := range m.gors {
		if !g.done && (g.cond == nil || g.cond()) {
			r = append(r, g)
		}
	}
	return r
}

// spawn starts a goroutine; it first runs when scheduled.
func (m *Machine) spawn(fn value, args []value) {
	if !m.inPath {
		panic(unsupported("go statement during package initialisation"))
	}
	g := &gor{id: len(m.gors), wake: make(chan struct{}, 1)}
	m.gors = append(m.gors, g)
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if m.dying {
				return
			}
			if r != nil {
				m.abortErr = r
				m.handTo(m.gors[0])
				return
			}
			m.leave()
		}()
		if m.dying {
			panic(pathAbort{"killed"})
		}
		m.cur = g
		if b, ok := fn.(*ssa.Builtin); ok {
			panic(unsupported("go builtin " + b.Name()))
		}
		m.callFn(g, nil, fn, args)
	}()
	m.schedPoint()
}

func (m *Machine) handTo(g *gor) {
	m.cur = g
	g.wake <- struct{}{}
}

func (m *Machine) waitToken(g *gor) {
	<-g.wake
	if m.dying {
		panic(pathAbort{"killed"})
	}
	m.cur = g
	if g.id == 0 && m.abortErr != nil {
		e := m.abortErr
		panic(e)
	}
}

// leave: the current goroutine ended; hand the token on.
func (m *Machine) leave() {
	rs := m.runnable()
	if len(rs) == 0 {
		m.abortErr = deadlockErr{m.blockedWhere()}
		m.handTo(m.gors[0])
		return
	}
	k := 0
	if m.explore && len(rs) > 1 {
		k = m.pickSched("sched", len(rs))
		if k < 0 {
			m.handTo(m.gors[0])
			return
		}
	}
	m.handTo(rs[k])
}

// pickSched makes a schedule choice that may be called outside a recover context.
func (m *Machine) pickSched(name string, n int) (k int) {
	defer func() {
		if r := recover(); r != nil {
			m.abortErr = r
			k = -1
		}
	}()
	return m.schedChoice(n)
}

func (m *Machine) schedChoice(n int) int {
	return m.inputChoice("sched", n)
}

func (m *Machine) blockedWhere() string {
	s := ""
	for _, g := range m.gors {
		if !g.done {
			sv := m.cur
			m.cur = g
			s += "[" + g.what + " at " + m.where() + "] "
			m.cur = sv
		}
	}
	return s
}

// block parks the current goroutine until cond holds.
func (m *Machine) block(what string, cond func() bool) {
	g := m.cur
	if !cond() {
		if !m.inPath {
			panic(unsupported("blocking during package initialisation"))
		}
		g.cond, g.what = cond, what
		rs := m.runnable()
		if len(rs) == 0 {
			panic(deadlockErr{m.blockedWhere()})
		}
		k := 0
		if m.explore && len(rs) > 1 {
			k = m.schedChoice(len(rs))
		}
		if rs[k] != g {
			m.handTo(rs[k])
			m.waitToken(g)
		}
		g.cond = nil
	}
}

// schedPoint is a place where another goroutine may be scheduled.
func (m *Machine) schedPoint() {
	if !m.inPath || !m.explore || m.preempts >= m.cfg.Preempt {
		return
	}
	g := m.cur
	rs := m.runnable()
	// order: current first
	var others []*gor
	for _, r := range rs {
		if r != g {
			others = append(others, r)
		}
	}
	if len(others) == 0 {
		return
	}
	k := m.schedChoice(len(others) + 1)
	if k == 0 {
		return
	}
	m.preempts++
	m.handTo(others[k-1])
	m.waitToken(g)
}

// yield lets every other goroutine run until blocked (non exploring mode).
func (m *Machine) yieldNow() {
	if m.explore {
		m.schedPoint()
		return
	}
	g := m.cur
	var next *gor
	for _, r := range m.runnable() {
		if r.id > g.id {
			next = r
			break
		}
	}
	if next == nil {
		for _, r := range m.runnable() {
			if r != g {
				next = r
				break
			}
		}
	}
	if next != nil {
		m.handTo(next)
		m.waitToken(g)
	}
}

// shutdown ends every other goroutine of the path.
func (m *Machine) shutdown() {
	if len(m.gors) <= 1 {
		return
	}
	m.dying = true
	for _, g := range m.gors[1:] {
		if !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	m.wg.Wait()
	m.gors = m.gors[:1]
}

// ---- channels ----

func (m *Machine) chanSend(ch *chanVal, v value) {
	if ch == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	m.schedPoint()
	if ch.closed {
		m.rtPanicPlain("send on closed channel")
	}
	if ch.cap > 0 {
		m.block("chan send", func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			m.rtPanicPlain("send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(v))
		return
	}
	// unbuffered: enqueue and wait until taken
	ps := &pendSend{v: copyVal(v)}
	ch.sendq = append(ch.sendq, ps)
	m.block("chan send", func() bool { return ps.done || ch.closed })
	if !ps.done {
		m.rtPanicPlain("send on closed channel")
	}
}

func (ch *chanVal) canRecv() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (m *Machine) takeRecv(ch *chanVal) (value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]value(nil), ch.buf[1:]...)
		return v, true
	}
	if len(ch.sendq) > 0 {
		ps := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		ps.done = true
		return ps.v, true
	}
	return zero(ch.elem), false
}

func (m *Machine) chanRecv(ch *chanVal) (value, bool) {
	if ch == nil {
		m.block("receive from nil channel", func() bool { return false })
	}
	m.schedPoint()
	m.block("chan receive", ch.canRecv)
	return m.takeRecv(ch)
}

func (m *Machine) doSelect(fr *frame, in *ssa.Select) value {
	type st struct {
		ch   *chanVal
		send bool
		v    value
	}
	var sts []st
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly}
		x.ch, _ = fr.get(s.Chan).(*chanVal)
		if x.send {
			x.v = fr.get(s.Send)
		}
		sts = append(sts, x)
	}
	ready := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send {
				if s.ch.closed || s.ch.cap > 0 && len(s.ch.buf) < s.ch.cap {
					r = append(r, i)
				}
			} else if s.ch.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	m.schedPoint()
	idx := -1
	rs := ready()
	if len(rs) == 0 && in.Blocking {
		m.block("select", func() bool { return len(ready()) > 0 })
		rs = ready()
	}
	if len(rs) > 0 {
		idx = rs[0]
		if m.explore {
			idx = rs[m.choose("select", len(rs))]
		}
	}
	res := tuple{intv(idx), tFalse}
	for i, s := range sts {
		if s.send {
			if i == idx {
				if s.ch.closed {
					m.rtPanicPlain("send on closed channel")
				}
				s.ch.buf = append(s.ch.buf, copyVal(s.v))
			}
			continue
		}
		if i == idx {
			v, ok := m.takeRecv(s.ch)
			res[1] = mkBool(ok)
			res = append(res, v)
		} else {
			res = append(res, zero(in.States[i].Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	if idx < 0 {
		res[0] = mkConst(64, ^uint64(0))
	}
	return res
}
