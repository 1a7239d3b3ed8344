package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term operator. Terms are bit-vectors (w>0) or booleans (w==0).
// Floating point values are carried as their IEEE bit pattern.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat // n-ary, args[0] most significant
	OExtract
	OSExt
	OUF
	OBytesLt // args = a1..an b1..bn (each 8 bit)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFFromS
	OFToS
	OFFromU
	OFUF // float uninterpreted (math.Sin ...), same as OUF
)

type Term struct {
	op   Op
	w    int32
	val  uint64 // const value; extract: lo
	name string
	args []*Term
	id   int
	lazy bool // mentions variables with definitions that are given to the solver when needed
}

// Ctx holds the per-path hash-consing table.
type Ctx struct {
	tab  map[uint64][]*Term
	next int
}

func newCtx() *Ctx { return &Ctx{tab: map[uint64][]*Term{}} }

func (c *Ctx) reset() { c.tab = map[uint64][]*Term{}; c.next = 0 }

var (
	tTrue  = &Term{op: OConst, w: 0, val: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0}
	small8 [256]*Term
	smallW = map[int32]*[1024]*Term{}
)

func init() {
	for i := range small8 {
		small8[i] = &Term{op: OConst, w: 8, val: uint64(i)}
	}
	for _, w := range []int32{16, 32, 64} {
		var a [1024]*Term
		for i := range a {
			a[i] = &Term{op: OConst, w: w, val: uint64(i)}
		}
		smallW[w] = &a
	}
}

func mask(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func mkConst(w int32, v uint64) *Term {
	v &= mask(w)
	switch w {
	case 8:
		return small8[v]
	case 16, 32, 64:
		if v < 1024 {
			return smallW[w][v]
		}
	}
	return &Term{op: OConst, w: w, val: v}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w int32) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func sameTerm(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

func hmix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	return h * 0xff51afd7ed558ccd
}

func (c *Ctx) mk(op Op, w int32, val uint64, name string, args ...*Term) *Term {
	h := hmix(uint64(op), uint64(w))
	h = hmix(h, val)
	for i := 0; i < len(name); i++ {
		h = hmix(h, uint64(name[i]))
	}
	for _, a := range args {
		if a.op == OConst {
			h = hmix(h, a.val*31+7)
		} else {
			h = hmix(h, uint64(a.id)+0x1000000)
		}
	}
next:
	for _, t := range c.tab[h] {
		if t.op != op || t.w != w || t.val != val || t.name != name || len(t.args) != len(args) {
			continue
		}
		for i := range args {
			if !sameTerm(t.args[i], args[i]) {
				continue next
			}
		}
		return t
	}
	c.next++
	t := &Term{op: op, w: w, val: val, name: name, args: append([]*Term(nil), args...), id: c.next}
	for _, a := range args {
		t.lazy = t.lazy || a.lazy
	}
	c.tab[h] = append(c.tab[h], t)
	return t
}

func (c *Ctx) Var(name string, w int32) *Term { return c.mk(OVar, w, 0, name) }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return mkBool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, "", a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tFalse
	}
	return c.mk(OAnd, 0, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return tTrue
	}
	return c.mk(OOr, 0, 0, "", a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if sameTerm(a, b) {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if sameTerm(a, b) {
		return a
	}
	if a.op == OConcat && (b.op == OConcat || b.op == OConst) || b.op == OConcat && a.op == OConst {
		if hi, lo := c.commonEnds(a, b); hi < a.w || lo > 0 {
			var out []*Term
			if hi < a.w {
				out = append(out, c.Extract(a, a.w-1, hi))
			}
			out = append(out, c.Ite(cond, c.Extract(a, hi-1, lo), c.Extract(b, hi-1, lo)))
			if lo > 0 {
				out = append(out, c.Extract(a, lo-1, 0))
			}
			return c.Concat(out...)
		}
	}
	return c.mk(OIte, a.w, 0, "", cond, a, b)
}

// commonEnds returns the bits hi-1..lo of a and b that remain after leaving
// off the head and the tail they have in common.
func (c *Ctx) commonEnds(a, b *Term) (hi, lo int32) {
	pa, pb := c.align(a, b)
	i, j := 0, len(pa)-1
	hi = a.w
	for ; i < j && sameTerm(pa[i], pb[i]); i++ {
		hi -= pa[i].w
	}
	for ; j > i && sameTerm(pa[j], pb[j]); j-- {
		lo += pa[j].w
	}
	if x, y := pa[i], pb[i]; x.op == OConst && y.op == OConst {
		d := x.val ^ y.val
		for hi-lo > 1 && i <= j && d>>uint(x.w-1)&1 == 0 && x.w > 1 {
			hi--
			x = mkConst(x.w-1, x.val)
			d &= 1<<uint(x.w) - 1
		}
	}
	if x, y := pa[j], pb[j]; x.op == OConst && y.op == OConst {
		d := x.val ^ y.val
		if d != 0 {
			n := int32(bits.TrailingZeros64(d))
			if lo+n < hi {
				lo += n
			}
		}
	}
	return hi, lo
}

// constIte reports whether t is a (nested, small) ite tree with constant leaves.
func constIte(t *Term, depth int) bool {
	if t.op == OConst {
		return true
	}
	return t.op == OIte && depth > 0 && constIte(t.args[1], depth-1) && constIte(t.args[2], depth-1)
}

func (c *Ctx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.args[0], c.mapIte(t.args[1], f), c.mapIte(t.args[2], f))
	}
	return f(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(engineErr(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w)))
	}
	if sameTerm(a, b) {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return mkBool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if b.op == OConst && a.op == OIte && constIte(a, 6) {
		return c.mapIte(a, func(t *Term) *Term { return mkBool(t.val == b.val) })
	}
	if a.op == OIte && b.op == OIte && constIte(a, 3) && constIte(b, 3) {
		return c.mapIte(a, func(x *Term) *Term { return c.Eq(b, x) })
	}
	if a.op == OConcat && (b.op == OConcat || b.op == OConst) {
		// split on common boundaries
		pa, pb := c.align(a, b)
		if len(pa) > 1 {
			r := tTrue
			for i := range pa {
				r = c.And(r, c.Eq(pa[i], pb[i]))
				if r.isFalse() {
					return r
				}
			}
			return r
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

// parts returns the concat pieces of t.
func parts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// align splits a and b (same width) on common boundaries.
func (c *Ctx) align(a, b *Term) ([]*Term, []*Term) {
	cut := map[int32]bool{}
	add := func(t *Term) {
		pos := t.w
		for _, p := range parts(t) {
			pos -= p.w
			cut[pos] = true
		}
	}
	// only boundaries where both are cut or one side is const are "free";
	// extracting is always sound, so use the union of cuts.
	add(a)
	add(b)
	var ra, rb []*Term
	hi := a.w
	for hi > 0 {
		lo := hi - 1
		for lo > 0 && !cut[lo] {
			lo--
		}
		ra = append(ra, c.Extract(a, hi-1, lo))
		rb = append(rb, c.Extract(b, hi-1, lo))
		hi = lo
	}
	return ra, rb
}

func (c *Ctx) Extract(t *Term, hi, lo int32) *Term {
	w := hi - lo + 1
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return mkConst(w, t.val>>uint(lo))
	case OExtract:
		return c.Extract(t.args[0], hi+int32(t.val), lo+int32(t.val))
	case OConcat:
		pos := t.w
		var out []*Term
		for _, p := range t.args {
			phi, plo := pos-1, pos-p.w
			pos = plo
			if plo > hi || phi < lo {
				continue
			}
			h, l := phi, plo
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			out = append(out, c.Extract(p, h-plo, l-plo))
		}
		return c.Concat(out...)
	case OSExt:
		in := t.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
	case OBAnd, OBOr, OBXor:
		if t.args[1].op == OConst {
			return c.Bin(t.op, c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(t.op, c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	case OIte:
		if constIte(t, 4) {
			return c.mapIte(t, func(x *Term) *Term { return c.Extract(x, hi, lo) })
		}
	}
	return c.mk(OExtract, w, uint64(lo), "", t)
}

func (c *Ctx) Concat(ts ...*Term) *Term {
	var flat []*Term
	for _, t := range ts {
		for _, p := range parts(t) {
			if n := len(flat); n > 0 {
				l := flat[n-1]
				if l.op == OConst && p.op == OConst && l.w+p.w <= 64 {
					flat[n-1] = mkConst(l.w+p.w, l.val<<uint(p.w)|p.val)
					continue
				}
				if l.op == OBXor && p.op == OBXor && l.args[1].op == OConst && p.args[1].op == OConst && l.w+p.w <= 64 {
					if m := c.Concat(l.args[0], p.args[0]); m.op != OConcat {
						flat[n-1] = c.Bin(OBXor, m, mkConst(l.w+p.w, l.args[1].val<<uint(p.w)|p.args[1].val))
						continue
					}
				}
				// adjacent extracts
				if l.op == OExtract {
					base, llo := l.args[0], int32(l.val)
					if p.op == OExtract && p.args[0] == base && int32(p.val)+p.w == llo {
						flat[n-1] = c.Extract(base, llo+l.w-1, int32(p.val))
						continue
					}
					if llo >= p.w && (base.op == OAdd || base.op == OSub || base.op == OMul) && c.Extract(base, llo-1, llo-p.w) == p {
						flat[n-1] = c.Extract(base, llo+l.w-1, llo-p.w)
						continue
					}
				}
			}
			flat = append(flat, p)
		}
	}
	if len(flat) == 1 {
		return flat[0]
	}
	var w int32
	for _, f := range flat {
		w += f.w
	}
	return c.mk(OConcat, w, 0, "", flat...)
}

func (c *Ctx) ZExt(t *Term, w int32) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.op == OConst {
		return mkConst(w, t.val)
	}
	if t.op == OIte && constIte(t, 4) {
		return c.mapIte(t, func(x *Term) *Term { return mkConst(w, x.val) })
	}
	d := w - t.w
	if d > 64 {
		return c.Concat(mkConst(64, 0), c.ZExt(t, w-64))
	}
	return c.Concat(mkConst(d, 0), t)
}

func (c *Ctx) SExt(t *Term, w int32) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.op == OConst {
		return mkConst(w, uint64(sext(t.val, t.w)))
	}
	if t.op == OConcat && t.args[0].op == OConst && t.args[0].val>>(uint(t.args[0].w)-1) == 0 {
		return c.ZExt(t, w)
	}
	if t.op == OIte && constIte(t, 4) {
		return c.mapIte(t, func(x *Term) *Term { return mkConst(w, uint64(sext(x.val, t.w))) })
	}
	return c.mk(OSExt, w, 0, "", t)
}

// constRuns counts the runs of equal bits of v.
func constRuns(w int32, v uint64) int {
	n := 1
	for i := uint(1); i < uint(w); i++ {
		if v>>i&1 != v>>(i-1)&1 {
			n++
		}
	}
	return n
}

func foldBin(op Op, w int32, a, b uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m, true
	}
	return 0, false
}

func foldCmp(op Op, w int32, a, b uint64) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("foldCmp")
}

// Bin builds an arithmetic/bitwise term; both args have the same width.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(engineErr(fmt.Sprintf("Bin %d width mismatch %d %d", op, a.w, b.w)))
	}
	if a.op == OConst && b.op == OConst && w <= 64 {
		v, ok := foldBin(op, w, a.val, b.val)
		if ok {
			return mkConst(w, v)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	bz := b.op == OConst && b.val == 0
	b1 := b.op == OConst && b.val == 1
	bm := b.op == OConst && b.val == mask(w) && w <= 64
	switch op {
	case OAdd:
		if bz {
			return a
		}
		if a.op == OAdd && a.args[1].op == OConst && b.op == OConst {
			return c.Bin(OAdd, a.args[0], mkConst(w, a.args[1].val+b.val))
		}
		if a.op == OSub && a.args[1] == b { // (x-b)+b
			return a.args[0]
		}
		if b.op == OSub && b.args[1] == a {
			return b.args[0]
		}
		if a.op == OConcat && b.op == OConst && w <= 64 {
			if cl := a.args[len(a.args)-1]; cl.op == OConst {
				lw := uint(cl.w)
				sum := cl.val + b.val&mask(cl.w)
				h := c.Bin(OAdd, c.Concat(a.args[:len(a.args)-1]...), mkConst(w-cl.w, b.val>>lw+sum>>lw))
				return c.Concat(h, mkConst(cl.w, sum))
			}
		}
		// k-x + k2
		if a.op == OSub && a.args[0].op == OConst && b.op == OConst {
			return c.Bin(OSub, mkConst(w, a.args[0].val+b.val), a.args[1])
		}
	case OSub:
		if bz {
			return a
		}
		if sameTerm(a, b) {
			return mkConst(w, 0)
		}
		if b.op == OConst {
			return c.Bin(OAdd, a, mkConst(w, -b.val))
		}
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OAdd && a.args[1] == b {
			return a.args[0]
		}
		if a.op == OConst && w == 64 && b.op != OConcat {
			switch a.val {
			case ^uint64(0):
				return c.Bin(OBXor, b, a)
			case 1<<63 - 1:
				return c.Concat(c.Extract(b, 63, 63), c.Bin(OBXor, c.Extract(b, 62, 0), mkConst(63, 1<<63-1)))
			}
		}
		if a.op == OConst && b.op == OSub && b.args[0].op == OConst { // k-(k2-x)
			return c.Bin(OAdd, b.args[1], mkConst(w, a.val-b.args[0].val))
		}
		if a.op == OConst && b.op == OAdd && b.args[1].op == OConst { // k-(x+k2)
			return c.Bin(OSub, mkConst(w, a.val-b.args[1].val), b.args[0])
		}
	case OMul:
		if bz {
			return b
		}
		if b1 {
			return a
		}
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OShl, a, mkConst(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OBAnd:
		if bz {
			return b
		}
		for _, p := range [2][2]*Term{{a, b}, {b, a}} {
			// x & -x
			if x, y := p[0], p[1]; y.op == OSub && y.args[0].op == OConst && y.args[0].val == 0 && sameTerm(x, y.args[1]) && x.op == OConcat && w <= 64 {
				if cl := x.args[len(x.args)-1]; cl.op == OConst && cl.val != 0 {
					return mkConst(w, cl.val&-cl.val)
				}
			}
		}
		if bm || sameTerm(a, b) {
			return a
		}
		if b.op == OConst {
			// runs of the mask
			type run struct {
				hi, lo int32
				one    bool
			}
			var runs []run
			hi := w - 1
			for hi >= 0 {
				bit := b.val >> uint(hi) & 1
				lo := hi
				for lo > 0 && b.val>>uint(lo-1)&1 == bit {
					lo--
				}
				runs = append(runs, run{hi, lo, bit == 1})
				hi = lo - 1
			}
			if len(runs) <= 4 {
				var ps []*Term
				for _, r := range runs {
					if r.one {
						ps = append(ps, c.Extract(a, r.hi, r.lo))
					} else {
						ps = append(ps, mkConst(r.hi-r.lo+1, 0))
					}
				}
				return c.Concat(ps...)
			}
		}
	case OBOr:
		if bz {
			return a
		}
		if bm {
			return b
		}
		if sameTerm(a, b) {
			return a
		}
		if b.op == OConst && w <= 64 && a.op != OConcat && constRuns(w, b.val) <= 4 {
			var ps []*Term
			for hi := w - 1; hi >= 0; {
				bit, lo := b.val>>uint(hi)&1, hi
				for lo > 0 && b.val>>uint(lo-1)&1 == bit {
					lo--
				}
				if bit == 1 {
					ps = append(ps, mkConst(hi-lo+1, mask(hi-lo+1)))
				} else {
					ps = append(ps, c.Extract(a, hi, lo))
				}
				hi = lo - 1
			}
			return c.Concat(ps...)
		}
		if a.op == OConcat || b.op == OConcat {
			pa, pb := c.align(a, b)
			ok := true
			out := make([]*Term, len(pa))
			for i := range pa {
				switch {
				case pa[i].op == OConst && pa[i].val == 0:
					out[i] = pb[i]
				case pb[i].op == OConst && pb[i].val == 0:
					out[i] = pa[i]
				case pa[i].op == OConst && pb[i].op == OConst:
					out[i] = mkConst(pa[i].w, pa[i].val|pb[i].val)
				default:
					ok = false
				}
				if !ok {
					break
				}
			}
			if ok {
				return c.Concat(out...)
			}
		}
	case OBXor:
		if bz {
			return a
		}
		if sameTerm(a, b) {
			return mkConst(w, 0)
		}
	case OShl:
		if bz {
			return a
		}
		if b.op == OConst {
			if b.val >= uint64(w) {
				return mkConst(w, 0)
			}
			k := int32(b.val)
			return c.Concat(c.Extract(a, w-1-k, 0), mkConst(k, 0))
		}
	case OLShr:
		if bz {
			return a
		}
		if b.op == OConst {
			if b.val >= uint64(w) {
				return mkConst(w, 0)
			}
			k := int32(b.val)
			return c.Concat(mkConst(k, 0), c.Extract(a, w-1, k))
		}
	case OAShr:
		if bz {
			return a
		}
		if a.op == OConcat && a.args[0].op == OConst && a.args[0].val>>(uint(a.args[0].w)-1) == 0 {
			return c.Bin(OLShr, a, b)
		}
	case OUDiv:
		if b1 {
			return a
		}
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLShr, a, mkConst(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.op == OConst && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBAnd, a, mkConst(w, b.val-1))
		}
	}
	if b.op == OConst && a.op == OIte && constIte(a, 6) {
		return c.mapIte(a, func(t *Term) *Term { return c.Bin(op, t, b) })
	}
	if a.op == OConst && b.op == OIte && constIte(b, 6) {
		return c.mapIte(b, func(t *Term) *Term { return c.Bin(op, a, t) })
	}
	return c.mk(op, w, 0, "", a, b)
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(engineErr(fmt.Sprintf("Cmp width mismatch %d %d", a.w, b.w)))
	}
	if a.op == OConst && b.op == OConst {
		return mkBool(foldCmp(op, w, a.val, b.val))
	}
	if sameTerm(a, b) {
		return mkBool(op == OUle || op == OSle)
	}
	if b.op == OConst && a.op == OIte && constIte(a, 6) {
		return c.mapIte(a, func(t *Term) *Term { return mkBool(foldCmp(op, w, t.val, b.val)) })
	}
	if a.op == OConst && b.op == OIte && constIte(b, 6) {
		return c.mapIte(b, func(t *Term) *Term { return mkBool(foldCmp(op, w, a.val, t.val)) })
	}
	if op == OUlt && b.op == OConst && b.val == 0 {
		return tFalse
	}
	if op == OUle && a.op == OConst && a.val == 0 {
		return tTrue
	}
	if op == OSlt || op == OSle {
		// zero extended operands: known non-negative
		nn := func(t *Term) bool {
			if t.op == OConst {
				return sext(t.val, w) >= 0
			}
			return t.op == OConcat && t.args[0].op == OConst && t.args[0].val>>(uint(t.args[0].w)-1) == 0
		}
		if nn(a) && nn(b) {
			if op == OSlt {
				return c.Cmp(OUlt, a, b)
			}
			return c.Cmp(OUle, a, b)
		}
		if nn(a) && b.op == OConst { // b negative
			return tFalse
		}
		if nn(b) && a.op == OConst {
			return tTrue
		}
	}
	if op == OUlt || op == OUle {
		// strip equal leading parts / constant zero heads
		if a.op == OConcat && (b.op == OConcat || b.op == OConst) || b.op == OConcat && a.op == OConst {
			pa, pb := c.align(a, b)
			if len(pa) > 1 && sameTerm(pa[0], pb[0]) {
				return c.Cmp(op, c.Concat(pa[1:]...), c.Concat(pb[1:]...))
			}
			if len(pa) > 1 && pa[0].op == OConst && pb[0].op == OConst {
				return mkBool(pa[0].val < pb[0].val)
			}
			if n := len(pa) - 1; n > 0 {
				x, y := pa[n], pb[n]
				if sameTerm(x, y) {
					return c.Cmp(op, c.Concat(pa[:n]...), c.Concat(pb[:n]...))
				}
				if x.op == OConst && y.op == OConst { // they differ
					if x.val < y.val {
						op = OUle
					} else {
						op = OUlt
					}
					return c.Cmp(op, c.Concat(pa[:n]...), c.Concat(pb[:n]...))
				}
			}
		}
	}
	if op == OUlt || op == OUle {
		// a side that ends in the least or the greatest bits only needs its head compared
		tail := func(t *Term, ones bool) int32 {
			if t.op != OConcat {
				return 0
			}
			l := t.args[len(t.args)-1]
			if l.op == OConst && (!ones && l.val == 0 || ones && l.val == mask(l.w)) {
				return l.w
			}
			return 0
		}
		n := tail(a, op == OUlt)
		if n == 0 {
			n = tail(b, op == OUle)
		}
		if n > 0 {
			return c.Cmp(op, c.Extract(a, w-1, n), c.Extract(b, w-1, n))
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}

// BytesEq / BytesLt on equal-length byte sequences.
func (c *Ctx) BytesEq(a, b []*Term) *Term {
	if len(a) > 1 {
		return c.Eq(c.Concat(a...), c.Concat(b...))
	}
	r := tTrue
	for i := range a {
		r = c.And(r, c.Eq(a[i], b[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (c *Ctx) BytesLt(a, b []*Term) *Term {
	for len(a) > 0 && sameTerm(a[0], b[0]) {
		a, b = a[1:], b[1:]
	}
	if len(a) == 0 {
		return tFalse
	}
	if a[0].op == OConst && b[0].op == OConst {
		return mkBool(a[0].val < b[0].val)
	}
	for n := len(a); n > 0 && sameTerm(a[n-1], b[n-1]); n = len(a) {
		a, b = a[:n-1], b[:n-1]
	}
	if len(a) == 1 {
		return c.Cmp(OUlt, a[0], b[0])
	}
	if len(a) <= 8 {
		return c.Cmp(OUlt, c.Concat(a...), c.Concat(b...))
	}
	// first 8 bytes, then rest
	h1, h2 := c.Concat(a[:8]...), c.Concat(b[:8]...)
	return c.Or(c.Cmp(OUlt, h1, h2), c.And(c.Eq(h1, h2), c.BytesLt(a[8:], b[8:])))
}

// BytesCompare returns the 64-bit result of bytes.Compare.
func (c *Ctx) BytesCompare(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var tail *Term
	switch {
	case len(a) < len(b):
		tail = mkConst(64, ^uint64(0))
	case len(a) > len(b):
		tail = mkConst(64, 1)
	default:
		tail = mkConst(64, 0)
	}
	eq := c.BytesEq(a[:n], b[:n])
	if eq.isTrue() {
		return tail
	}
	lt := c.BytesLt(a[:n], b[:n])
	return c.Ite(eq, tail, c.Ite(lt, mkConst(64, ^uint64(0)), mkConst(64, 1)))
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		if a.w == 64 {
			x, y := math.Float64frombits(a.val), math.Float64frombits(b.val)
			return mkConst(64, math.Float64bits(ffold(op, x, y)))
		}
		x, y := math.Float32frombits(uint32(a.val)), math.Float32frombits(uint32(b.val))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return mkConst(32, uint64(math.Float32bits(r)))
	}
	return c.mk(op, a.w, 0, "", a, b)
}

func ffold(op Op, x, y float64) float64 {
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("ffold")
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		var x, y float64
		if a.w == 64 {
			x, y = math.Float64frombits(a.val), math.Float64frombits(b.val)
		} else {
			x, y = float64(math.Float32frombits(uint32(a.val))), float64(math.Float32frombits(uint32(b.val)))
		}
		switch op {
		case OFLt:
			return mkBool(x < y)
		case OFLe:
			return mkBool(x <= y)
		case OFEq:
			return mkBool(x == y)
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}

// CTZ builds the count-trailing-zeros term of a 64-bit value (64 for 0).
func (c *Ctx) CTZ(t *Term) *Term {
	if t.op == OConst {
		return mkConst(64, uint64(bits.TrailingZeros64(t.val)))
	}
	r := mkConst(64, uint64(t.w))
	for i := t.w - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(c.Extract(t, i, i), mkConst(1, 1)), mkConst(64, uint64(i)), r)
	}
	return r
}

// ---- evaluation under a model ----

type Model struct {
	vars map[string]uint64
	ufs  map[string]uint64 // "name(arg,arg)" -> value
}

func newModel() *Model { return &Model{vars: map[string]uint64{}, ufs: map[string]uint64{}} }

func ufKey(name string, args []uint64) string {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a)
	}
	return sb.String()
}

type evaluator struct {
	m    *Model
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m.vars[t.name]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval1(t *Term) uint64 {
	a := t.args
	switch t.op {
	case ONot:
		return 1 - e.eval(a[0])
	case OAnd:
		if e.eval(a[0]) == 0 {
			return 0
		}
		return e.eval(a[1])
	case OOr:
		if e.eval(a[0]) == 1 {
			return 1
		}
		return e.eval(a[1])
	case OEq:
		if a[0].w > 64 {
			panic(engineErr("eval wide eq"))
		}
		return b2u(e.eval(a[0]) == e.eval(a[1]))
	case OIte:
		if e.eval(a[0]) == 1 {
			return e.eval(a[1])
		}
		return e.eval(a[2])
	case OUlt, OUle, OSlt, OSle:
		return b2u(foldCmp(t.op, a[0].w, e.eval(a[0]), e.eval(a[1])))
	case OConcat:
		if t.w > 64 {
			panic(engineErr("eval wide concat"))
		}
		var r uint64
		for _, p := range a {
			r = r<<uint(p.w) | e.eval(p)
		}
		return r
	case OExtract:
		return e.eval(a[0]) >> t.val & mask(t.w)
	case OSExt:
		return uint64(sext(e.eval(a[0]), a[0].w)) & mask(t.w)
	case OUF:
		vals := make([]uint64, len(a))
		for i := range a {
			vals[i] = e.eval(a[i])
		}
		return e.m.ufs[ufKey(t.name, vals)] & maskB(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		return math.Float64bits(ffold(t.op, math.Float64frombits(e.eval(a[0])), math.Float64frombits(e.eval(a[1]))))
	case OFLt:
		return b2u(math.Float64frombits(e.eval(a[0])) < math.Float64frombits(e.eval(a[1])))
	case OFLe:
		return b2u(math.Float64frombits(e.eval(a[0])) <= math.Float64frombits(e.eval(a[1])))
	case OFEq:
		return b2u(math.Float64frombits(e.eval(a[0])) == math.Float64frombits(e.eval(a[1])))
	case OFFromS:
		return math.Float64bits(float64(sext(e.eval(a[0]), a[0].w)))
	case OFFromU:
		return math.Float64bits(float64(e.eval(a[0])))
	case OFToS:
		return uint64(int64(math.Float64frombits(e.eval(a[0])))) & mask(t.w)
	}
	if v, ok := foldBin(t.op, t.w, e.eval(a[0]), e.eval(a[1])); ok {
		return v
	}
	panic(engineErr(fmt.Sprintf("eval op %d", t.op)))
}

func maskB(w int32) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

type engineErr string

func (e engineErr) Error() string { return string(e) }
