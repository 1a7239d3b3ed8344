package main

import (
	"fmt"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Symbolic instants. sym.Time makes a time.Time that is known by its nanoseconds since 1970 only; its
// fields are opaque, and the methods below answer from the nanoseconds. Anything else that looks at the
// fields makes the path unsupported.

func (m *Machine) opaqueTimes() map[*Term]*Term {
	t, ok := m.env["times"].(map[*Term]*Term)
	if !ok {
		t = map[*Term]*Term{}
		m.env["times"] = t
	}
	return t
}

func (m *Machine) newTime(fn *ssa.Function, n *Term) value {
	ts := m.opaqueTimes()
	x := m.ctx.Var(fmt.Sprintf("opaque.time.%d", len(ts)), 64)
	ts[x] = n
	z := zero(fn.Signature.Results().At(0).Type()).(structure)
	z[1] = x
	return z
}

// nanos returns the nanoseconds since 1970 of a time; known is false for one that is outside the
// range of an int64.
func (m *Machine) nanos(v value) (n *Term, opaque, known bool) {
	st := v.(structure)
	wall, ext := st[0].(*Term), st[1].(*Term)
	if n, ok := m.opaqueTimes()[ext]; ok && wall.isConst() {
		return n, true, true
	}
	if !wall.isConst() || !ext.isConst() {
		panic(unsupported("time.Time of unknown fields"))
	}
	if wall.val>>63 != 0 {
		return nil, false, false
	}
	sec, ns := int64(ext.val)-62135596800, int64(wall.val&(1<<30-1))
	if sec > math.MaxInt64/1000000000 || sec < -math.MaxInt64/1000000000 || sec == math.MaxInt64/1000000000 && ns > 854775807 {
		return nil, false, false
	}
	return mkConst(64, uint64(sec*1000000000+ns)), false, true
}

func init() {
	T := "(time.Time)."
	one := func(name string, f func(m *Machine, n *Term, fn *ssa.Function, a []value) value) {
		intrinsics[T+name] = func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			n, op, _ := m.nanos(a[0])
			if !op {
				return passThrough
			}
			return f(m, n, fn, a)
		}
	}
	two := func(name string, f func(m *Machine, n, o *Term) value) {
		intrinsics[T+name] = func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			n, op1, k1 := m.nanos(a[0])
			o, op2, k2 := m.nanos(a[1])
			if !op1 && !op2 {
				return passThrough
			}
			if !k1 || !k2 {
				panic(unsupported("comparison with a time out of range"))
			}
			return f(m, n, o)
		}
	}
	one("UnixNano", func(m *Machine, n *Term, fn *ssa.Function, a []value) value { return n })
	floor := func(d uint64) func(m *Machine, n *Term, fn *ssa.Function, a []value) value {
		return func(m *Machine, n *Term, fn *ssa.Function, a []value) value {
			c := m.ctx
			k := mkConst(64, d)
			q := c.Bin(OSDiv, n, k)
			neg := c.And(c.Cmp(OSlt, n, mkConst(64, 0)), c.Not(c.Eq(c.Bin(OMul, q, k), n)))
			return c.Ite(neg, c.Bin(OSub, q, mkConst(64, 1)), q)
		}
	}
	one("Unix", floor(1000000000))
	one("UnixMilli", floor(1000000))
	one("UnixMicro", floor(1000))
	one("Nanosecond", func(m *Machine, n *Term, fn *ssa.Function, a []value) value {
		q := floor(1000000000)(m, n, fn, a).(*Term)
		return m.ctx.Bin(OSub, n, m.ctx.Bin(OMul, q, mkConst(64, 1000000000)))
	})
	one("IsZero", func(m *Machine, n *Term, fn *ssa.Function, a []value) value { return mkBool(false) })
	for _, s := range []string{"UTC", "Local", "In"} {
		one(s, func(m *Machine, n *Term, fn *ssa.Function, a []value) value { return a[0] })
	}
	one("Add", func(m *Machine, n *Term, fn *ssa.Function, a []value) value {
		return m.newTime(fn, m.ctx.Bin(OAdd, n, a[1].(*Term)))
	})
	two("Before", func(m *Machine, n, o *Term) value { return m.ctx.Cmp(OSlt, n, o) })
	two("After", func(m *Machine, n, o *Term) value { return m.ctx.Cmp(OSlt, o, n) })
	two("Equal", func(m *Machine, n, o *Term) value { return m.ctx.Eq(n, o) })
	two("Compare", func(m *Machine, n, o *Term) value {
		return m.ctx.Ite(m.ctx.Cmp(OSlt, n, o), mkConst(64, ^uint64(0)), m.ctx.Ite(m.ctx.Eq(n, o), mkConst(64, 0), mkConst(64, 1)))
	})
	two("Sub", func(m *Machine, n, o *Term) value { return m.ctx.Bin(OSub, n, o) })
	for _, s := range []string{"Truncate", "Round", "AddDate", "Date", "Clock", "Year", "Month", "Day", "Hour", "Minute", "Second", "Format", "String", "YearDay", "Weekday", "ISOWeek", "MarshalBinary", "MarshalJSON", "MarshalText", "GobEncode", "AppendFormat"} {
		s := s
		one(s, func(m *Machine, n *Term, fn *ssa.Function, a []value) value {
			panic(unsupported("time.Time." + s + " of a symbolic instant"))
		})
	}
	intrinsics["time.Unix"] = func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		sec, ns := a[0].(*Term), a[1].(*Term)
		if sec.isConst() && sec.val == 0 && !ns.isConst() {
			return m.newTime(fn, ns)
		}
		return passThrough
	}
	intrinsics["time.runtimeNano"] = func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return mkConst(64, 1) }
	intrinsics[symPkg+"Time"] = func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		return m.newTime(fn, m.input(m.concString(a[0]), 64))
	}
}
