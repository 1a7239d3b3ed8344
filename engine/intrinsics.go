package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type passT struct{}

var passThrough value = passT{}

type intrinsic func(m *Machine, g *gor, caller *frame, fn *ssa.Function, args []value) value

var intrinsics map[string]intrinsic

type muState struct {
	writer  bool
	readers int
}

func (m *Machine) mu(p value) *muState {
	pv := m.ptr(p)
	if pv == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.env == nil {
		m.env = map[string]interface{}{}
	}
	k := fmt.Sprintf("mu%p", pv)
	if s, ok := m.env[k].(*muState); ok {
		return s
	}
	s := &muState{}
	m.env[k] = s
	return s
}

func (m *Machine) mkError(msg value) value {
	p := m.prog.ImportedPackage("errors")
	if p == nil {
		panic(unsupported("errors not loaded"))
	}
	t := p.Members["errorString"].(*ssa.Type).Type()
	v := new(value)
	*v = structure{msg}
	return iface{t: types.NewPointer(t), v: v}
}

func allConst(args []value) bool {
	for _, a := range args {
		if t, ok := a.(*Term); !ok || t.op != OConst {
			return false
		}
	}
	return true
}

func f64(v value) float64 { return math.Float64frombits(v.(*Term).val) }
func mkF(f float64) *Term { return mkConst(64, math.Float64bits(f)) }

func symArgs(vs ...value) []*Term {
	r := make([]*Term, len(vs))
	for i, v := range vs {
		r[i] = v.(*Term)
	}
	return r
}

func (m *Machine) bytesOf(v value) []*Term {
	switch v := v.(type) {
	case slice:
		return sliceBytes(v)
	case string, *symStr:
		return strBytes(v)
	}
	panic(unsupported(fmt.Sprintf("bytesOf %T", v)))
}

func concBytes(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if t.op != OConst {
			return nil, false
		}
		r[i] = byte(t.val)
	}
	return r, true
}

func (m *Machine) concString(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *symStr:
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(m.concretize(t))
		}
		return string(b)
	}
	panic(unsupported("concString"))
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	nop := func(m *Machine, g *gor, caller *frame, fn *ssa.Function, args []value) value {
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return zero(fn.Signature.Results())
	}
	reg(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Callers", "runtime.Caller", "runtime.FuncForPC",
		"github.com/pkg/errors.callers", "internal/race.Acquire", "internal/race.Release", "runtime.Stack", "internal/godebug.New",
		"(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge",
		"log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println", "fmt.Println", "fmt.Printf", "fmt.Print",
		"math/rand.Seed", "os.Setenv", "time.Sleep", "internal/bytealg.MakeNoZero$dummy")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { m.yieldNow(); return nil }, "runtime.Gosched")

	// ---- sync ----
	lock := func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		s := m.mu(a[0])
		m.schedPoint()
		m.block("Mutex.Lock", func() bool { return !s.writer && s.readers == 0 })
		s.writer = true
		return nil
	}
	unlock := func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		s := m.mu(a[0])
		if !s.writer {
			panic(targetPanic{v: iface{t: m.rtErrType, v: "sync: unlock of unlocked mutex"}, msg: "fatal error: sync: unlock of unlocked mutex", pos: m.where()})
		}
		s.writer = false
		m.schedPoint()
		return nil
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock", "(*"+symPkg+"RWMutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock", "(*"+symPkg+"RWMutex).Unlock")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		s := m.mu(a[0])
		m.schedPoint()
		if s.writer || s.readers > 0 {
			return tFalse
		}
		s.writer = true
		return tTrue
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*"+symPkg+"RWMutex).TryLock")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		s := m.mu(a[0])
		m.schedPoint()
		m.block("RWMutex.RLock", func() bool { return !s.writer })
		s.readers++
		return nil
	}, "(*sync.RWMutex).RLock", "(*"+symPkg+"RWMutex).RLock")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		s := m.mu(a[0])
		if s.readers == 0 {
			panic(targetPanic{v: iface{t: m.rtErrType, v: "sync: RUnlock of unlocked RWMutex"}, msg: "fatal error: sync: RUnlock of unlocked RWMutex", pos: m.where()})
		}
		s.readers--
		m.schedPoint()
		return nil
	}, "(*sync.RWMutex).RUnlock", "(*"+symPkg+"RWMutex).RUnlock")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		k := fmt.Sprintf("wg%p", m.ptr(a[0]))
		n, _ := m.env[k].(int)
		m.env[k] = n + m.concInt(a[1].(*Term))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		k := fmt.Sprintf("wg%p", m.ptr(a[0]))
		n, _ := m.env[k].(int)
		m.env[k] = n - 1
		m.schedPoint()
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		k := fmt.Sprintf("wg%p", m.ptr(a[0]))
		m.block("WaitGroup.Wait", func() bool { n, _ := m.env[k].(int); return n <= 0 })
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		// Pool.Get: always allocate
		p := m.ptr(a[0])
		st := (*p).(structure)
		nf := st[len(st)-1]
		if cl, ok := nf.(*closure); ok && cl != nil {
			return m.callFn(g, c, cl, nil)
		}
		return iface{}
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put")

	// ---- sync/atomic ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			m.schedPoint()
			return m.load(m.ptr(a[0]))
		}, "sync/atomic.Load"+ty)
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			m.schedPoint()
			m.store(m.ptr(a[0]), a[1])
			return nil
		}, "sync/atomic.Store"+ty)
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			m.schedPoint()
			p := m.ptr(a[0])
			n := m.ctx.Bin(OAdd, m.load(p).(*Term), a[1].(*Term))
			m.store(p, n)
			return n
		}, "sync/atomic.Add"+ty)
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			m.schedPoint()
			p := m.ptr(a[0])
			o := m.load(p)
			m.store(p, a[1])
			return o
		}, "sync/atomic.Swap"+ty)
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			m.schedPoint()
			p := m.ptr(a[0])
			if m.branch(m.eq(nil, m.load(p), a[1])) {
				m.store(p, a[2])
				return tTrue
			}
			return tFalse
		}, "sync/atomic.CompareAndSwap"+ty)
	}
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		return copyVal((*m.ptr(a[0])).(structure)[0])
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		st := (*m.ptr(a[0])).(structure)
		m.store(&st[0], a[1])
		return nil
	}, "(*sync/atomic.Value).Store")

	// ---- bytes / bytealg ----
	cmp := func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		return m.ctx.BytesCompare(m.bytesOf(a[0]), m.bytesOf(a[1]))
	}
	reg(cmp, "bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "internal/bytealg.compare", "cmp.Compare$string")
	eq := func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if len(x) != len(y) {
			return tFalse
		}
		return m.ctx.BytesEq(x, y)
	}
	reg(eq, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if len(x) < len(y) {
			return tFalse
		}
		return m.ctx.BytesEq(x[:len(y)], y)
	}, "bytes.HasPrefix", "strings.HasPrefix")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if len(x) < len(y) {
			return tFalse
		}
		return m.ctx.BytesEq(x[len(x)-len(y):], y)
	}, "bytes.HasSuffix", "strings.HasSuffix")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x := m.bytesOf(a[0])
		r := mkConst(64, ^uint64(0))
		for i := len(x) - 1; i >= 0; i-- {
			r = m.ctx.Ite(m.ctx.Eq(x[i], a[1].(*Term)), intv(i), r)
		}
		return r
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x := m.bytesOf(a[0])
		n := 0
		for _, t := range x {
			if m.branch(m.ctx.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return intv(n)
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		r := mkConst(64, ^uint64(0))
		for i := len(x) - len(y); i >= 0; i-- {
			r = m.ctx.Ite(m.ctx.BytesEq(x[i:i+len(y)], y), intv(i), r)
		}
		return r
	}, "internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		n := m.concLen(a[0].(*Term))
		if n < 0 {
			m.rtPanic("makeslice: len out of range")
		}
		s := make(slice, n)
		for i := range s {
			s[i] = small8[0]
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return a[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape")

	// ---- strings.Builder ----
	sbget := func(m *Machine, p value) (*value, slice) {
		st := (*m.ptr(p)).(structure)
		return &st[len(st)-1], st[len(st)-1].(slice)
	}
	sbadd := func(m *Machine, p value, b []*Term) {
		q, s := sbget(m, p)
		n := make(slice, 0, len(s)+len(b))
		n = append(n, s...)
		n = append(n, bytesSlice(b)...)
		m.rawStore(q, n)
	}
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		_, s := sbget(m, a[0])
		return mkStr(sliceBytes(s))
	}, "(*strings.Builder).String")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		sbadd(m, a[0], m.bytesOf(a[1]))
		return tuple{intv(len(m.bytesOf(a[1]))), iface{}}
	}, "(*strings.Builder).Write", "(*strings.Builder).WriteString")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		sbadd(m, a[0], []*Term{a[1].(*Term)})
		return iface{}
	}, "(*strings.Builder).WriteByte")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		b := m.runeBytes(a[1].(*Term))
		sbadd(m, a[0], b)
		return tuple{intv(len(b)), iface{}}
	}, "(*strings.Builder).WriteRune")
	reg(nop, "(*strings.Builder).Grow", "(*strings.Builder).copyCheck")

	// ---- math/bits ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return m.ctx.CTZ(a[0].(*Term)) },
		"math/bits.TrailingZeros64", "math/bits.TrailingZeros32", "math/bits.TrailingZeros", "internal/runtime/sys.TrailingZeros64")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		if t.op == OConst {
			return intv(bits.Len64(t.val))
		}
		r := intv(0)
		for i := int32(0); i < t.w; i++ {
			r = m.ctx.Ite(m.ctx.Eq(m.ctx.Extract(t, i, i), mkConst(1, 1)), intv(int(i)+1), r)
		}
		return r
	}, "math/bits.Len64", "math/bits.Len32", "math/bits.Len")

	// ---- math ----
	ident := func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return a[0] }
	reg(ident, "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits")
	m1 := map[string]func(float64) float64{"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan,
		"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Trunc": math.Trunc,
		"Log10": math.Log10, "Round": math.Round, "RoundToEven": math.RoundToEven, "Exp2": math.Exp2, "Log1p": math.Log1p, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh}
	for n, f := range m1 {
		n, f := n, f
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			if allConst(a) {
				return mkF(f(f64(a[0])))
			}
			return m.ctx.mk(OUF, 64, 0, "math."+n, a[0].(*Term))
		}, "math."+n)
	}
	m2 := map[string]func(a, b float64) float64{"Atan2": math.Atan2, "Pow": math.Pow, "Mod": math.Mod, "Remainder": math.Remainder, "Hypot": math.Hypot}
	for n, f := range m2 {
		n, f := n, f
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			if allConst(a) {
				return mkF(f(f64(a[0]), f64(a[1])))
			}
			return m.ctx.mk(OUF, 64, 0, "math."+n, a[0].(*Term), a[1].(*Term))
		}, "math."+n)
	}
	for _, n := range []string{"Max", "Min"} {
		n := n
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			if allConst(a) {
				if n == "Max" {
					return mkF(math.Max(f64(a[0]), f64(a[1])))
				}
				return mkF(math.Min(f64(a[0]), f64(a[1])))
			}
			x, y := a[0].(*Term), a[1].(*Term)
			k := m.ctx
			lt := k.FCmp(OFLt, x, y)
			nx, ny := k.Not(k.FCmp(OFEq, x, x)), k.Not(k.FCmp(OFEq, y, y))
			var r *Term
			if n == "Max" {
				r = k.Ite(lt, y, x)
			} else {
				r = k.Ite(lt, x, y)
			}
			// NaN operands yield NaN (signed zero order is not modelled)
			return k.Ite(nx, x, k.Ite(ny, y, r))
		}, "math."+n)
	}
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		if !allConst(a) {
			panic(unsupported("math.Modf on symbolic"))
		}
		x, y := math.Modf(f64(a[0]))
		return tuple{mkF(x), mkF(y)}
	}, "math.Modf")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		if !allConst(a) {
			panic(unsupported("math.FMA on symbolic"))
		}
		return mkF(math.FMA(f64(a[0]), f64(a[1]), f64(a[2])))
	}, "math.FMA")

	// ---- math/rand: any value ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		if n, ok := m.env["fixrand"].(uint64); ok {
			n += 0x9e3779b97f4a7c15
			m.env["fixrand"] = n
			n = (n ^ n>>30) * 0xbf58476d1ce4e5b9
			n = (n ^ n>>27) * 0x94d049bb133111eb
			return mkConst(64, (n^n>>31)>>1)
		}
		t := m.input("rand", 64)
		m.assume(m.ctx.Cmp(OSle, mkConst(64, 0), t))
		return t
	}, "math/rand.Int", "math/rand.Int63", "(*math/rand.Rand).Int", "(*math/rand.Rand).Int63")

	// ---- strconv ----
	// Text made of symbolic bytes is quoted without regard to escapes: it only turns up in errors.
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		if _, ok := a[0].(*symStr); !ok {
			return passThrough
		}
		return mkStr(append(append([]*Term{small8['"']}, strBytes(a[0])...), small8['"']))
	}, "strconv.Quote")
	decimal := func(get func(a []value) (x value, base value), signed bool, ret func(a []value, d []*Term) value) intrinsic {
		return func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
			x, base := get(a)
			t, b := x.(*Term), base.(*Term)
			if t.op == OConst || b.op != OConst || b.val != 10 {
				return passThrough
			}
			return ret(a, m.decimal(t, signed))
		}
	}
	first := func(a []value) (value, value) { return a[0], a[1] }
	second := func(a []value) (value, value) { return a[1], a[2] }
	str := func(a []value, d []*Term) value { return mkStr(d) }
	app := func(a []value, d []*Term) value { return append(append(slice{}, a[0].(slice)...), bytesSlice(d)...) }
	reg(decimal(first, false, str), "strconv.FormatUint")
	reg(decimal(first, true, str), "strconv.FormatInt")
	reg(decimal(second, false, app), "strconv.AppendUint")
	reg(decimal(second, true, app), "strconv.AppendInt")
	reg(decimal(func(a []value) (value, value) { return a[0], mkConst(64, 10) }, true, str), "strconv.Itoa")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		if !allConst(a) {
			return "?"
		}
		return strconv.FormatFloat(f64(a[0]), byte(a[1].(*Term).val), int(sext(a[2].(*Term).val, 64)), int(a[3].(*Term).val))
	}, "strconv.FormatFloat")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		if s, ok := a[0].(string); ok {
			f, err := strconv.ParseFloat(s, int(a[1].(*Term).val))
			if err != nil {
				return tuple{mkF(f), m.mkError(err.Error())}
			}
			return tuple{mkF(f), iface{}}
		}
		return passThrough
	}, "strconv.ParseFloat")

	// ---- encoding/json: for types that decode themselves ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		return m.callMethod(g, c, a[1].(iface), "UnmarshalJSON", []value{a[0]})
	}, "encoding/json.Unmarshal")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		d := m.load(m.ptr(a[0])).(structure)
		res := m.callSSA(g, c, m.lookupFunc("io", "ReadAll"), []value{d[0]}, nil).(tuple)
		if e := res[1].(iface); e.t != nil {
			return e
		}
		if len(res[0].(slice)) == 0 {
			return m.mkError("EOF")
		}
		return m.callMethod(g, c, a[1].(iface), "UnmarshalJSON", []value{res[0]})
	}, "(*encoding/json.Decoder).Decode")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		v := new(value)
		*v = structure{a[0]}
		return v
	}, "encoding/json.NewDecoder")

	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		p := m.prog.ImportedPackage("context")
		v := new(value)
		*v = structure{a[0], a[1], a[2]}
		return iface{t: types.NewPointer(p.Members["valueCtx"].(*ssa.Type).Type()), v: v}
	}, "context.WithValue")

	// ---- errors / fmt ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		format := m.concString(a[0])
		args := a[1].(slice)
		s := m.sprintf(g, c, format, args)
		if strings.Contains(format, "%w") {
			var wrapped iface
			n := 0
			for i := 0; i < len(format)-1; i++ {
				if format[i] == '%' {
					if format[i+1] == '%' {
						i++
						continue
					}
					j := i + 1
					for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
						j++
					}
					if j < len(format) && format[j] == 'w' && n < len(args) {
						wrapped = args[n].(iface)
					}
					n++
				}
			}
			if p := m.prog.ImportedPackage("fmt"); p != nil && wrapped.t != nil {
				t := p.Members["wrapError"].(*ssa.Type).Type()
				v := new(value)
				*v = structure{s, wrapped}
				return iface{t: types.NewPointer(t), v: v}
			}
		}
		return m.mkError(s)
	}, "fmt.Errorf")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		m.exactFmt = true
		defer func() { m.exactFmt = false }()
		return m.sprintf(g, c, m.concString(a[0]), a[1].(slice))
	}, "fmt.Sprintf")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		var out []*Term
		for _, x := range a[0].(slice) {
			out = append(out, strBytes(m.formatArg(g, c, 'v', "", x.(iface)))...)
		}
		return mkStr(out)
	}, "fmt.Sprint")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		s := m.sprintf(g, c, m.concString(a[1]), a[2].(slice))
		w := a[0].(iface)
		m.callMethod(g, c, w, "Write", []value{bytesSlice(strBytes(s))})
		return tuple{intv(strLen(s)), iface{}}
	}, "fmt.Fprintf")

	// ---- internal/reflectlite (sort.Slice) ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		x := a[0].(iface)
		s, ok := x.v.(slice)
		if !ok {
			panic(unsupported("sort.Slice on non slice"))
		}
		less := a[1]
		// stable insertion sort driven by the user's less function
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := m.callFn(g, c, less, []value{intv(j), intv(j - 1)}).(*Term)
				if !m.branch(r) {
					break
				}
				t := copyVal(s[j])
				m.store(&s[j], s[j-1])
				m.store(&s[j-1], t)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		// insertion sort through the interface
		x := a[0].(iface)
		n := m.concInt(m.callMethod(g, c, x, "Len", nil).(*Term))
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				r := m.callMethod(g, c, x, "Less", []value{intv(j), intv(j - 1)}).(*Term)
				if !m.branch(r) {
					break
				}
				m.callMethod(g, c, x, "Swap", []value{intv(j), intv(j - 1)})
			}
		}
		return nil
	}, "sort.Sort", "sort.Stable")

	// ---- os ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		return tuple{iface{}, iface{}}
	}, "os.Stat", "os.Lstat")
	reg(nop, "os.MkdirAll", "os.Mkdir", "os.RemoveAll", "os.Remove", "os.Getenv")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return tFalse }, "os.IsNotExist", "os.IsExist")

	// ---- encoding/binary ----
	reg(binaryRead, "encoding/binary.Read")
	reg(binaryWrite, "encoding/binary.Write")

	// ---- time ----
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
		z := zero(fn.Signature.Results().At(0).Type()).(structure)
		k, _ := m.env["now"].(int)
		m.env["now"] = k + 1
		z[1] = mkConst(64, 62135596800+1600000000+uint64(k))
		return z
	}, "time.Now")
	reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return mkConst(64, 1000) }, "time.Since")

	// ---- sym ----
	regSym(reg)
}

func (m *Machine) callMethod(g *gor, c *frame, x iface, name string, args []value) value {
	if x.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (method on nil interface)")
	}
	ms := types.NewMethodSet(x.t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			f := sel.Obj().(*types.Func)
			fn := m.lookupMethod(x.t, f)
			if fn == nil {
				break
			}
			return m.callSSA(g, c, fn, append([]value{x.v}, args...), nil)
		}
	}
	panic(unsupported("no method " + name + " on " + x.t.String()))
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (m *Machine) sprintf(g *gor, c *frame, format string, args slice) value {
	var out []*Term
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, small8[format[i]])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			break
		}
		flags, verb := format[i+1:j], format[j]
		i = j
		if verb == '%' {
			out = append(out, small8['%'])
			continue
		}
		if n >= len(args) {
			out = append(out, strBytes("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		out = append(out, strBytes(m.formatArg(g, c, verb, flags, args[n].(iface)))...)
		n++
	}
	return mkStr(out)
}

func (m *Machine) hexDigits(t *Term, digits int, upper bool) []*Term {
	k := m.ctx
	var out []*Term
	for i := digits - 1; i >= 0; i-- {
		nib := k.ZExt(k.Extract(t, int32(i*4+3), int32(i*4)), 8)
		base := uint64('a' - 10)
		if upper {
			base = 'A' - 10
		}
		out = append(out, k.Ite(k.Cmp(OUlt, nib, mkConst(8, 10)), k.Bin(OAdd, nib, mkConst(8, '0')), k.Bin(OAdd, nib, mkConst(8, base))))
	}
	return out
}

func (m *Machine) formatArg(g *gor, c *frame, verb byte, flags string, x iface) value {
	if x.t == nil {
		return "<nil>"
	}
	if (verb == 'v' || verb == 's' || verb == 'w' || verb == 'q') && !strings.Contains(flags, "#") {
		if hasMethod(x.t, "Error") {
			if p, ok := x.v.(*value); ok && p == nil {
				return "<nil>"
			}
			return m.callMethod(g, c, x, "Error", nil)
		}
		if hasMethod(x.t, "String") {
			if p, ok := x.v.(*value); ok && p == nil {
				return "<nil>"
			}
			return m.callMethod(g, c, x, "String", nil)
		}
	}
	switch v := x.v.(type) {
	case string:
		if verb == 'q' {
			return strconv.Quote(v)
		}
		if verb == 'x' {
			return fmt.Sprintf("%x", v)
		}
		return v
	case *symStr:
		return v
	case *Term:
		if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.op != OConst && m.exactFmt && flags == "" && (verb == 'd' || verb == 'v') {
			if isSigned(x.t) {
				return mkStr(m.decimal(m.ctx.SExt(v, 64), true))
			}
			return mkStr(m.decimal(m.ctx.ZExt(v, 64), false))
		}
		if isBool(x.t) {
			if v.op == OConst {
				return fmt.Sprint(v.val != 0)
			}
			return "?"
		}
		if isFloat(x.t) {
			if v.op == OConst {
				f := math.Float64frombits(v.val)
				if v.w == 32 {
					f = float64(math.Float32frombits(uint32(v.val)))
				}
				return fmt.Sprintf("%"+flags+string(verb), f)
			}
			return "?"
		}
		if v.op == OConst {
			if isSigned(x.t) {
				return fmt.Sprintf("%"+flags+string(verb), sext(v.val, v.w))
			}
			return fmt.Sprintf("%"+flags+string(verb), v.val)
		}
		if (verb == 'x' || verb == 'X') && strings.HasPrefix(flags, "0") {
			if n, err := strconv.Atoi(flags); err == nil && n*4 >= int(v.w) {
				d := m.hexDigits(v, int(v.w)/4, verb == 'X')
				for len(d) < n {
					d = append([]*Term{small8['0']}, d...)
				}
				return mkStr(d)
			}
		}
		return "?"
	case slice:
		if st, ok := x.t.Underlying().(*types.Slice); ok {
			if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if cb, ok := concBytes(sliceBytes(v)); ok {
					return fmt.Sprintf("%"+flags+string(verb), cb)
				}
				if verb == 's' {
					return mkStr(sliceBytes(v))
				}
			}
		}
		return "[...]"
	}
	return "{...}"
}

func fixedKind(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32, types.Int64, types.Uint64, types.Float32, types.Float64:
		return true
	}
	return false
}

func orderIsLittle(o iface) bool {
	return o.t != nil && strings.Contains(strings.ToLower(o.t.String()), "littleendian")
}

// fixedSize is the encoded size of a value of fixed size, -1 if t has none.
func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if fixedKind(t) {
			return int(widthOf(t)) / 8
		}
	case *types.Array:
		if n := fixedSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := fixedSize(u.Field(i).Type())
			if k < 0 || u.Field(i).Name() == "_" {
				return -1
			}
			n += k
		}
		return n
	}
	return -1
}

// decodeFixed builds the value of type t that the bytes encode.
func (m *Machine) decodeFixed(t types.Type, b []*Term, little bool) value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		n := fixedSize(u.Elem())
		r := make(array, u.Len())
		for i := range r {
			r[i] = m.decodeFixed(u.Elem(), b[i*n:(i+1)*n], little)
		}
		return r
	case *types.Struct:
		r := make(structure, u.NumFields())
		for i := range r {
			n := fixedSize(u.Field(i).Type())
			r[i] = m.decodeFixed(u.Field(i).Type(), b[:n], little)
			b = b[n:]
		}
		return r
	}
	b = append([]*Term(nil), b...)
	if little {
		revTerms(b)
	}
	return m.ctx.Concat(b...)
}

func (m *Machine) encodeFixed(t types.Type, v value, little bool) []*Term {
	var out []*Term
	switch u := t.Underlying().(type) {
	case *types.Array:
		for _, e := range v.(array) {
			out = append(out, m.encodeFixed(u.Elem(), e, little)...)
		}
		return out
	case *types.Struct:
		for i, e := range v.(structure) {
			out = append(out, m.encodeFixed(u.Field(i).Type(), e, little)...)
		}
		return out
	}
	x := v.(*Term)
	for i := x.w/8 - 1; i >= 0; i-- {
		out = append(out, m.ctx.Extract(x, i*8+7, i*8))
	}
	if little {
		revTerms(out)
	}
	return out
}

func revTerms(b []*Term) {
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
}

// binaryRead models encoding/binary.Read for values of fixed size.
func binaryRead(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
	r, o, d := a[0].(iface), a[1].(iface), a[2].(iface)
	var et types.Type
	cnt, size := 1, -1
	sl, isSlice := types.Type(nil), false
	switch u := d.t.Underlying().(type) {
	case *types.Pointer:
		et = u.Elem()
		size = fixedSize(et)
	case *types.Slice:
		sl, isSlice = u.Elem(), true
		et, cnt = sl, len(d.v.(slice))
		size = fixedSize(et)
	}
	if size < 0 {
		panic(unsupported("binary.Read into " + fmt.Sprint(d.t)))
	}
	buf := make(slice, size*cnt)
	for i := range buf {
		buf[i] = small8[0]
	}
	res := m.callSSA(g, c, m.lookupFunc("io", "ReadFull"), []value{r, buf}, nil).(tuple)
	if e := res[1].(iface); e.t != nil {
		return e
	}
	b, little := sliceBytes(buf), orderIsLittle(o)
	if isSlice {
		s := d.v.(slice)
		for i := 0; i < cnt; i++ {
			m.store(&s[i], m.decodeFixed(et, b[i*size:(i+1)*size], little))
		}
	} else {
		m.store(m.ptr(d.v), m.decodeFixed(et, b, little))
	}
	return iface{}
}

func binaryWrite(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value {
	w, o, d := a[0].(iface), a[1].(iface), a[2].(iface)
	t, v := d.t, d.v
	var b []*Term
	if st, ok := t.Underlying().(*types.Slice); ok && fixedSize(st.Elem()) >= 0 {
		for _, e := range v.(slice) {
			b = append(b, m.encodeFixed(st.Elem(), e, orderIsLittle(o))...)
		}
	} else {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			v = m.load(m.ptr(d.v))
		}
		if fixedSize(t) < 0 {
			panic(unsupported("binary.Write of " + fmt.Sprint(d.t)))
		}
		b = m.encodeFixed(t, v, orderIsLittle(o))
	}
	r := m.callMethod(g, c, w, "Write", []value{bytesSlice(b)}).(tuple)
	return r[1]
}

const symPkg = "oureaverif/sym."

func regSym(reg func(intrinsic, ...string)) {
	s := func(name string, f func(m *Machine, g *gor, c *frame, a []value) value) {
		reg(func(m *Machine, g *gor, c *frame, fn *ssa.Function, a []value) value { return f(m, g, c, a) }, symPkg+name)
	}
	s("Byte", func(m *Machine, g *gor, c *frame, a []value) value { return m.input(m.concString(a[0]), 8) })
	s("Uint64", func(m *Machine, g *gor, c *frame, a []value) value { return m.input(m.concString(a[0]), 64) })
	s("Int64", func(m *Machine, g *gor, c *frame, a []value) value { return m.input(m.concString(a[0]), 64) })
	s("Float64", func(m *Machine, g *gor, c *frame, a []value) value { return m.input(m.concString(a[0]), 64) })
	s("Uint32", func(m *Machine, g *gor, c *frame, a []value) value { return m.input(m.concString(a[0]), 32) })
	s("Bool", func(m *Machine, g *gor, c *frame, a []value) value { return m.input(m.concString(a[0]), 0) })
	s("Int", func(m *Machine, g *gor, c *frame, a []value) value {
		t := m.input(m.concString(a[0]), 64)
		m.assume(m.ctx.Cmp(OSle, a[1].(*Term), t))
		m.assume(m.ctx.Cmp(OSle, t, a[2].(*Term)))
		return t
	})
	s("Choice", func(m *Machine, g *gor, c *frame, a []value) value {
		return intv(m.inputChoice(m.concString(a[0]), m.concInt(a[1].(*Term))))
	})
	s("Bytes", func(m *Machine, g *gor, c *frame, a []value) value {
		n := m.concInt(a[1].(*Term))
		name := m.concString(a[0])
		r := make(slice, n)
		for i := range r {
			r[i] = m.input(name, 8)
		}
		return r
	})
	s("Conc", func(m *Machine, g *gor, c *frame, a []value) value {
		return mkConst(64, m.concretize(a[0].(*Term)))
	})
	s("Assume", func(m *Machine, g *gor, c *frame, a []value) value { m.assume(a[0].(*Term)); return nil })
	s("Assert", func(m *Machine, g *gor, c *frame, a []value) value {
		m.assertProp(a[0].(*Term), m.concString(a[1]))
		return nil
	})
	s("Stop", func(m *Machine, g *gor, c *frame, a []value) value {
		panic(unsupported("stopped by the harness: " + m.concString(a[0])))
	})
	s("Reach", func(m *Machine, g *gor, c *frame, a []value) value {
		m.reached = append(m.reached, m.concString(a[0]))
		return nil
	})
	s("ObsInt", func(m *Machine, g *gor, c *frame, a []value) value {
		m.obs = append(m.obs, obsRec{name: m.concString(a[0]), v: []*Term{a[1].(*Term)}, kind: "int"})
		return nil
	})
	s("ObsBool", func(m *Machine, g *gor, c *frame, a []value) value {
		m.obs = append(m.obs, obsRec{name: m.concString(a[0]), v: []*Term{a[1].(*Term)}, kind: "int"})
		return nil
	})
	s("ObsBytes", func(m *Machine, g *gor, c *frame, a []value) value {
		m.obs = append(m.obs, obsRec{name: m.concString(a[0]), v: m.bytesOf(a[1]), kind: "bytes"})
		return nil
	})
	s("And", func(m *Machine, g *gor, c *frame, a []value) value {
		r := tTrue
		for _, x := range a[0].(slice) {
			r = m.ctx.And(r, x.(*Term))
		}
		return r
	})
	s("Or", func(m *Machine, g *gor, c *frame, a []value) value {
		r := tFalse
		for _, x := range a[0].(slice) {
			r = m.ctx.Or(r, x.(*Term))
		}
		return r
	})
	s("Implies", func(m *Machine, g *gor, c *frame, a []value) value {
		return m.ctx.Or(m.ctx.Not(a[0].(*Term)), a[1].(*Term))
	})
	s("Ite", func(m *Machine, g *gor, c *frame, a []value) value {
		return m.ctx.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	s("Eq", func(m *Machine, g *gor, c *frame, a []value) value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if len(x) != len(y) {
			return tFalse
		}
		return m.ctx.BytesEq(x, y)
	})
	s("Less", func(m *Machine, g *gor, c *frame, a []value) value {
		k := m.ctx.BytesCompare(m.bytesOf(a[0]), m.bytesOf(a[1]))
		return m.ctx.Cmp(OSlt, k, mkConst(64, 0))
	})
	s("HasPrefix", func(m *Machine, g *gor, c *frame, a []value) value {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if len(x) < len(y) {
			return tFalse
		}
		return m.ctx.BytesEq(x[:len(y)], y)
	})
	uf := func(w int32) func(m *Machine, g *gor, c *frame, a []value) value {
		return func(m *Machine, g *gor, c *frame, a []value) value {
			var ts []*Term
			for _, x := range a[1].(slice) {
				ts = append(ts, x.(*Term))
			}
			name := m.concString(a[0])
			t := m.ctx.mk(OUF, w, 0, name, ts...)
			m.ufInputs(name, ts, t)
			return t
		}
	}
	s("UFBool", uf(0))
	s("UFU64", uf(64))
	s("UFF64", uf(64))
	s("Tier", func(m *Machine, g *gor, c *frame, a []value) value { return intv(m.cfg.Tier) })
	s("Goroutines", func(m *Machine, g *gor, c *frame, a []value) value {
		// the others go on until all are blocked
		for i := 0; len(m.runnable()) > 1; i++ {
			if i > 10000 {
				panic(pathAbort{"goroutines that do not end"})
			}
			m.yieldNow()
		}
		n := 0
		for _, x := range m.gors {
			if x != m.cur && !x.done {
				n++
			}
		}
		return intv(n)
	})
	s("Native", func(m *Machine, g *gor, c *frame, a []value) value { return tFalse })
	s("TempDir", func(m *Machine, g *gor, c *frame, a []value) value { return "/symbolic-scratch/" + m.fresh("dir") })
	s("Go", func(m *Machine, g *gor, c *frame, a []value) value { m.spawn(a[0], nil); return nil })
	s("Explore", func(m *Machine, g *gor, c *frame, a []value) value { m.explore = true; return nil })
	s("Yield", func(m *Machine, g *gor, c *frame, a []value) value { m.schedPoint(); return nil })
	s("FixRand", func(m *Machine, g *gor, c *frame, a []value) value { m.env["fixrand"] = uint64(1); return nil })
	s("Wait", func(m *Machine, g *gor, c *frame, a []value) value {
		me := m.cur
		m.block("Wait", func() bool {
			for _, x := range m.gors {
				if x != me && !x.done {
					return false
				}
			}
			return true
		})
		return nil
	})
}

// ufInputs records a UF application so that the replay can answer it.
func (m *Machine) ufInputs(name string, args []*Term, t *Term) {
	m.inputs = append(m.inputs, inputRec{name: "uf:" + name})
	r := &m.inputs[len(m.inputs)-1]
	r.t = t
	r.args = args
}

// decimal returns the digits of t: with as many as it has, they are the ones that add up to it.
func (m *Machine) decimal(t *Term, signed bool) []*Term {
	c := m.ctx
	if signed && m.branch(c.Cmp(OSlt, t, mkConst(64, 0))) {
		return append([]*Term{mkConst(8, '-')}, m.decimal(c.Bin(OSub, mkConst(64, 0), t), false)...)
	}
	n, p := 1, uint64(10)
	for ; n < 20 && !m.branch(c.Cmp(OUlt, t, mkConst(64, p))); n++ {
		p *= 10
	}
	var ds, out []*Term
	for i := 0; i < n; i++ {
		d := m.input("digit of a decimal", 4)
		d.lazy = true
		ds = append(ds, d)
		out = append(out, c.Concat(mkConst(4, 3), d))
	}
	m.pending = append(m.pending, func() {
		sum, ok := mkConst(64, 0), tTrue
		for i, d := range ds {
			ok = c.And(ok, c.Cmp(OUlt, d, mkConst(4, 10)))
			sum = c.Bin(OAdd, c.Bin(OMul, sum, mkConst(64, 10)), c.ZExt(d, 64))
			if i == 0 && n == 20 {
				ok = c.And(ok, c.Eq(d, mkConst(4, 1)))
			}
		}
		if m.pos >= len(m.prefix) {
			// the digits of the value t has in the current model
			md := newModel()
			for k, v := range m.model.vars {
				md.vars[k] = v
			}
			for k, v := range m.model.ufs {
				md.ufs[k] = v
			}
			if text := strconv.FormatUint(m.ev.eval(t), 10); len(text) == n {
				for i, d := range ds {
					md.vars[d.name] = uint64(text[i] - '0')
				}
			}
			m.setModel(md)
		}
		m.assume(c.And(ok, c.Eq(sum, t)))
	})
	return out
}
