package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v   value // iface
	msg string
	pos string
}

type pathAbort struct{ reason string }

type deferred struct {
	fn    value
	args  []value
	instr *ssa.Defer
	tail  *deferred
}

type frame struct {
	m         *Machine
	g         *gor
	caller    *frame
	fn        *ssa.Function
	info      *funcInfo
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    value
	panicking bool
	panicVal  interface{}
	instr     ssa.Instruction
	depth     int
}

type funcInfo struct {
	idx map[ssa.Value]int
	n   int
}

func (m *Machine) infoOf(fn *ssa.Function) *funcInfo {
	if fi, ok := m.infos[fn]; ok {
		return fi
	}
	fi := &funcInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.infos[fn] = fi
	return fi
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.m.constVal(v)
	case *ssa.Global:
		return fr.m.globalAddr(v)
	case *ssa.Function:
		return fr.m.funcVal(v)
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(engineErr("no slot for " + v.Name() + " in " + fr.fn.String()))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.info.idx[v]] = x }

func (m *Machine) funcVal(f *ssa.Function) *closure {
	if c, ok := m.funcs[f]; ok {
		return c
	}
	c := &closure{fn: f}
	m.funcs[f] = c
	return c
}

func (m *Machine) constVal(c *ssa.Const) value {
	if v, ok := m.consts[c]; ok {
		return copyVal(v)
	}
	v := constValue(c)
	m.consts[c] = v
	return copyVal(v)
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w := widthOf(b)
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return mkConst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return mkConst(w, u)
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return mkConst(32, uint64(math.Float32bits(float32(f))))
		}
		return mkConst(64, math.Float64bits(f))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	panic(unsupported("const " + c.String()))
}

// ---- memory ----

type undoRec struct {
	p   *value
	old value
	fn  func()
}

func (m *Machine) logWrite(p *value) {
	if m.inPath {
		m.undo = append(m.undo, undoRec{p: p, old: *p})
	}
}

func (m *Machine) rawStore(p *value, v value) {
	m.logWrite(p)
	*p = v
}

func (m *Machine) store(p *value, v value) {
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch x := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(x) {
			for i := range x {
				m.store(&old[i], x[i])
			}
			return
		}
		m.rawStore(p, copyVal(v))
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(x) {
			for i := range x {
				m.store(&old[i], x[i])
			}
			return
		}
		m.rawStore(p, copyVal(v))
	default:
		m.rawStore(p, v)
	}
}

func (m *Machine) load(p *value) value {
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*p)
}

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{v: iface{t: m.rtErrType, v: "runtime error: " + msg}, msg: "runtime error: " + msg, pos: m.where()})
}

func (m *Machine) where() string {
	g := m.cur
	if g == nil || g.top == nil {
		return ""
	}
	var out []string
	for fr := g.top; fr != nil && len(out) < 6; fr = fr.caller {
		if fr.instr != nil {
			p := m.prog.Fset.Position(fr.instr.Pos())
			out = append(out, fmt.Sprintf("%s(%s:%d)", fr.fn.Name(), shortFile(p.Filename), p.Line))
		}
	}
	return strings.Join(out, " < ")
}

func shortFile(f string) string {
	parts := strings.Split(f, "/")
	if len(parts) > 3 {
		parts = parts[len(parts)-3:]
	}
	return strings.Join(parts, "/")
}

// ---- calls ----

func (m *Machine) callFn(g *gor, caller *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *closure:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		if f.nat != nil {
			return f.nat(m, g, args)
		}
		return m.callSSA(g, caller, f.fn, args, f.env)
	case *ssa.Builtin:
		panic(engineErr("builtin via callFn"))
	}
	panic(engineErr(fmt.Sprintf("callFn %T", fv)))
}

func (m *Machine) callSSA(g *gor, caller *frame, fn *ssa.Function, args []value, env []value) value {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if in, ok := intrinsics[name]; ok {
		r := in(m, g, caller, fn, args)
		if r != passThrough {
			return r
		}
	}
	if strings.Contains(name, "$") == false && fn.Blocks == nil {
		panic(unsupported("no body: " + name))
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + name))
	}
	// skip cross-package init chaining
	if fn.Name() == "init" && fn.Synthetic != "" && caller != nil && caller.fn.Name() == "init" && caller.fn.Pkg != fn.Pkg && fn.Pkg != nil {
		return nil
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > m.maxDepth {
		panic(pathAbort{"call depth limit in " + name})
	}
	if m.inPath {
		m.noteFn(fn)
	}
	fi := m.infoOf(fn)
	fr := &frame{m: m, g: g, caller: caller, fn: fn, info: fi, env: make([]value, fi.n), depth: depth}
	for i, p := range fn.Params {
		fr.env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.idx[p]] = env[i]
	}
	fr.block = fn.Blocks[0]
	g.top = fr
	for fr.block != nil {
		m.runFrame(fr)
	}
	g.top = caller
	return fr.result
}

func (m *Machine) runFrame(fr *frame) {
	normal := false
	defer func() {
		if normal {
			return
		}
		p := recover()
		if _, ok := p.(targetPanic); !ok {
			panic(p) // engine-level unwinding
		}
		fr.g.top = fr
		fr.panicking = true
		fr.panicVal = p
		fr.runDefers()
		// recovered
		if fr.fn.Recover == nil {
			fr.block = nil
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			return
		}
		fr.prev = fr.block
		fr.block = fr.fn.Recover
	}()
	for {
		m.runBlock(fr)
		if fr.block == nil {
			normal = true
			return
		}
	}
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			if _, is := p.(targetPanic); !is {
				panic(p)
			}
			fr.g.top = fr
			fr.panicking = true
			fr.panicVal = p
		}
	}()
	if b, is := d.fn.(*ssa.Builtin); is {
		fr.callBuiltin(b, d.args, nil)
	} else {
		fr.m.callFn(fr.g, fr, d.fn, d.args)
	}
	ok = true
}

func (m *Machine) runBlock(fr *frame) {
	b := fr.block
	// phis first (parallel)
	i := 0
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[0].(*ssa.Phi); ok {
			var pi int
			for k, p := range b.Preds {
				if p == fr.prev {
					pi = k
					break
				}
			}
			var vals []value
			for i < len(b.Instrs) {
				phi, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, fr.get(phi.Edges[pi]))
				i++
			}
			for k := 0; k < i; k++ {
				fr.set(b.Instrs[k].(*ssa.Phi), vals[k])
			}
		}
	}
	for ; i < len(b.Instrs); i++ {
		m.steps++
		if m.steps > m.maxSteps {
			panic(pathAbort{stepLimit})
		}
		in := b.Instrs[i]
		fr.instr = in
		switch in := in.(type) {
		case *ssa.Jump:
			fr.prev, fr.block = b, b.Succs[0]
			return
		case *ssa.If:
			c := fr.get(in.Cond).(*Term)
			k := 1
			if m.branch(c) {
				k = 0
			}
			fr.prev, fr.block = b, b.Succs[k]
			return
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
			case 1:
				fr.result = fr.get(in.Results[0])
			default:
				t := make(tuple, len(in.Results))
				for k, r := range in.Results {
					t[k] = fr.get(r)
				}
				fr.result = t
			}
			fr.block = nil
			return
		case *ssa.Panic:
			v := fr.get(in.X).(iface)
			panic(targetPanic{v: v, msg: m.panicMsg(v), pos: m.where()})
		default:
			m.exec(fr, in)
		}
	}
	panic(engineErr("block fell through"))
}

func (m *Machine) panicMsg(v iface) string {
	switch x := v.v.(type) {
	case string:
		return x
	case *value:
		if x != nil {
			if s, ok := (*x).(structure); ok && len(s) > 0 {
				if str, ok := s[0].(string); ok {
					return str
				}
			}
		}
	}
	if v.t != nil {
		return "panic value of type " + v.t.String()
	}
	return "panic(nil)"
}

func (m *Machine) exec(fr *frame, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, p)
	case *ssa.UnOp:
		fr.set(in, m.unop(fr, in))
	case *ssa.BinOp:
		fr.set(in, m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y)))
	case *ssa.Call:
		fr.set(in, m.doCall(fr, &in.Call, in))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, m.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, m.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice to array pointer: length")
		}
		if s == nil {
			fr.set(in, (*value)(nil))
			break
		}
		p := new(value)
		*p = array(s[:n:n])
		fr.set(in, p)
	case *ssa.MakeInterface:
		fr.set(in, iface{t: in.X.Type(), v: fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, m.doSlice(fr, in))
	case *ssa.Store:
		p := m.ptr(fr.get(in.Addr))
		m.store(p, fr.get(in.Val))
	case *ssa.MakeClosure:
		var env []value
		for _, b := range in.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(in, &closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeMap:
		fr.set(in, &mapVal{idx: map[string]int{}, kt: in.Type().Underlying().(*types.Map).Key()})
	case *ssa.MakeChan:
		n := m.concInt(fr.get(in.Size).(*Term))
		fr.set(in, &chanVal{cap: n, elem: in.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeSlice:
		n := m.concLen(fr.get(in.Len).(*Term))
		c := m.concLen(fr.get(in.Cap).(*Term))
		if n < 0 || n > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			m.rtPanic("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(slice, c)
		z := zero(et)
		for i := range s {
			s[i] = copyVal(z)
		}
		fr.set(in, s[:n])
	case *ssa.FieldAddr:
		p := m.ptr(fr.get(in.X))
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*p).(structure)
		if !ok {
			panic(unsupported(fmt.Sprintf("FieldAddr on %T at %s", *p, m.where())))
		}
		fr.set(in, &st[in.Field])
	case *ssa.Field:
		fr.set(in, copyVal(fr.get(in.X).(structure)[in.Field]))
	case *ssa.IndexAddr:
		x := fr.get(in.X)
		idx := fr.get(in.Index).(*Term)
		var elems []value
		switch x := x.(type) {
		case slice:
			elems = x
		case *value:
			if x == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			elems = (*x).(array)
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr %T", x)))
		}
		i := m.index(idx, in.Index.Type(), len(elems))
		fr.set(in, &elems[i])
	case *ssa.Index:
		x := fr.get(in.X)
		idx := fr.get(in.Index).(*Term)
		switch x := x.(type) {
		case array:
			if t, ok := m.iteIndex(idx, in.Index.Type(), x); ok {
				fr.set(in, t)
				break
			}
			i := m.index(idx, in.Index.Type(), len(x))
			fr.set(in, copyVal(x[i]))
		case string, *symStr:
			b := strBytes(x)
			if t, ok := m.iteIndex(idx, in.Index.Type(), bytesSlice(b)); ok {
				fr.set(in, t)
				break
			}
			i := m.index(idx, in.Index.Type(), len(b))
			fr.set(in, b[i])
		default:
			panic(unsupported(fmt.Sprintf("Index %T", x)))
		}
	case *ssa.Lookup:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *mapVal:
			v, ok := m.mapGet(x, fr.get(in.Index))
			if !ok {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			} else {
				v = copyVal(v)
			}
			if in.CommaOk {
				fr.set(in, tuple{v, mkBool(ok)})
			} else {
				fr.set(in, v)
			}
		case string, *symStr:
			b := strBytes(x)
			idx := fr.get(in.Index).(*Term)
			if t, ok := m.iteIndex(idx, in.Index.Type(), bytesSlice(b)); ok {
				fr.set(in, t)
				break
			}
			i := m.index(idx, in.Index.Type(), len(b))
			fr.set(in, b[i])
		default:
			panic(unsupported(fmt.Sprintf("Lookup %T", x)))
		}
	case *ssa.MapUpdate:
		mv := fr.get(in.Map).(*mapVal)
		if mv == nil {
			panic(targetPanic{v: iface{t: m.rtErrType, v: "assignment to entry in nil map"}, msg: "assignment to entry in nil map", pos: m.where()})
		}
		m.mapSet(mv, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, m.typeAssert(fr, in))
	case *ssa.Range:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *mapVal:
			it := &mapIter{m: x}
			if x != nil {
				for i := range x.keys {
					if x.keys[i] != nil {
						it.left = append(it.left, i)
					}
				}
			}
			fr.set(in, it)
		case string, *symStr:
			fr.set(in, &strIter{b: strBytes(x)})
		default:
			panic(unsupported(fmt.Sprintf("Range %T", x)))
		}
	case *ssa.Next:
		fr.set(in, m.next(fr, in))
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &in.Call)
		fr.defers = &deferred{fn: fn, args: args, instr: in, tail: fr.defers}
	case *ssa.Go:
		fn, args := m.prepareCall(fr, &in.Call)
		m.spawn(fn, args)
	case *ssa.Send:
		m.chanSend(fr.get(in.Chan).(*chanVal), fr.get(in.X))
	case *ssa.Select:
		fr.set(in, m.doSelect(fr, in))
	default:
		panic(unsupported(fmt.Sprintf("instr %T", instr)))
	}
}

func (m *Machine) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		return p
	case unsafePtr:
		if p.v == nil {
			return nil
		}
		return m.ptr(p.v)
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v)))
}

// index resolves an index to a concrete in-range integer, forking if needed.
func (m *Machine) index(idx *Term, t types.Type, n int) int {
	i := m.widenIdx(idx, t)
	if i.op == OConst {
		if i.val >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), n))
		}
		return int(i.val)
	}
	if !m.branch(m.ctx.Cmp(OUlt, i, mkConst(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(m.concretize(i))
}

func (m *Machine) widenIdx(idx *Term, t types.Type) *Term {
	if isSigned(t) {
		return m.ctx.SExt(idx, 64)
	}
	return m.ctx.ZExt(idx, 64)
}

// iteIndex reads a small all-integer table at a symbolic index without forking.
func (m *Machine) iteIndex(idx *Term, t types.Type, elems []value) (value, bool) {
	if idx.op == OConst || len(elems) == 0 || len(elems) > 256 {
		return nil, false
	}
	for _, e := range elems {
		if _, ok := e.(*Term); !ok {
			return nil, false
		}
	}
	i := m.widenIdx(idx, t)
	if !m.branch(m.ctx.Cmp(OUlt, i, mkConst(64, uint64(len(elems))))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", len(elems)))
	}
	r := elems[len(elems)-1].(*Term)
	for k := len(elems) - 2; k >= 0; k-- {
		r = m.ctx.Ite(m.ctx.Eq(i, mkConst(64, uint64(k))), elems[k].(*Term), r)
	}
	return r, true
}

func (m *Machine) unop(fr *frame, in *ssa.UnOp) value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		p := m.ptr(x)
		// symbolic table reads: *(&arr[i]) are handled by IndexAddr concretisation
		v := m.load(p)
		return v
	case token.NOT:
		return m.ctx.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(in.X.Type()) {
			if t.w == 64 {
				return m.ctx.Bin(OBXor, t, mkConst(64, 1<<63))
			}
			return m.ctx.Bin(OBXor, t, mkConst(32, 1<<31))
		}
		return m.ctx.Bin(OSub, mkConst(t.w, 0), t)
	case token.XOR:
		t := x.(*Term)
		return m.ctx.Bin(OBXor, t, mkConst(t.w, mask(t.w)))
	case token.ARROW:
		v, ok := m.chanRecv(x.(*chanVal))
		if in.CommaOk {
			return tuple{v, mkBool(ok)}
		}
		return v
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y value) value {
	c := m.ctx
	switch op {
	case token.EQL:
		return m.eq(tx, x, y)
	case token.NEQ:
		return c.Not(m.eq(tx, x, y))
	}
	if isString(tx) {
		bx, by := x, y
		switch op {
		case token.ADD:
			if sx, ok := bx.(string); ok {
				if sy, ok := by.(string); ok {
					return sx + sy
				}
			}
			return mkStr(append(append([]*Term(nil), strBytes(bx)...), strBytes(by)...))
		}
		cmp := c.BytesCompare(strBytes(bx), strBytes(by))
		z := mkConst(64, 0)
		switch op {
		case token.LSS:
			return c.Cmp(OSlt, cmp, z)
		case token.LEQ:
			return c.Cmp(OSle, cmp, z)
		case token.GTR:
			return c.Cmp(OSlt, z, cmp)
		case token.GEQ:
			return c.Cmp(OSle, z, cmp)
		}
	}
	a, ok := x.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("binop %s %T", op, x)))
	}
	b := y.(*Term)
	if isFloat(tx) {
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, a, b)
		case token.SUB:
			return c.FBin(OFSub, a, b)
		case token.MUL:
			return c.FBin(OFMul, a, b)
		case token.QUO:
			return c.FBin(OFDiv, a, b)
		case token.LSS:
			return c.FCmp(OFLt, a, b)
		case token.LEQ:
			return c.FCmp(OFLe, a, b)
		case token.GTR:
			return c.FCmp(OFLt, b, a)
		case token.GEQ:
			return c.FCmp(OFLe, b, a)
		}
		panic(unsupported("float op"))
	}
	if isBool(tx) {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	signed := isSigned(tx)
	switch op {
	case token.ADD:
		return c.Bin(OAdd, a, b)
	case token.SUB:
		return c.Bin(OSub, a, b)
	case token.MUL:
		return c.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, mkConst(b.w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case signed && op == token.QUO:
			o = OSDiv
		case signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return c.Bin(o, a, b)
	case token.AND:
		return c.Bin(OBAnd, a, b)
	case token.OR:
		return c.Bin(OBOr, a, b)
	case token.XOR:
		return c.Bin(OBXor, a, b)
	case token.AND_NOT:
		return c.Bin(OBAnd, a, c.Bin(OBXor, b, mkConst(b.w, mask(b.w))))
	case token.SHL, token.SHR:
		if isSigned(ty) {
			if m.branch(c.Cmp(OSlt, b, mkConst(b.w, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring shift count to a's width, saturating
		var k *Term
		if b.w > a.w {
			big := c.Cmp(OUle, mkConst(b.w, uint64(a.w)), b)
			k = c.Ite(big, mkConst(a.w, uint64(a.w)), c.Extract(b, a.w-1, 0))
		} else {
			k = c.ZExt(b, a.w)
		}
		if op == token.SHL {
			return c.Bin(OShl, a, k)
		}
		if signed {
			return c.Bin(OAShr, a, k)
		}
		return c.Bin(OLShr, a, k)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return c.Cmp(lt, a, b)
		case token.LEQ:
			return c.Cmp(le, a, b)
		case token.GTR:
			return c.Cmp(lt, b, a)
		default:
			return c.Cmp(le, b, a)
		}
	}
	panic(unsupported("binop " + op.String()))
}

func (m *Machine) eq(t types.Type, x, y value) *Term {
	c := m.ctx
	switch x := x.(type) {
	case *Term:
		if t != nil && isFloat(t) {
			return c.FCmp(OFEq, x, y.(*Term))
		}
		return c.Eq(x, y.(*Term))
	case string:
		if s, ok := y.(string); ok {
			return mkBool(x == s)
		}
		return m.strEq(x, y)
	case *symStr:
		return m.strEq(x, y)
	case *value:
		switch yy := y.(type) {
		case *value:
			return mkBool(x == yy)
		case nil:
			return mkBool(x == nil)
		}
	case unsafePtr:
		yy, _ := y.(unsafePtr)
		return mkBool(x.v == yy.v)
	case *mapVal:
		return mkBool(x == y.(*mapVal))
	case *chanVal:
		return mkBool(x == y.(*chanVal))
	case slice:
		return mkBool((x == nil) == (y.(slice) == nil) && x == nil)
	case *closure:
		return mkBool(x == y.(*closure))
	case iface:
		yy := y.(iface)
		if x.t == nil || yy.t == nil {
			return mkBool(x.t == nil && yy.t == nil)
		}
		if !types.Identical(x.t, yy.t) {
			return tFalse
		}
		return m.eq(x.t, x.v, yy.v)
	case structure:
		yy := y.(structure)
		r := tTrue
		st := t.Underlying().(*types.Struct)
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, m.eq(st.Field(i).Type(), x[i], yy[i]))
		}
		return r
	case array:
		yy := y.(array)
		r := tTrue
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			r = c.And(r, m.eq(et, x[i], yy[i]))
		}
		return r
	case nil:
		return mkBool(y == nil)
	}
	panic(unsupported(fmt.Sprintf("eq %T %T", x, y)))
}

func (m *Machine) strEq(x, y value) *Term {
	a, b := strBytes(x), strBytes(y)
	if len(a) != len(b) {
		return tFalse
	}
	return m.ctx.BytesEq(a, b)
}

func (m *Machine) doSlice(fr *frame, in *ssa.Slice) value {
	x := fr.get(in.X)
	bound := func(v ssa.Value, def int) *Term {
		if v == nil {
			return intv(def)
		}
		return m.widenIdx(fr.get(v).(*Term), v.Type())
	}
	var n, c int
	var elems []value
	isStr := false
	var sb []*Term
	var conc string
	isConc := false
	switch x := x.(type) {
	case slice:
		n, c, elems = len(x), cap(x), x
	case *value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(array)
		n, c, elems = len(a), len(a), a
	case string:
		n, c, isStr, conc, isConc = len(x), len(x), true, x, true
	case *symStr:
		n, c, isStr, sb = len(x.b), len(x.b), true, x.b
	default:
		panic(unsupported(fmt.Sprintf("Slice %T", x)))
	}
	lo := bound(in.Low, 0)
	hi := bound(in.High, n)
	max := bound(in.Max, c)
	chk := func(a *Term, lim *Term) int {
		if !m.branch(m.ctx.Cmp(OUle, a, lim)) {
			m.rtPanic("slice bounds out of range")
		}
		if a.op == OConst {
			return int(a.val)
		}
		return int(m.concretize(a))
	}
	mx := chk(max, intv(c))
	h := chk(hi, intv(mx))
	l := chk(lo, intv(h))
	if isStr {
		if isConc {
			return conc[l:h]
		}
		return mkStr(sb[l:h])
	}
	if s, ok := x.(slice); ok && s == nil {
		return slice(nil)
	}
	return slice(elems[l:h:mx])
}

func (m *Machine) convert(fr *frame, dst, src types.Type, x value) value {
	c := m.ctx
	ud, us := dst.Underlying(), src.Underlying()
	switch d := ud.(type) {
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			switch p := x.(type) {
			case *value:
				return unsafePtr{p}
			case unsafePtr:
				return p
			case *Term:
				if p.isConst() && p.val == 0 {
					return unsafePtr{}
				}
			}
			panic(unsupported("convert to unsafe.Pointer"))
		}
		if d.Info()&types.IsString != 0 {
			switch x := x.(type) {
			case string, *symStr:
				return x
			case slice:
				if us.(*types.Slice).Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					return mkStr(sliceBytes(x))
				}
				var out []*Term
				for _, r := range x {
					out = append(out, m.runeBytes(r.(*Term))...)
				}
				return mkStr(out)
			case *Term:
				r := c.ZExt(x, 64)
				if isSigned(src) {
					r = c.SExt(x, 64)
				}
				return mkStr(m.runeBytes(r))
			}
		}
		if t, ok := x.(*Term); ok {
			if d.Info()&types.IsInteger != 0 {
				if isFloat(src) {
					w := widthOf(d)
					if t.op == OConst {
						f := math.Float64frombits(t.val)
						if t.w == 32 {
							f = float64(math.Float32frombits(uint32(t.val)))
						}
						if isSigned(d) {
							return mkConst(w, uint64(int64(f)))
						}
						return mkConst(w, uint64(f))
					}
					if t.w != 64 {
						panic(unsupported("float32 to int"))
					}
					return c.mk(OFToS, w, 0, "", t)
				}
				if isInteger(src) {
					w := widthOf(d)
					if w <= t.w {
						return c.Extract(t, w-1, 0)
					}
					if isSigned(src) {
						return c.SExt(t, w)
					}
					return c.ZExt(t, w)
				}
			}
			if d.Info()&types.IsFloat != 0 {
				if isInteger(src) {
					if t.op == OConst {
						var f float64
						if isSigned(src) {
							f = float64(sext(t.val, t.w))
						} else {
							f = float64(t.val)
						}
						if d.Kind() == types.Float32 {
							return mkConst(32, uint64(math.Float32bits(float32(f))))
						}
						return mkConst(64, math.Float64bits(f))
					}
					if d.Kind() == types.Float32 {
						panic(unsupported("int to float32"))
					}
					if isSigned(src) {
						return c.mk(OFFromS, 64, 0, "", t)
					}
					return c.mk(OFFromU, 64, 0, "", t)
				}
				if isFloat(src) {
					if widthOf(d) == t.w {
						return t
					}
					if t.op == OConst {
						if t.w == 64 {
							return mkConst(32, uint64(math.Float32bits(float32(math.Float64frombits(t.val)))))
						}
						return mkConst(64, math.Float64bits(float64(math.Float32frombits(uint32(t.val)))))
					}
					panic(unsupported("float width conversion"))
				}
			}
		}
		if p, ok := x.(unsafePtr); ok && d.Kind() == types.Uintptr {
			if p.v == nil {
				return mkConst(64, 0)
			}
			if pv, ok := p.v.(*value); ok {
				return mkConst(64, uint64(uintptr(unsafe.Pointer(pv))))
			}
		}
	case *types.Slice:
		if isString(src) {
			b := strBytes(x)
			if d.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return bytesSlice(b)
			}
			var out slice
			it := &strIter{b: b}
			for it.i < len(it.b) {
				r, n := m.decodeRune(it.b[it.i:])
				it.i += n
				out = append(out, r)
			}
			if out == nil {
				out = slice{}
			}
			return out
		}
		return x
	case *types.Pointer:
		if p, ok := x.(unsafePtr); ok {
			if p.v == nil {
				return (*value)(nil)
			}
			return p.v
		}
		return x
	default:
		return x
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s (%T)", src, dst, x)))
}

// runeBytes encodes a rune as UTF-8.
func (m *Machine) runeBytes(r *Term) []*Term {
	if r.op == OConst {
		s := string(rune(int32(sext(r.val, r.w))))
		if r.w == 64 && (int64(r.val) > 0x10ffff || int64(r.val) < 0) {
			s = "\uFFFD"
		}
		return strBytes(s)
	}
	c := m.ctx
	if m.branch(c.Cmp(OUlt, r, mkConst(r.w, 0x80))) {
		return []*Term{c.Extract(r, 7, 0)}
	}
	cont := func(lo int32) *Term { return c.Concat(mkConst(2, 2), c.Extract(r, lo+5, lo)) }
	lt := func(v uint64) bool { return m.branch(c.Cmp(OUlt, r, mkConst(r.w, v))) }
	if lt(0x800) {
		return []*Term{c.Concat(mkConst(3, 6), c.Extract(r, 10, 6)), cont(0)}
	}
	surrogate := c.And(c.Not(c.Cmp(OUlt, r, mkConst(r.w, 0xd800))), c.Cmp(OUlt, r, mkConst(r.w, 0xe000)))
	switch {
	case m.branch(surrogate):
	case lt(0x10000):
		return []*Term{c.Concat(mkConst(4, 14), c.Extract(r, 15, 12)), cont(6), cont(0)}
	case lt(0x110000):
		return []*Term{c.Concat(mkConst(5, 30), c.Extract(r, 20, 18)), cont(12), cont(6), cont(0)}
	}
	return strBytes("\uFFFD")
}

// decodeRune decodes the first rune of b (non-empty).
func (m *Machine) decodeRune(b []*Term) (*Term, int) {
	c := m.ctx
	if b[0].op == OConst && b[0].val < 0x80 || b[0].op != OConst && m.branch(c.Cmp(OUlt, b[0], mkConst(8, 0x80))) {
		return c.ZExt(b[0], 32), 1
	}
	in := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Not(c.Cmp(OUlt, t, mkConst(8, lo))), c.Not(c.Cmp(OUlt, mkConst(8, hi), t)))
	}
	low := func(t *Term, n int32) *Term { return c.Extract(t, n-1, 0) }
	b0 := b[0]
	if len(b) >= 2 && m.branch(c.And(in(b0, 0xc2, 0xdf), in(b[1], 0x80, 0xbf))) {
		return c.ZExt(c.Concat(low(b0, 5), low(b[1], 6)), 32), 2
	}
	if len(b) >= 3 && m.branch(c.And(in(b[2], 0x80, 0xbf), c.Or(
		c.And(c.Eq(b0, mkConst(8, 0xe0)), in(b[1], 0xa0, 0xbf)),
		c.Or(c.And(c.Eq(b0, mkConst(8, 0xed)), in(b[1], 0x80, 0x9f)),
			c.And(c.Or(in(b0, 0xe1, 0xec), in(b0, 0xee, 0xef)), in(b[1], 0x80, 0xbf)))))) {
		return c.ZExt(c.Concat(low(b0, 4), low(b[1], 6), low(b[2], 6)), 32), 3
	}
	if len(b) >= 4 && m.branch(c.And(c.And(in(b[2], 0x80, 0xbf), in(b[3], 0x80, 0xbf)), c.Or(
		c.And(c.Eq(b0, mkConst(8, 0xf0)), in(b[1], 0x90, 0xbf)),
		c.Or(c.And(c.Eq(b0, mkConst(8, 0xf4)), in(b[1], 0x80, 0x8f)),
			c.And(in(b0, 0xf1, 0xf3), in(b[1], 0x80, 0xbf)))))) {
		return c.ZExt(c.Concat(low(b0, 3), low(b[1], 6), low(b[2], 6), low(b[3], 6)), 32), 4
	}
	return mkConst(32, 0xfffd), 1
}

func (m *Machine) next(fr *frame, in *ssa.Next) value {
	it := fr.get(in.Iter)
	switch it := it.(type) {
	case *mapIter:
		for len(it.left) > 0 {
			k := 0
			if m.inPath && m.cfg.MapOrder && len(it.left) > 1 && len(it.left) <= 4 {
				k = m.choose("maporder", len(it.left))
			}
			i := it.left[k]
			rest := append([]int(nil), it.left[:k]...)
			it.left = append(rest, it.left[k+1:]...)
			if it.m.keys[i] == nil {
				continue
			}
			return tuple{tTrue, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
		}
		tt := in.Type().(*types.Tuple)
		z := func(i int) value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return zero(t)
		}
		return tuple{tFalse, z(1), z(2)}
	case *strIter:
		if it.i >= len(it.b) {
			return tuple{tFalse, intv(0), mkConst(32, 0)}
		}
		i := it.i
		r, n := m.decodeRune(it.b[i:])
		it.i += n
		return tuple{tTrue, intv(i), r}
	}
	panic(unsupported(fmt.Sprintf("Next %T", it)))
}

func (m *Machine) implements(dyn types.Type, it *types.Interface) bool {
	return types.Implements(dyn, it)
}

func (m *Machine) typeAssert(fr *frame, in *ssa.TypeAssert) value {
	x := fr.get(in.X).(iface)
	ok := false
	var v value
	if it, is := in.AssertedType.Underlying().(*types.Interface); is {
		if x.t != nil && m.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = x.v
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return tuple{copyVal(v), mkBool(ok)}
	}
	if !ok {
		dyn := "nil"
		if x.t != nil {
			dyn = x.t.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, in.AssertedType))
	}
	return copyVal(v)
}

// ---- maps ----

func (m *Machine) mapFind(mv *mapVal, k value) int {
	if mv == nil {
		return -1
	}
	key, conc := concKey(k)
	if conc {
		if i, ok := mv.idx[key]; ok {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
	}
	for i := range mv.keys {
		if mv.keys[i] == nil {
			continue
		}
		if conc {
			if _, c2 := concKey(mv.keys[i]); c2 {
				continue
			}
		}
		if m.branch(m.eq(mv.kt, mv.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapGet(mv *mapVal, k value) (value, bool) {
	if i := m.mapFind(mv, k); i >= 0 {
		return mv.vals[i], true
	}
	return nil, false
}

func (m *Machine) mapUndo(mv *mapVal) {
	if !m.inPath {
		return
	}
	// snapshot (maps written inside paths are small)
	keys := append([]value(nil), mv.keys...)
	vals := append([]value(nil), mv.vals...)
	idx := make(map[string]int, len(mv.idx))
	for k, v := range mv.idx {
		idx[k] = v
	}
	n, ns := mv.n, mv.nsym
	m.undo = append(m.undo, undoRec{fn: func() {
		mv.keys, mv.vals, mv.idx, mv.n, mv.nsym = keys, vals, idx, n, ns
	}})
}

func (m *Machine) mapSet(mv *mapVal, k, v value) {
	i := m.mapFind(mv, k)
	m.mapUndo(mv)
	if i >= 0 {
		mv.vals[i] = copyVal(v)
		return
	}
	key, conc := concKey(k)
	if conc {
		mv.idx[key] = len(mv.keys)
	} else {
		mv.nsym++
	}
	mv.keys = append(mv.keys, copyVal(k))
	mv.vals = append(mv.vals, copyVal(v))
	mv.n++
}

func (m *Machine) mapDelete(mv *mapVal, k value) {
	i := m.mapFind(mv, k)
	if i < 0 {
		return
	}
	m.mapUndo(mv)
	if key, conc := concKey(mv.keys[i]); conc {
		delete(mv.idx, key)
	} else {
		mv.nsym--
	}
	mv.keys[i] = nil
	mv.vals[i] = nil
	mv.n--
}

// ---- calls ----

func (m *Machine) prepareCall(fr *frame, call *ssa.CallCommon) (value, []value) {
	var args []value
	if call.IsInvoke() {
		recv := fr.get(call.Value).(iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (method on nil interface)")
		}
		fn := m.lookupMethod(recv.t, call.Method)
		if fn == nil {
			panic(unsupported("method " + call.Method.Name() + " of " + recv.t.String()))
		}
		args = append(args, recv.v)
		for _, a := range call.Args {
			args = append(args, fr.get(a))
		}
		return m.funcVal(fn), args
	}
	fv := fr.get(call.Value)
	for _, a := range call.Args {
		args = append(args, fr.get(a))
	}
	return fv, args
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	key := methKey{t, meth}
	if f, ok := m.meths[key]; ok {
		return f
	}
	m.progMu.Lock()
	f := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.progMu.Unlock()
	m.meths[key] = f
	return f
}

type methKey struct {
	t    types.Type
	meth *types.Func
}

func (m *Machine) doCall(fr *frame, call *ssa.CallCommon, in *ssa.Call) value {
	fn, args := m.prepareCall(fr, call)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.callBuiltin(b, args, in)
	}
	r := m.callFn(fr.g, fr, fn, args)
	fr.g.top = fr
	return r
}

func (fr *frame) callBuiltin(b *ssa.Builtin, args []value, in *ssa.Call) value {
	m := fr.m
	c := m.ctx
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(slice)
		var t []value
		switch x := args[1].(type) {
		case slice:
			t = x
		case string, *symStr:
			t = bytesSlice(strBytes(x))
		}
		if len(t) == 0 {
			return s
		}
		n := len(s)
		if n+len(t) <= cap(s) {
			r := s[:n+len(t)]
			tmp := append([]value(nil), t...)
			for i := range tmp {
				m.rawStore(&r[n+i], copyVal(tmp[i]))
			}
			return r
		}
		// grow like the runtime does (doubling)
		nc := cap(s) * 2
		if nc < n+len(t) {
			nc = n + len(t)
		}
		if nc < 4 && cap(s) > 0 {
			nc = 4
		}
		r := make(slice, n+len(t), nc)
		for i := range s {
			r[i] = copyVal(s[i])
		}
		for i := range t {
			r[n+i] = copyVal(t[i])
		}
		if nc > n+len(t) {
			full := r[:nc]
			st := fr.elemType(in)
			for i := n + len(t); i < nc; i++ {
				if st != nil {
					full[i] = zero(st)
				}
			}
		}
		return r
	case "copy":
		dst := args[0].(slice)
		var src []value
		switch x := args[1].(type) {
		case slice:
			src = x
		case string, *symStr:
			src = bytesSlice(strBytes(x))
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := append([]value(nil), src[:n]...)
		for i := 0; i < n; i++ {
			m.rawStore(&dst[i], copyVal(tmp[i]))
		}
		return intv(n)
	case "len":
		switch x := args[0].(type) {
		case slice:
			return intv(len(x))
		case string, *symStr:
			return intv(strLen(x))
		case *mapVal:
			if x == nil {
				return intv(0)
			}
			return intv(x.n)
		case array:
			return intv(len(x))
		case *value:
			return intv(len((*x).(array)))
		case *chanVal:
			if x == nil {
				return intv(0)
			}
			return intv(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return intv(cap(x))
		case array:
			return intv(len(x))
		case *value:
			return intv(len((*x).(array)))
		case *chanVal:
			return intv(x.cap)
		}
	case "delete":
		m.mapDelete(args[0].(*mapVal), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapVal:
			if x != nil {
				m.mapUndo(x)
				x.keys, x.vals, x.idx, x.n, x.nsym = nil, nil, map[string]int{}, 0, 0
			}
		case slice:
			et := fr.instr.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				m.store(&x[i], zero(et))
			}
		}
		return nil
	case "close":
		ch := args[0].(*chanVal)
		if ch == nil {
			m.rtPanicPlain("close of nil channel")
		}
		if ch.closed {
			m.rtPanicPlain("close of closed channel")
		}
		ch.closed = true
		m.schedPoint()
		return nil
	case "panic":
		v := args[0].(iface)
		panic(targetPanic{v: v, msg: m.panicMsg(v), pos: m.where()})
	case "recover":
		// called from a deferred function: caller frame is fr; its caller is panicking
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := in.Call.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			lt := m.binop(op, t, t, a, r).(*Term)
			if x, ok := r.(*Term); ok && !isFloat(t) {
				r = c.Ite(lt, a.(*Term), x)
			} else if m.branch(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := args[0].(slice)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &s[:1][0]
	case "StringData":
		b := bytesSlice(strBytes(args[0]))
		if len(b) == 0 {
			return (*value)(nil)
		}
		return &b[0]
	case "String", "Slice":
		n := m.concLen(args[1].(*Term))
		p := m.ptr(args[0])
		var s []value
		if p != nil {
			s = unsafe.Slice(p, n)
		}
		if b.Name() == "String" {
			return mkStr(sliceBytes(s))
		}
		return slice(s)
	}
	panic(unsupported("builtin " + b.Name()))
}

func (m *Machine) rtPanicPlain(msg string) {
	panic(targetPanic{v: iface{t: m.rtErrType, v: msg}, msg: msg, pos: m.where()})
}

func (fr *frame) elemType(in *ssa.Call) types.Type {
	if in == nil {
		return nil
	}
	return in.Type().Underlying().(*types.Slice).Elem()
}

func (fr *frame) doRecover() value {
	// recover() must be called directly by the deferred function, whose caller is the panicking frame.
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		p := c.panicVal.(targetPanic)
		c.panicVal = nil
		fr.m.lastRecovered = p
		return p.v
	}
	return iface{}
}
