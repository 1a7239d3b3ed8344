package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	kind byte // 'b' branch, 'c' choose, 'k' concretise (val tried, n=1 taken)
	val  uint64
	n    int
}

type workItem struct {
	prefix []decision
	model  *Model
}

type inputRec struct {
	args []*Term // set for UF applications
	name string
	t    *Term // value
}

type obsRec struct {
	name string
	v    []*Term
	str  string // concrete description
	kind string
}

// Violation is a candidate found by the solver.
type Violation struct {
	Harness string
	Kind    string // assert | panic | deadlock
	Msg     string
	Where   string
	Inputs  map[string]uint64
	Confirm string
	Replay  string
	Finding string
	Output  string
}

// Sample is a path model used to validate the encoding natively.
type Sample struct {
	Inputs map[string]uint64
	Obs    []string
}

type Config struct {
	MapOrder  bool
	MaxSteps  int
	MaxDepth  int
	MaxPaths  int
	Budget    time.Duration
	Tier      int
	Preempt   int // preemption bound (concurrency harnesses)
	MaxConc   int
	Workers   int
	MaxViol   int
	Samples   int
	SolverTO  int
	Seed      int64
	StopFirst bool
}

// Shared exploration state of one harness run.
type Explorer struct {
	prog    *ssa.Program
	cfg     *Config
	fn      *ssa.Function
	harness string

	mu      sync.Mutex
	cond    *sync.Cond
	work    []workItem
	active  int
	stop    bool
	startAt time.Time

	paths      int
	done       int
	assumedOut int
	incomplete map[string]int
	forks      int
	asserts    int
	asserted   map[string]int
	discharged int
	unknowns   int
	queries    int
	solverDur  time.Duration
	viols      []Violation
	cuts       []Violation // inputs of paths that the encoding left before their end
	firstViol  time.Time
	violKey    map[string]int
	samples    []Sample
	reached    map[string]int
	funcs      map[string]bool
	steps      int64
	maxDecis   int
	notes      map[string]int
}

type needInit struct{ pkg *ssa.Package }

// infeasible ends a path whose assumption cannot hold.
type infeasible struct{}

type Machine struct {
	pending  []func()
	exactFmt bool
	prog     *ssa.Program
	progMu   *sync.Mutex
	cfg      *Config
	ex       *Explorer

	infos   map[*ssa.Function]*funcInfo
	consts  map[*ssa.Const]value
	funcs   map[*ssa.Function]*closure
	meths   map[methKey]*ssa.Function
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int // 1 running, 2 done

	ctx    *Ctx
	solver *Solver

	inPath        bool
	undo          []undoRec
	cur           *gor
	steps         int
	maxSteps      int
	maxDepth      int
	rtErrType     types.Type
	errStrType    types.Type
	lastRecovered targetPanic

	// path state
	prefix  []decision
	trace   []decision
	pos     int
	model   *Model
	ev      *evaluator
	inputs  []inputRec
	nameCnt map[string]int
	obs     []obsRec
	reached []string
	fnSeen  map[string]bool
	nconc   int

	// scheduler
	gors     []*gor
	abortErr interface{}
	dying    bool
	preempts int
	explore  bool
	wg       sync.WaitGroup
	env      map[string]interface{}
	wide     int
}

func newMachine(ex *Explorer) *Machine {
	m := &Machine{prog: ex.prog, progMu: &progLock, cfg: ex.cfg, ex: ex,
		infos: map[*ssa.Function]*funcInfo{}, consts: map[*ssa.Const]value{}, funcs: map[*ssa.Function]*closure{},
		meths: map[methKey]*ssa.Function{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{},
		ctx: newCtx(), maxSteps: ex.cfg.MaxSteps, maxDepth: ex.cfg.MaxDepth, fnSeen: map[string]bool{}}
	m.solver = newSolver(ex.cfg.SolverTO)
	for _, p := range ex.prog.AllPackages() {
		if p.Pkg.Path() == "runtime" {
			if tn, ok := p.Members["errorString"].(*ssa.Type); ok {
				m.rtErrType = tn.Type()
			}
		}
	}
	if m.rtErrType == nil {
		m.rtErrType = types.Typ[types.String]
	}
	return m
}

var progLock sync.Mutex

func (m *Machine) globalAddr(g *ssa.Global) value {
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") {
		// package os is not initialised; these are the errors of io/fs
		if fs := m.prog.ImportedPackage("io/fs"); fs != nil {
			if v := fs.Var(g.Name()); v != nil {
				return m.globalAddr(v)
			}
		}
	}
	p, ok := m.globals[g]
	if ok && (g.Pkg == nil || m.inited[g.Pkg] != 0) {
		return p
	}
	if m.inited[g.Pkg] == 0 && g.Name() != "init$guard" {
		if m.inPath {
			panic(needInit{g.Pkg})
		}
		m.runInit(g.Pkg)
		if p, ok := m.globals[g]; ok {
			return p
		}
	}
	if p == nil {
		p = new(value)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		m.globals[g] = p
	}
	return p
}

// skipInit names packages whose variables keep their zero value (nothing the
// encoded code reads depends on them).
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "net": true, "internal/poll": true,
	"internal/cpu": true, "internal/godebug": true, "crypto/tls": true, "net/http": true, "time": false, "log": true,
	"testing": true, "reflect": true, "internal/godebugs": true, "crypto/x509": true, "encoding/json": false, "mime": true}

func (m *Machine) runInit(pkg *ssa.Package) {
	if m.inited[pkg] != 0 {
		return
	}
	m.inited[pkg] = 1
	defer func() { m.inited[pkg] = 2 }()
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	saveP, saveSteps, saveCur := m.inPath, m.steps, m.cur
	saveMax := m.maxSteps
	m.inPath = false
	m.steps = 0
	m.maxSteps = 50000000
	g := &gor{}
	m.cur = g
	defer func() {
		m.inPath, m.steps, m.cur, m.maxSteps = saveP, saveSteps, saveCur, saveMax
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupportedErr:
				m.ex.note("init of " + pkg.Pkg.Path() + " stopped: " + r.msg)
			case targetPanic:
				m.ex.note("init of " + pkg.Pkg.Path() + " panicked: " + r.msg)
			default:
				panic(r)
			}
		}
	}()
	m.callSSA(g, nil, f, nil, nil)
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (m *Machine) noteFn(fn *ssa.Function) {
	if fn.Pkg == nil {
		if fn.Origin() != nil {
			fn = fn.Origin()
		}
		if fn.Pkg == nil {
			return
		}
	}
	n := fn.String()
	m.fnSeen[n] = true
}

func (m *Machine) lookupFunc(pkg, name string) *ssa.Function {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("no func " + pkg + "." + name))
	}
	return f
}

// ---- decisions ----

func (m *Machine) evalB(t *Term) bool { return m.ev.eval(t) != 0 }

func (m *Machine) setModel(md *Model) {
	m.model = md
	m.ev = &evaluator{m: md, memo: map[*Term]uint64{}}
}

func (m *Machine) fork(d decision, md *Model) {
	p := make([]decision, len(m.trace)+1)
	copy(p, m.trace)
	p[len(m.trace)] = d
	m.ex.push(workItem{p, md})
}

func (m *Machine) check(extra *Term) (satRes, *Model) {
	return m.solver.check(extra)
}

func (m *Machine) nextPrefix(kind byte) (decision, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.kind != kind {
			panic(engineErr(fmt.Sprintf("replay divergence: want %c have %c at %d in %s", kind, d.kind, m.pos, m.where())))
		}
		m.pos++
		m.trace = append(m.trace, d)
		return d, true
	}
	return decision{}, false
}

// define gives the solver the pending definitions if t mentions what they define.
func (m *Machine) define(t *Term) {
	if !t.lazy || len(m.pending) == 0 {
		return
	}
	defs := m.pending
	m.pending = nil
	for _, d := range defs {
		d()
	}
}

func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	m.define(c)
	if !m.inPath {
		panic(unsupported("symbolic branch outside path"))
	}
	if d, ok := m.nextPrefix('b'); ok {
		if d.val != 0 {
			m.solver.assert(c)
		} else {
			m.solver.assert(m.ctx.Not(c))
		}
		return d.val != 0
	}
	v := m.evalB(c)
	mine, other := c, m.ctx.Not(c)
	if !v {
		mine, other = other, mine
	}
	r, md := m.check(other)
	switch r {
	case sat:
		m.fork(decision{kind: 'b', val: 1 - b2u(v)}, md)
	case unknown:
		m.ex.incomp("solver unknown on a branch")
	}
	m.solver.assert(mine)
	m.trace = append(m.trace, decision{kind: 'b', val: b2u(v)})
	return v
}

// choose picks one of n alternatives, exploring all.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.nextPrefix('c'); ok {
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(decision{kind: 'c', val: uint64(i)}, m.model)
	}
	m.trace = append(m.trace, decision{kind: 'c', val: 0})
	return 0
}

// concretize forks over all values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	m.define(t)
	if !m.inPath {
		panic(unsupported("symbolic value outside path"))
	}
	for k := 0; ; k++ {
		if d, ok := m.nextPrefix('k'); ok {
			e := m.ctx.Eq(t, mkConst(t.w, d.val))
			if d.n == 1 {
				m.solver.assert(e)
				return d.val
			}
			m.solver.assert(m.ctx.Not(e))
			continue
		}
		if k > m.cfg.MaxConc {
			panic(pathAbort{"too many values at concretisation in " + m.where()})
		}
		v := m.ev.eval(t)
		e := m.ctx.Eq(t, mkConst(t.w, v))
		if e.isTrue() {
			return v
		}
		r, md := m.check(m.ctx.Not(e))
		switch r {
		case sat:
			m.fork(decision{kind: 'k', val: v, n: 0}, md)
		case unknown:
			m.ex.incomp("solver unknown on a concretisation")
		}
		m.solver.assert(e)
		m.trace = append(m.trace, decision{kind: 'k', val: v, n: 1})
		return v
	}
}

func (m *Machine) concInt(t *Term) int { return int(sext(m.concretize(t), t.w)) }

func (m *Machine) concLen(t *Term) int {
	if t.op == OConst {
		return int(sext(t.val, t.w))
	}
	c := m.ctx
	// a negative or huge length is one outcome (panic), the rest is enumerated
	if m.branch(c.Cmp(OSlt, t, mkConst(t.w, 0))) {
		return -1
	}
	if m.branch(c.Cmp(OUlt, mkConst(t.w, 4096), t)) {
		panic(pathAbort{"symbolic length above 4096"})
	}
	return int(m.concretize(t))
}

func (m *Machine) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			panic(infeasible{})
		}
		return
	}
	m.define(c)
	if m.pos >= len(m.prefix) && !m.evalB(c) {
		r, md := m.check(c)
		switch r {
		case unsat:
			panic(infeasible{})
		case unknown:
			m.ex.incomp("solver unknown on an assumption")
			panic(infeasible{})
		}
		m.setModel(md)
	}
	m.solver.assert(c)
}

func (m *Machine) assertProp(c *Term, msg string) {
	m.define(c)
	if m.pos < len(m.prefix) {
		// decided by the path that created this prefix
		m.solver.assert(c)
		return
	}
	m.ex.noteAssert(msg)
	if c.isTrue() {
		m.ex.noteDischarged()
		return
	}
	if c.isFalse() {
		m.report("assert", msg, m.model)
		panic(infeasible{})
	}
	if !m.evalB(c) {
		m.report("assert", msg, m.model)
		r, md := m.check(c)
		if r != sat {
			panic(infeasible{})
		}
		m.setModel(md)
		m.solver.assert(c)
		return
	}
	r, md := m.check(m.ctx.Not(c))
	switch r {
	case sat:
		m.report("assert", msg, md)
	case unknown:
		m.ex.incomp("solver unknown on an assertion")
	default:
		m.ex.noteDischarged()
	}
	m.solver.assert(c)
}

func (m *Machine) inputsUnder(md *Model) map[string]uint64 {
	r := map[string]uint64{}
	ev := &evaluator{m: md, memo: map[*Term]uint64{}}
	for _, in := range m.inputs {
		if strings.HasPrefix(in.name, "uf:") {
			vals := make([]uint64, len(in.args))
			for i, a := range in.args {
				vals[i] = ev.eval(a)
			}
			r[ufKey(in.name, vals)] = ev.eval(in.t)
			continue
		}
		r[in.name] = ev.eval(in.t)
	}
	return r
}

func (m *Machine) report(kind, msg string, md *Model) {
	v := Violation{Harness: m.ex.harness, Kind: kind, Msg: msg, Where: m.where(), Inputs: m.inputsUnder(md)}
	m.ex.addViol(v)
}

func (m *Machine) fresh(name string) string {
	k := m.nameCnt[name]
	m.nameCnt[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) input(name string, w int32) *Term {
	n := m.fresh(name)
	t := m.ctx.Var(n, w)
	m.inputs = append(m.inputs, inputRec{name: n, t: t})
	return t
}

func (m *Machine) inputChoice(name string, n int) int {
	nm := m.fresh(name)
	k := m.choose(nm, n)
	m.inputs = append(m.inputs, inputRec{name: nm, t: intv(k)})
	return k
}

// ---- running ----

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:0]
}

func (m *Machine) runPath(it workItem) {
	for {
		again := m.runPath1(it)
		if !again {
			return
		}
	}
}

func (m *Machine) runPath1(it workItem) (again bool) {
	m.ctx.reset()
	m.solver.beginPath()
	m.prefix, m.trace, m.pos = it.prefix, nil, 0
	m.setModel(it.model)
	m.inputs, m.obs, m.reached = nil, nil, nil
	m.nameCnt = map[string]int{}
	m.pending = nil
	m.steps = 0
	m.env = map[string]interface{}{}
	m.gors, m.abortErr, m.dying, m.preempts = nil, nil, false, 0
	m.explore = false
	main := &gor{id: 0, wake: make(chan struct{}, 1)}
	m.gors = []*gor{main}
	m.cur = main
	m.inPath = true
	outcome := "done"
	why := ""
	var md *Model
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case infeasible:
				outcome = "infeasible"
			case pathAbort:
				outcome, why = "incomplete", r.reason
				if r.reason == stepLimit {
					m.ex.addViol(Violation{Harness: m.ex.harness, Kind: "hang", Msg: "execution does not end", Where: m.where(), Inputs: m.inputsUnder(m.model)})
				}
			case unsupportedErr:
				outcome, why = "incomplete", "not encoded: "+r.msg+" @ "+m.where()
			case needInit:
				outcome = "init"
				m.shutdown()
				m.rollback()
				m.inPath = false
				m.runInit(r.pkg)
				again = true
			case targetPanic:
				outcome = "panic"
				m.ex.noteAssert("no panic")
				v := Violation{Harness: m.ex.harness, Kind: "panic", Msg: r.msg, Where: r.pos, Inputs: m.inputsUnder(m.model)}
				m.ex.addViol(v)
			case deadlockErr:
				outcome = "deadlock"
				v := Violation{Harness: m.ex.harness, Kind: "deadlock", Msg: "all goroutines blocked", Where: r.where, Inputs: m.inputsUnder(m.model)}
				m.ex.addViol(v)
			case engineErr:
				outcome, why = "incomplete", "engine: "+string(r)+" @ "+m.where()
			default:
				if debugPanics {
					m.shutdown()
					panic(r)
				}
				outcome, why = "incomplete", fmt.Sprintf("engine: %v @ %s", r, m.where())
			}
		}()
		before := m.solver.queries
		m.callSSA(main, nil, m.ex.fn, nil, nil)
		if m.solver.queries == before {
			// nothing was left to the solver but whether any input takes this path
			if r, _ := m.check(tTrue); r == unsat {
				panic(engineErr("a path that no input takes"))
			}
		}
	}()
	if again {
		return true
	}
	m.shutdown()
	if outcome == "done" {
		md = m.model
		m.ex.finishPath(m, md)
	} else {
		m.ex.endPath(m, outcome, why)
	}
	m.rollback()
	m.inPath = false
	return false
}

var debugPanics bool

const stepLimit = "step limit"

func (ex *Explorer) push(it workItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, it)
	ex.forks++
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) incomp(why string) {
	ex.mu.Lock()
	ex.incomplete[why]++
	ex.mu.Unlock()
}
func (ex *Explorer) noteAssert(msg string) {
	ex.mu.Lock()
	ex.asserts++
	ex.asserted[msg]++
	ex.mu.Unlock()
}
func (ex *Explorer) noteDischarged() {
	ex.mu.Lock()
	ex.discharged++
	ex.mu.Unlock()
}

func (ex *Explorer) addViol(v Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := v.Kind + "|" + v.Msg + "|" + strings.SplitN(v.Where, " < ", 2)[0]
	ex.violKey[key]++
	if ex.violKey[key] > 4 || len(ex.viols) >= ex.cfg.MaxViol {
		return
	}
	if len(ex.viols) == 0 {
		ex.firstViol = time.Now()
	}
	ex.viols = append(ex.viols, v)
}

func (m *Machine) obsUnder(md *Model) []string {
	ev := &evaluator{m: md, memo: map[*Term]uint64{}}
	var out []string
	for _, o := range m.obs {
		switch o.kind {
		case "int":
			out = append(out, fmt.Sprintf("%s=%d", o.name, ev.eval(o.v[0])))
		case "bytes":
			b := make([]byte, len(o.v))
			for i, t := range o.v {
				b[i] = byte(ev.eval(t))
			}
			out = append(out, fmt.Sprintf("%s=%x", o.name, b))
		default:
			out = append(out, o.name+"="+o.str)
		}
	}
	return out
}

func (ex *Explorer) finishPath(m *Machine, md *Model) {
	ex.mu.Lock()
	ex.paths++
	ex.done++
	n := ex.done
	for _, r := range m.reached {
		ex.reached[r]++
	}
	for f := range m.fnSeen {
		ex.funcs[f] = true
	}
	ex.steps += int64(m.steps)
	if len(m.trace) > ex.maxDecis {
		ex.maxDecis = len(m.trace)
	}
	want := ex.cfg.Samples
	take := -1
	if len(ex.samples) < want {
		take = len(ex.samples)
	} else if want > 0 && n&(n-1) == 0 { // powers of two replace an older sample
		take = (n / 7) % want
	}
	ex.mu.Unlock()
	if take >= 0 {
		s := Sample{Inputs: m.inputsUnder(md), Obs: m.obsUnder(md)}
		ex.mu.Lock()
		if take >= len(ex.samples) {
			ex.samples = append(ex.samples, s)
		} else {
			ex.samples[take] = s
		}
		ex.mu.Unlock()
	}
}

func (ex *Explorer) endPath(m *Machine, outcome, why string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.paths++
	ex.steps += int64(m.steps)
	for _, r := range m.reached {
		ex.reached[r]++
	}
	for f := range m.fnSeen {
		ex.funcs[f] = true
	}
	switch outcome {
	case "infeasible":
		ex.assumedOut++
	case "incomplete":
		ex.incomplete[why]++
		if ex.incomplete[why] <= 3 && len(ex.cuts) < 12 {
			// where the encoding stops, the compiled code says what these inputs do
			ex.cuts = append(ex.cuts, Violation{Harness: ex.harness, Kind: "cut", Msg: why, Inputs: m.inputsUnder(m.model)})
		}
	}
}

func newExplorer(prog *ssa.Program, fn *ssa.Function, cfg *Config) *Explorer {
	ex := &Explorer{prog: prog, fn: fn, cfg: cfg, harness: fn.Name(), incomplete: map[string]int{}, asserted: map[string]int{},
		violKey: map[string]int{}, reached: map[string]int{}, funcs: map[string]bool{}, notes: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) run() {
	ex.startAt = time.Now()
	ex.work = []workItem{{nil, newModel()}}
	deadline := ex.startAt.Add(ex.cfg.Budget)
	var wg sync.WaitGroup
	for w := 0; w < ex.cfg.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var m *Machine
			defer func() {
				if m != nil {
					ex.mu.Lock()
					ex.queries += m.solver.queries
					ex.unknowns += m.solver.unknowns
					ex.solverDur += m.solver.dur
					ex.mu.Unlock()
					m.solver.close()
				}
			}()
			for {
				ex.mu.Lock()
				for len(ex.work) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.work) == 0 {
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				it := ex.work[len(ex.work)-1]
				ex.work = ex.work[:len(ex.work)-1]
				ex.active++
				ex.mu.Unlock()
				if m == nil {
					m = newMachine(ex)
				}
				m.runPath(it)
				ex.mu.Lock()
				ex.active--
				if time.Now().After(deadline) || (ex.cfg.MaxPaths > 0 && ex.paths >= ex.cfg.MaxPaths) {
					if !ex.stop && (len(ex.work) > 0 || ex.active > 0) {
						ex.stop = true
						ex.incomplete["exploration budget reached"] += len(ex.work) + ex.active
					}
				}
				if len(ex.viols) >= ex.cfg.MaxViol || len(ex.viols) > 0 && time.Since(ex.firstViol) > 12*time.Second {
					if !ex.stop && len(ex.work) > 0 {
						ex.incomplete["stopped after violations"] += len(ex.work)
					}
					ex.stop = true
				}
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
