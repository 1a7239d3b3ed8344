package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Solver drives one SMT process over a pipe.
type Solver struct {
	fp       bool // floating point terms are in use
	asserts  []*Term
	fpMemo   map[*Term]bool
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	emitted  map[*Term]string
	decls    []*Term // vars and UF applications emitted in this path
	declared map[string]bool
	broken   bool
	sb       strings.Builder
	queries  int
	unknowns int
	dur      time.Duration
	timeout  int
	log      io.Writer
}

// slowDir receives the sessions of slow queries (for development).
var slowDir = os.Getenv("VERIF_SLOW")

var solverBin = func() string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return s
	}
	return "z3-new"
}()

func newSolver(timeout int) *Solver {
	if timeout <= 0 {
		timeout = 20000
	}
	s := &Solver{bin: solverBin, timeout: timeout / 2}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.bin == "cvc5" {
		s.cmd = exec.Command(s.bin, "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	} else {
		s.cmd = exec.Command(s.bin, append([]string{"-in", "-smt2"}, strings.Fields(os.Getenv("VERIF_Z3OPT"))...)...)
	}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if s.bin != "cvc5" {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	if !s.fp {
		s.in.WriteString("(set-logic QF_UFBV)\n")
	} else if s.bin == "cvc5" {
		s.in.WriteString("(set-logic ALL)\n")
	}
	s.in.WriteString("(push 1)\n")
	s.emitted = map[*Term]string{}
	s.declared = map[string]bool{}
}

func (s *Solver) close() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) beginPath() {
	s.sb.Reset()
	if s.broken {
		s.broken = false
		s.close()
		s.start()
	}
	s.sb.WriteString("(pop 1)\n(push 1)\n")
	s.flush()
	if slowDir != "" {
		s.log = &bytes.Buffer{}
	}
	s.emitted = map[*Term]string{}
	s.declared = map[string]bool{}
	s.decls = s.decls[:0]
	s.asserts = s.asserts[:0]
}

// hasFP tells whether a term uses floating point arithmetic.
func (s *Solver) hasFP(t *Term) bool {
	if t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := s.fpMemo[t]; ok {
		return r
	}
	r := false
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq, OFFromS, OFFromU, OFToS:
		r = true
	default:
		for _, a := range t.args {
			if s.hasFP(a) {
				r = true
				break
			}
		}
	}
	if s.fpMemo == nil || len(s.fpMemo) > 1<<20 {
		s.fpMemo = map[*Term]bool{}
	}
	s.fpMemo[t] = r
	return r
}

// needFP restarts the solver without its bit-vector logic once floating point terms appear.
func (s *Solver) needFP(t *Term) {
	if s.fp || !s.hasFP(t) {
		return
	}
	s.fp = true
	s.close()
	s.sb.Reset()
	s.decls = s.decls[:0]
	s.start()
	for _, a := range s.asserts {
		fmt.Fprintf(&s.sb, "(assert %s)\n", s.ref(a))
	}
}

func (s *Solver) flush() {
	if s.log != nil {
		io.WriteString(s.log, s.sb.String())
	}
	s.in.WriteString(s.sb.String())
	s.sb.Reset()
}

func sortOf(w int32) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtName(n string) string { return "|" + n + "|" }

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

// ref returns the text naming t, emitting definitions first.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if r, ok := s.emitted[t]; ok {
		return r
	}
	if t.op == OVar {
		r := smtName(t.name)
		fmt.Fprintf(&s.sb, "(declare-const %s %s)\n", r, sortOf(t.w))
		s.emitted[t] = r
		s.decls = append(s.decls, t)
		return r
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = s.ref(a)
	}
	fp := func(i int) string {
		if t.args[i].w == 32 {
			return "((_ to_fp 8 24) " + args[i] + ")"
		}
		return "((_ to_fp 11 53) " + args[i] + ")"
	}
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int32(t.val)+t.w-1, t.val, args[0])
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OUF:
		fn := "uf!" + t.name
		if !s.declared[fn] {
			s.declared[fn] = true
			var as []string
			for _, a := range t.args {
				as = append(as, sortOf(a.w))
			}
			fmt.Fprintf(&s.sb, "(declare-fun %s (%s) %s)\n", smtName(fn), strings.Join(as, " "), sortOf(t.w))
		}
		if len(args) == 0 {
			e = smtName(fn)
		} else {
			e = fmt.Sprintf("(%s %s)", smtName(fn), strings.Join(args, " "))
		}
		s.decls = append(s.decls, t)
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		e = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fp(0), fp(1))
	case OFLt:
		e = fmt.Sprintf("(fp.lt %s %s)", fp(0), fp(1))
	case OFLe:
		e = fmt.Sprintf("(fp.leq %s %s)", fp(0), fp(1))
	case OFEq:
		e = fmt.Sprintf("(fp.eq %s %s)", fp(0), fp(1))
	case OFFromS:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", args[0])
	case OFFromU:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE %s))", args[0])
	case OFToS:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fp(0))
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(engineErr(fmt.Sprintf("smt op %d", t.op)))
		}
		e = "(" + n + " " + strings.Join(args, " ") + ")"
	}
	r := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&s.sb, "(define-fun %s () %s %s)\n", r, sortOf(t.w), e)
	s.emitted[t] = r
	return r
}

func (s *Solver) assert(t *Term) {
	s.needFP(t)
	s.asserts = append(s.asserts, t)
	r := s.ref(t)
	fmt.Fprintf(&s.sb, "(assert %s)\n", r)
}

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineErr("solver died: " + err.Error()))
	}
	return strings.TrimSpace(l)
}

// check decides PC ∧ extra. On sat a model is returned.
func (s *Solver) check(extra *Term) (satRes, *Model) {
	start := time.Now()
	defer func() {
		d := time.Since(start)
		s.dur += d
		if b, ok := s.log.(*bytes.Buffer); ok && d > 2*time.Second {
			ioutil.WriteFile(filepath.Join(slowDir, fmt.Sprintf("slow%d-%dms.smt2", time.Now().UnixNano(), d.Milliseconds())), b.Bytes(), 0o666)
		}
	}()
	s.queries++
	s.needFP(extra)
	r := s.ref(extra)
	fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n(check-sat)\n", r)
	s.flush()
	s.in.Flush()
	l := s.readLine()
	for strings.HasPrefix(l, "(error") || l == "" {
		if l != "" {
			// an error line makes the answer inconclusive
			if s.log != nil {
				ioutil.WriteFile(slowDir+"/error.smt2", s.log.(*bytes.Buffer).Bytes(), 0o666)
			}
			s.broken = true
			panic(engineErr("solver: " + l))
		}
		l = s.readLine()
	}
	var m *Model
	res := unknown
	switch l {
	case "sat":
		res = sat
		m = s.getModel()
	case "unsat":
		res = unsat
	}
	s.sb.WriteString("(pop 1)\n")
	s.flush()
	if res == unknown && s.bin != "cvc5" {
		res, m = s.second(extra)
	}
	if res == unknown {
		s.unknowns++
	}
	return res, m
}

// second asks another solver what the first one could not decide.
func (s *Solver) second(extra *Term) (satRes, *Model) {
	a := &Solver{bin: "cvc5", timeout: 2 * s.timeout}
	for _, t := range append(s.asserts[:len(s.asserts):len(s.asserts)], extra) {
		a.fp = a.fp || a.hasFP(t)
	}
	a.start()
	defer a.close()
	for _, t := range s.asserts {
		a.assert(t)
	}
	return a.check(extra)
}

func (s *Solver) getModel() *Model {
	m := newModel()
	if len(s.decls) == 0 {
		return m
	}
	// values of vars and of every UF application together with its arguments
	var q []string
	for _, d := range s.decls {
		q = append(q, s.emitted[d])
		if d.op == OUF {
			for _, a := range d.args {
				q = append(q, s.ref(a))
			}
		}
	}
	fmt.Fprintf(&s.sb, "(get-value (%s))\n", strings.Join(q, " "))
	s.flush()
	s.in.Flush()
	// read balanced parens
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(engineErr("solver died: " + err.Error()))
		}
		sb.WriteString(l)
		for _, ch := range l {
			if ch == '|' {
				inBar = !inBar
			}
			if inBar {
				continue
			}
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "(error") {
		panic(engineErr("solver: " + txt))
	}
	vals := parseValues(txt)
	if len(vals) != len(q) {
		panic(engineErr(fmt.Sprintf("get-value: %d values for %d terms: %s", len(vals), len(q), txt)))
	}
	i := 0
	for _, d := range s.decls {
		v := vals[i]
		i++
		if d.op == OUF {
			as := make([]uint64, len(d.args))
			for k := range d.args {
				as[k] = vals[i]
				i++
			}
			m.ufs[ufKey(d.name, as)] = v
		} else {
			m.vars[d.name] = v
		}
	}
	return m
}

// parseValues reads ((term value) (term value) ...) and returns the values.
func parseValues(txt string) []uint64 {
	toks := tokenize(txt)
	var vals []uint64
	// toks: ( ( term value ) ... )
	i := 1
	skip := func(i int) int { // skip one sexpr
		if toks[i] != "(" {
			return i + 1
		}
		d := 0
		for {
			if toks[i] == "(" {
				d++
			} else if toks[i] == ")" {
				d--
			}
			i++
			if d == 0 {
				return i
			}
		}
	}
	for i < len(toks) && toks[i] == "(" {
		j := skip(i + 1)
		vals = append(vals, parseVal(toks[j]))
		i = skip(i)
	}
	return vals
}

func parseVal(t string) uint64 {
	var v uint64
	switch {
	case t == "true":
		return 1
	case t == "false":
		return 0
	case strings.HasPrefix(t, "#x"):
		fmt.Sscanf(t[2:], "%x", &v)
	case strings.HasPrefix(t, "#b"):
		for _, ch := range t[2:] {
			v = v<<1 | uint64(ch-'0')
		}
	default:
		panic(engineErr("parseVal " + t))
	}
	return v
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := i + 1
			for s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
