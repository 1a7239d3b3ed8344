package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is a genuine defect recorded instead of repaired. A counterexample belongs to it when every
// non-empty field matches.
type Finding struct {
	ID       string            `json:"id"`
	Property string            `json:"property"`
	Harness  string            `json:"harness"` // harness name prefix
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`    // exact message of the violated assertion or panic (substring)
	Where    string            `json:"where"`  // substring of the call site
	Inputs   map[string]uint64 `json:"inputs"` // values that single out the failing history
	Summary  string            `json:"summary"`
}

type findingsFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func loadFindings() findingsFile {
	var f findingsFile
	b, err := ioutil.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println("note: known-findings.json:", err)
		}
	}
	return f
}

func (f *Finding) matches(prop string, v *Violation) bool {
	if f.Property != prop || !strings.HasPrefix(v.Harness, f.Harness) {
		return false
	}
	if f.Kind != "" && f.Kind != v.Kind || !strings.Contains(v.Msg, f.Msg) || !strings.Contains(v.Where, f.Where) {
		return false
	}
	for k, x := range f.Inputs {
		if v.Inputs[k] != x {
			return false
		}
	}
	return true
}

// replayFile is what a VIOLATION line points to.
type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Package  string            `json:"package"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Where    string            `json:"where"`
	Inputs   map[string]uint64 `json:"inputs"`
	Tier     int               `json:"tier"`
	Preempt  int               `json:"preempt"`
	Build    string            `json:"build"` // "real" engines or contract "model"
	Instr    string            `json:"instr"`
	Native   string            `json:"native_outcome"`
	How      string            `json:"how_to_replay"`
}

func cmdReplay(args []string) int {
	b, err := ioutil.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	w := newWorkspace()
	defer w.close()
	bin, err := w.nativeBin(rf.Package, rf.Build == "model", rf.Instr)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rs, err := w.runNative(bin, []natCase{{rf.Harness, rf.Inputs, rf.Tier, rf.Preempt}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(rs[0].Status, rs[0].Msg)
	for _, o := range rs[0].Obs {
		fmt.Println("  ", o)
	}
	if rs[0].Status == "ok" {
		return 0
	}
	return 1
}

func natConfirms(kind string, r natResult) bool {
	switch kind {
	case "assert", "panic":
		return r.Status == "assert" || r.Status == "panic" || r.Status == "crash"
	case "cut":
		return r.Status == "assert" || r.Status == "panic" || r.Status == "crash"
	case "hang":
		return r.Status == "timeout" || r.Status == "crash"
	case "deadlock":
		return r.Status == "timeout" || r.Status == "panic" && strings.Contains(r.Msg, "deadlock") || r.Status == "crash"
	}
	return false
}

type confirmedViol struct {
	v     Violation
	build string
	res   natResult
}

type harnessReport struct {
	Name        string         `json:"harness"`
	What        string         `json:"what"`
	Bounds      string         `json:"bounds"`
	Complete    bool           `json:"explored_completely"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"paths_ruled_out_by_assumptions"`
	Forks       int            `json:"forks"`
	Asserts     int            `json:"assertions_evaluated"`
	Discharged  int            `json:"assertions_discharged"`
	Queries     int            `json:"solver_queries"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Steps       int64          `json:"ssa_instructions"`
	Reached     map[string]int `json:"reachability_witness"`
	Functions   int            `json:"functions_encoded"`
	Validated   int            `json:"paths_replayed_natively"`
	Mismatch    int            `json:"native_mismatches"`
	Unconfirmed int            `json:"unconfirmed_counterexamples"`
	Incomplete  map[string]int `json:"incomplete,omitempty"`
	Notes       []string       `json:"notes,omitempty"`
}

type checkRun struct {
	prop     string
	tier     int
	ws       *Workspace
	findings findingsFile
	reports  []harnessReport
	funcs    map[string]bool
	samples  []interface{}
	news     []confirmedViol
	known    map[string]string
	notes    []string
	assume   map[string]bool
}

func (c *checkRun) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	c.notes = append(c.notes, s)
	fmt.Println("note:", s)
}

// confirm replays counterexamples (and sampled paths) against the compiled code.
func (c *checkRun) confirm(h *Harness, ex *Explorer, rep *harnessReport) {
	if len(ex.viols) == 0 && len(ex.samples) == 0 && len(ex.cuts) == 0 {
		return
	}
	model := h.Opt["native"] == "model"
	builds := []bool{model}
	if !model {
		builds = append(builds, true)
	}
	byKey := map[string][]Violation{}
	var keys []string
	for _, v := range ex.viols {
		k := v.Kind + "|" + v.Msg + "|" + strings.SplitN(v.Where, " < ", 2)[0]
		if byKey[k] == nil {
			keys = append(keys, k)
		}
		byKey[k] = append(byKey[k], v)
	}
	sort.SliceStable(keys, func(i, j int) bool { return rank(keys[i]) < rank(keys[j]) })
	if len(keys) > 8 {
		keys = keys[:8]
	}
	for i, v := range ex.cuts { // judged after the counterexamples
		k := fmt.Sprintf("cut|%d|%s", i, v.Msg)
		keys, byKey[k] = append(keys, k), []Violation{v}
	}
	done := map[string]bool{}
	timeouts := 0
	for bi, useModel := range builds {
		bin, err := c.ws.nativeBin(h.Pkg, useModel, h.Opt["instr"])
		if err != nil {
			c.note("%s: %v", h.Name, err)
			continue
		}
		for round := 0; round < 3; round++ {
			var cases []natCase
			var vs []Violation
			var vk []string
			for _, k := range keys {
				if !done[k] && round < len(byKey[k]) {
					v := byKey[k][round]
					cases = append(cases, natCase{h.Name, v.Inputs, c.tier, configFor(h, c.tier).Preempt})
					vs, vk = append(vs, v), append(vk, k)
				}
			}
			if timeouts > 4 {
				cases, vs = nil, nil
			}
			ns := 0
			if bi == 0 && round == 0 {
				for _, s := range ex.samples {
					cases = append(cases, natCase{h.Name, s.Inputs, c.tier, configFor(h, c.tier).Preempt})
				}
				ns = len(ex.samples)
			}
			if len(cases) == 0 {
				break
			}
			rs, err := c.ws.runNative(bin, cases)
			if err != nil || len(rs) != len(cases) {
				c.note("%s: native replay: %v", h.Name, err)
				break
			}
			for i, v := range vs {
				if rs[i].Status == "timeout" {
					timeouts++
				}
				if natConfirms(v.Kind, rs[i]) {
					done[vk[i]] = true
					b := "real"
					if useModel {
						b = "model"
					}
					if v.Kind == "cut" {
						v.Kind, v.Msg, v.Where = "assert", firstLine(rs[i].Msg), "compiled code; "+v.Msg
						if rs[i].Status != "assert" {
							v.Kind = "panic"
						}
					}
					c.addConfirmed(confirmedViol{v, b, rs[i]})
				}
			}
			for i := 0; i < ns; i++ {
				r, s := rs[len(vs)+i], ex.samples[i]
				if r.Status == "ok" && strings.Join(r.Obs, "\n") == strings.Join(s.Obs, "\n") {
					rep.Validated++
					if len(c.samples) < 24 && i < 3 {
						c.samples = append(c.samples, map[string]interface{}{"harness": h.Name, "inputs": s.Inputs, "observed": s.Obs, "native": "same"})
					}
				} else {
					rep.Mismatch++
					if bad := func(r natResult) bool { return r.Status == "assert" || r.Status == "panic" }; bad(r) && !useModel {
						// the compiled code fails on inputs the encoding let pass: believed if it fails again
						one := natCase{h.Name, s.Inputs, c.tier, configFor(h, c.tier).Preempt}
						if again, err := c.ws.runNative(bin, []natCase{one}); err == nil && len(again) == 1 && bad(again[0]) {
							c.addConfirmed(confirmedViol{Violation{Harness: h.Name, Kind: "assert", Msg: again[0].Msg, Where: "compiled code", Inputs: s.Inputs}, "real", again[0]})
						}
					}
					rep.Notes = append(rep.Notes, fmt.Sprintf("native %s %s observed %v, encoding observed %v", r.Status, tail(r.Msg, 400), r.Obs, s.Obs))
				}
			}
		}
		if len(c.news) > 0 {
			break
		}
	}
	for _, k := range keys {
		if !done[k] && !strings.HasPrefix(k, "cut|") {
			rep.Unconfirmed++
			rep.Notes = append(rep.Notes, "counterexample not reproduced natively, not reported: "+k)
		}
	}
}

func rank(k string) int {
	switch {
	case strings.HasPrefix(k, "assert"):
		return 0
	case strings.HasPrefix(k, "panic"):
		return 1
	case strings.HasPrefix(k, "deadlock"):
		return 2
	}
	return 3
}

func (c *checkRun) addConfirmed(cv confirmedViol) {
	for i := range c.findings.Findings {
		f := &c.findings.Findings[i]
		if f.matches(c.prop, &cv.v) {
			c.known[f.ID] = f.Summary
			return
		}
	}
	c.news = append(c.news, cv)
}

func cmdCheck(args []string) int {
	t0 := time.Now()
	if len(args) < 2 {
		fmt.Println("usage: engine check PROP quick|thorough")
		return 2
	}
	c := &checkRun{prop: args[0], findings: loadFindings(), funcs: map[string]bool{}, known: map[string]string{}, assume: map[string]bool{}}
	total := 780 * time.Second
	if args[1] == "thorough" {
		c.tier = 1
		total = 2 * time.Hour
	}
	if s := os.Getenv("VERIF_TOTAL_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			total = time.Duration(n) * time.Second
		}
	}
	c.ws = newWorkspace()
	defer c.ws.close()
	hs := selectHarnesses(func(h *Harness) bool {
		if h.Opt["tier"] == "thorough" && c.tier == 0 {
			return false
		}
		if only := os.Getenv("VERIF_ONLY"); only != "" && !strings.Contains(h.Name, only) {
			return false // development aid: one backend
		}
		for _, p := range h.Props {
			if p == c.prop {
				return true
			}
		}
		return false
	})
	if len(hs) == 0 {
		fmt.Println("no harness for", c.prop)
		return 2
	}
	groups := groupHarnesses(hs)
	type loadRes struct {
		l   *Loaded
		err error
	}
	loads := make([]chan loadRes, len(groups))
	sem := make(chan bool, 3)
	for i := range groups {
		loads[i] = make(chan loadRes, 1)
		go func(i int) {
			sem <- true
			l, err := c.ws.loadGroup(groups[i])
			<-sem
			loads[i] <- loadRes{l, err}
		}(i)
	}
	left := len(hs)
	for i, g := range groups {
		lr := <-loads[i]
		if lr.err != nil {
			c.note("%s: cannot be encoded on this tree: %v", g[0].Pkg, lr.err)
			left -= len(g)
			continue
		}
		for _, h := range g {
			if len(c.news) > 0 {
				break
			}
			lh := lr.l.harnesses[h.Name]
			cfg := configFor(lh, c.tier)
			cfg.Seed = seed()
			remain := total - time.Since(t0)
			if share := remain / time.Duration(left) * 3; cfg.Budget > share {
				cfg.Budget = share
			}
			if remain < 20*time.Second {
				c.note("%s: skipped, the time for this check is used up", h.Name)
				left--
				continue
			}
			if lh.Opt["assume"] != "" {
				c.assume[strings.Replace(lh.Opt["assume"], "_", " ", -1)] = true
			}
			ex := newExplorer(lr.l.prog, lh.Fn, cfg)
			t1 := time.Now()
			ex.run()
			rep := harnessReport{Name: h.Name, What: lh.Doc, Bounds: boundsOf(lh, c.tier), Complete: len(ex.incomplete) == 0, Paths: ex.paths, Infeasible: ex.assumedOut, Forks: ex.forks,
				Asserts: ex.asserts, Discharged: ex.discharged, Queries: ex.queries, SolverS: ex.solverDur.Seconds(), Steps: ex.steps,
				Reached: ex.reached, Functions: len(ex.funcs), Incomplete: ex.incomplete}
			for f := range ex.funcs {
				c.funcs[f] = true
			}
			for _, n := range sortedKeys(ex.notes) {
				rep.Notes = append(rep.Notes, n)
			}
			if ex.reached["end"] == 0 {
				rep.Notes = append(rep.Notes, "VACUOUS: no path reached the end of the harness")
			}
			c.confirm(lh, ex, &rep)
			rep.WallS = time.Since(t1).Seconds()
			c.reports = append(c.reports, rep)
			fmt.Printf("%s: paths=%d complete=%v assertions=%d discharged=%d queries=%d candidates=%d validated=%d mismatches=%d %.1fs\n", h.Name, ex.paths, rep.Complete, ex.asserts,
				ex.discharged, ex.queries, len(ex.viols), rep.Validated, rep.Mismatch, rep.WallS)
			for _, k := range sortedKeys(ex.incomplete) {
				fmt.Printf("  bound reduced x%d: %s\n", ex.incomplete[k], tail(k, 400))
			}
			left--
		}
		lr.l = nil
	}
	c.writeEvidence(time.Since(t0))
	for _, id := range sortedStr(c.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, c.known[id])
	}
	if len(c.news) == 0 {
		return 0
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o777)
	old, _ := filepath.Glob(filepath.Join(dir, c.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for i, n := range c.news {
		if i >= 5 {
			break
		}
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, i+1))
		h := c.harnessOf(hs, n.v.Harness)
		b, _ := json.MarshalIndent(replayFile{c.prop, n.v.Harness, h.Pkg, n.v.Kind, n.v.Msg, n.v.Where, n.v.Inputs, c.tier, configFor(h, c.tier).Preempt, n.build, h.Opt["instr"],
			n.res.Status + ": " + tail(n.res.Msg, 3000), "bash /verif/check.sh replay " + f}, "", " ")
		if err := ioutil.WriteFile(f, b, 0o666); err != nil {
			fmt.Println("note:", err)
		}
		fmt.Printf("%s: %s (%s): %s\n   at %s\n   native replay (%s engines): %s\n", n.v.Harness, n.v.Msg, n.v.Kind, inputString(n.v.Inputs), tail(n.v.Where, 600), n.build, n.res.Status+": "+firstLine(n.res.Msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
	}
	return 1
}

func (c *checkRun) harnessOf(hs []*Harness, name string) *Harness {
	for _, h := range hs {
		if h.Name == name {
			return h
		}
	}
	return hs[0]
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func inputString(in map[string]uint64) string {
	var l []string
	for k, v := range in {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	if len(l) > 50 {
		l = append(l[:50], "...")
	}
	return strings.Join(l, " ")
}

func sortedStr(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// boundsOf lists the bounds of a harness: the ones in its documentation and the engine's.
func boundsOf(h *Harness, tier int) string {
	cfg := configFor(h, tier)
	s := fmt.Sprintf("at most %d SSA instructions and call depth %d per path, %s of exploration", cfg.MaxSteps, cfg.MaxDepth, cfg.Budget)
	if h.Opt["sched"] != "" {
		s += fmt.Sprintf(", %d preemptions", cfg.Preempt)
	}
	if i := strings.Index(h.Doc, "Bounds:"); i >= 0 {
		s = strings.TrimSpace(h.Doc[i+7:]) + "; " + s
	}
	return s
}

func (c *checkRun) writeEvidence(wall time.Duration) {
	cov := map[string]interface{}{}
	var paths, forks, asserts, disch, queries, val, mism, unconf int
	var solver float64
	var steps int64
	complete := len(c.reports) > 0
	for _, r := range c.reports {
		paths += r.Paths
		forks += r.Forks
		asserts += r.Asserts
		disch += r.Discharged
		queries += r.Queries
		val += r.Validated
		mism += r.Mismatch
		unconf += r.Unconfirmed
		solver += r.SolverS
		steps += r.Steps
		complete = complete && r.Complete
	}
	var fs []string
	for f := range c.funcs {
		if strings.Contains(f, "oureadb") {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	if c.samples == nil {
		c.samples = []interface{}{}
	}
	cov["states"] = paths
	cov["transitions"] = forks
	cov["traces_validated_against_impl"] = val
	cov["samples"] = c.samples
	cov["explanation"] = "states: symbolic paths (each one a formula over all inputs that take it); transitions: feasible branch alternatives the solver produced; traces_validated_against_impl: solver models of complete paths run through the compiled code with identical observations"
	cov["obligations"] = asserts
	cov["discharged"] = disch
	cov["solver"] = "z3 (z3-new -in, QF_BV/UF), one process per worker"
	cov["solver_queries"] = queries
	cov["solver_seconds"] = solver
	cov["ssa_instructions_executed_symbolically"] = steps
	cov["functions_encoded_total"] = len(c.funcs)
	cov["functions_encoded_of_oureadb"] = fs
	cov["exhaustive"] = complete
	cov["native_mismatches"] = mism
	cov["unconfirmed_counterexamples"] = unconf
	cov["harnesses"] = c.reports
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	var known []string
	for _, id := range sortedStr(c.known) {
		known = append(known, id+": "+c.known[id])
	}
	cov["known_findings_seen"] = known
	as := []string{"the SSA interpreter of /verif/engine and z3 are trusted; sampled paths are replayed against the compiled code on every run",
		"nothing outside the stated bounds is claimed"}
	for a := range c.assume {
		as = append(as, a)
	}
	if b, err := ioutil.ReadFile(filepath.Join(verifDir, "assumptions.json")); err == nil {
		var m map[string][]string
		if json.Unmarshal(b, &m) == nil {
			as = append(as, m[c.prop]...)
		}
	}
	sort.Strings(as[2:])
	tier := "quick"
	if c.tier > 0 {
		tier = "thorough"
	}
	ev := map[string]interface{}{"property": c.prop, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov, "assumptions": as, "wall_s": wall.Seconds(), "violations": len(c.news)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o777)
	f := filepath.Join(verifDir, "evidence", c.prop+".json")
	if err := ioutil.WriteFile(f, b, 0o666); err != nil {
		fmt.Println("note:", err)
	}
}
