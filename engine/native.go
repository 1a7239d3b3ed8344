package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func harnessDir() string { return filepath.Join(verifDir, "harness") }

// selectHarnesses scans the harness sources for directives.
func selectHarnesses(pred func(*Harness) bool) []*Harness {
	var out []*Harness
	files, _ := filepath.Glob(filepath.Join(harnessDir(), "*", "*.go"))
	sort.Strings(files)
	for _, f := range files {
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, h := range harnessesIn(a) {
			h.Pkg = "oureaverif/" + filepath.Base(filepath.Dir(f))
			if pred(h) {
				out = append(out, h)
			}
		}
	}
	return out
}

// groupHarnesses groups harnesses sharing one program load (same package, same overlay variant).
func groupHarnesses(hs []*Harness) [][]*Harness {
	m := map[string][]*Harness{}
	var order []string
	for _, h := range hs {
		k := h.Pkg + "|" + h.Opt["instr"]
		if m[k] == nil {
			order = append(order, k)
		}
		m[k] = append(m[k], h)
	}
	var out [][]*Harness
	for _, k := range order {
		out = append(out, m[k])
	}
	return out
}

// Workspace holds scratch files of one engine run.
type Workspace struct {
	dir   string
	bins  map[string]string
	binEr map[string]error
}

func newWorkspace() *Workspace {
	d, err := ioutil.TempDir("", "oureaverif")
	if err != nil {
		panic(err)
	}
	return &Workspace{dir: d, bins: map[string]string{}, binEr: map[string]error{}}
}

func (w *Workspace) close() { os.RemoveAll(w.dir) }

func (w *Workspace) loadGroup(g []*Harness) (*Loaded, error) {
	dir, err := ioutil.TempDir(w.dir, "load")
	if err != nil {
		return nil, err
	}
	v, err := buildVariant(dir, true, g[0].Opt["instr"])
	if err != nil {
		return nil, err
	}
	return load(harnessDir(), []string{g[0].Pkg}, v)
}

// nativeBin builds the replay binary for a harness package.
// useModel: the same environment models the encoding uses; otherwise the real engines.
func (w *Workspace) nativeBin(pkg string, useModel bool, instr string) (string, error) {
	key := fmt.Sprintf("%s|%v|%s", pkg, useModel, instr)
	if b, ok := w.bins[key]; ok {
		return b, w.binEr[key]
	}
	b, err := w.buildBin(pkg, useModel, instr)
	w.bins[key], w.binEr[key] = b, err
	return b, err
}

func (w *Workspace) buildBin(pkg string, useModel bool, instr string) (string, error) {
	dir, err := ioutil.TempDir(w.dir, "ov")
	if err != nil {
		return "", err
	}
	v, err := buildVariant(dir, useModel, instr)
	if err != nil {
		return "", err
	}
	hs := selectHarnesses(func(h *Harness) bool { return h.Pkg == pkg })
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"oureaverif/sym\"\n\th \"" + pkg + "\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.Name, h.Name)
	}
	sb.WriteString("\t})\n}\n")
	v.Overlay[filepath.Join(harnessDir(), "cmd", "replay", "main.go")] = []byte(sb.String())
	jf, err := writeOverlay(dir, v.Overlay)
	if err != nil {
		return "", err
	}
	out := filepath.Join(dir, "replay")
	cmd := exec.Command("go", append(append([]string{"build"}, v.Flags...), "-overlay", jf, "-o", out, "./cmd/replay")...)
	cmd.Dir = harnessDir()
	cmd.Env = baseEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, b)
	}
	return out, nil
}

type natCase struct {
	Harness string
	Inputs  map[string]uint64
	Tier    int
	Preempt int
}

type natResult struct {
	Status string
	Msg    string
	Obs    []string
}

func (w *Workspace) runNative(bin string, cases []natCase) ([]natResult, error) {
	var all []natResult
	rest := cases
	for len(rest) > 0 {
		dir, err := ioutil.TempDir(w.dir, "run")
		if err != nil {
			return nil, err
		}
		cf, of := filepath.Join(dir, "cases.json"), filepath.Join(dir, "out.json")
		b, _ := json.Marshal(rest)
		ioutil.WriteFile(cf, b, 0o666)
		cmd := exec.Command(bin, cf, of, filepath.Join(dir, "scratch"))
		cmd.Dir = dir
		var eb strings.Builder
		cmd.Stderr, cmd.Stdout = &eb, &eb
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var rerr error
		select {
		case rerr = <-done:
		case <-time.After(time.Duration(60+len(rest)) * time.Second):
			cmd.Process.Kill()
			rerr = fmt.Errorf("replay process timeout")
			<-done
		}
		var rs []natResult
		if ob, e := ioutil.ReadFile(of); e == nil {
			json.Unmarshal(ob, &rs)
		}
		os.RemoveAll(dir)
		if rerr != nil && len(rs) == 0 {
			// a crash of the whole process belongs to the first case when run alone
			if len(rest) == 1 {
				all = append(all, natResult{Status: "crash", Msg: rerr.Error() + ": " + tail(eb.String(), 3000)})
				rest = rest[1:]
				continue
			}
			for _, c := range rest {
				r, err := w.runNative(bin, []natCase{c})
				if err != nil {
					return nil, err
				}
				all = append(all, r...)
			}
			return all, nil
		}
		if len(rs) == 0 {
			return nil, fmt.Errorf("replay produced nothing: %s", tail(eb.String(), 500))
		}
		all = append(all, rs...)
		rest = rest[len(rs):]
	}
	return all, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type ReplayRes struct {
	h         *Harness
	confirmed []Violation
	spurious  []Violation
	validated int
	mismatch  []string
	errs      []string
}

// replayAll runs counterexamples and sampled paths of ex against the compiled code.
func (w *Workspace) replayAll(h *Harness, ex *Explorer, tier int) *ReplayRes {
	res := &ReplayRes{h: h}
	if len(ex.viols) == 0 && len(ex.samples) == 0 {
		return res
	}
	model := h.Opt["native"] == "model"
	bin, err := w.nativeBin(h.Pkg, model, h.Opt["instr"])
	if err != nil {
		res.errs = append(res.errs, err.Error())
		return res
	}
	var cases []natCase
	for _, v := range ex.viols {
		cases = append(cases, natCase{h.Name, v.Inputs, tier, configFor(h, tier).Preempt})
	}
	for _, s := range ex.samples {
		cases = append(cases, natCase{h.Name, s.Inputs, tier, configFor(h, tier).Preempt})
	}
	rs, err := w.runNative(bin, cases)
	if err != nil {
		res.errs = append(res.errs, err.Error())
		return res
	}
	for i, v := range ex.viols {
		r := rs[i]
		v.Output = r.Status + ": " + r.Msg
		ok := false
		switch v.Kind {
		case "assert":
			ok = r.Status == "assert" || r.Status == "panic" || r.Status == "crash"
		case "panic":
			ok = r.Status == "panic" || r.Status == "crash" || r.Status == "assert"
		case "hang":
			ok = r.Status == "timeout" || r.Status == "crash"
		case "deadlock":
			ok = r.Status == "timeout" || r.Status == "panic" && strings.Contains(r.Msg, "deadlock") || r.Status == "crash"
		}
		if ok {
			res.confirmed = append(res.confirmed, v)
		} else {
			res.spurious = append(res.spurious, v)
		}
	}
	for i, s := range ex.samples {
		r := rs[len(ex.viols)+i]
		if r.Status == "ok" && strings.Join(r.Obs, "\n") == strings.Join(s.Obs, "\n") {
			res.validated++
		} else {
			res.mismatch = append(res.mismatch, fmt.Sprintf("%s: native %s %s; obs native %v encoded %v inputs %v", h.Name, r.Status, tail(r.Msg, 1500), r.Obs, s.Obs, s.Inputs))
		}
	}
	return res
}

func (r *ReplayRes) print() {
	fmt.Printf("   native: validated=%d mismatch=%d confirmed=%d spurious=%d errs=%v\n", r.validated, len(r.mismatch), len(r.confirmed), len(r.spurious), r.errs)
	for i, s := range r.mismatch {
		if i < 3 {
			fmt.Println("   MISMATCH", s)
		}
	}
	for i, v := range r.spurious {
		if i < 3 {
			fmt.Printf("   SPURIOUS %s %s: native said %s\n", v.Kind, v.Msg, tail(v.Output, 1000))
		}
	}
	for i, v := range r.confirmed {
		if i < 3 {
			fmt.Printf("   CONFIRMED %s %s: %s\n", v.Kind, v.Msg, tail(v.Output, 400))
		}
	}
}
