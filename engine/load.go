package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one entry point with its directives.
type Harness struct {
	Name  string
	Pkg   string // import path
	Props []string
	Opt   map[string]string
	Fn    *ssa.Function
	Doc   string
}

func (h *Harness) intOpt(name string, tier int, def int) int {
	v, ok := h.Opt[name]
	if !ok {
		return def
	}
	p := strings.SplitN(v, "/", 2)
	s := p[0]
	if tier > 0 && len(p) > 1 {
		s = p[1]
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		panic("bad option " + name + "=" + v + " on " + h.Name)
	}
	return n
}

type Loaded struct {
	prog      *ssa.Program
	harnesses map[string]*Harness
}

var goEnv []string

func baseEnv() []string {
	if goEnv != nil {
		return goEnv
	}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		goEnv = append(goEnv, e)
	}
	goEnv = append(goEnv, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
	return goEnv
}

// load type-checks and builds SSA for the harness packages.
func load(harnessDir string, patterns []string, v *Variant) (*Loaded, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: harnessDir, Overlay: v.Overlay, BuildFlags: v.Flags, Env: baseEnv()}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: prog, harnesses: map[string]*Harness{}}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, h := range harnessesIn(f) {
				h.Pkg = p.PkgPath
				h.Fn = sp.Func(h.Name)
				l.harnesses[h.Name] = h
			}
		}
	}
	return l, nil
}

func harnessesIn(f *ast.File) []*Harness {
	var out []*Harness
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || fd.Recv != nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if !strings.HasPrefix(c.Text, "//verif:harness") {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Opt: map[string]string{}}
			for _, kv := range strings.Fields(c.Text)[1:] {
				p := strings.SplitN(kv, "=", 2)
				if len(p) == 1 {
					h.Opt[p[0]] = "1"
				} else {
					h.Opt[p[0]] = p[1]
				}
			}
			h.Props = strings.Split(h.Opt["props"], ",")
			var doc []string
			for _, c2 := range fd.Doc.List {
				if !strings.HasPrefix(c2.Text, "//verif:") {
					doc = append(doc, strings.TrimSpace(strings.TrimPrefix(c2.Text, "//")))
				}
			}
			h.Doc = strings.Join(doc, " ")
			out = append(out, h)
		}
	}
	return out
}

// writeOverlay stores an overlay as files plus the JSON the go command reads.
func writeOverlay(dir string, overlay map[string][]byte) (string, error) {
	rep := map[string]string{}
	var names []string
	for k := range overlay {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, k := range names {
		f := filepath.Join(dir, fmt.Sprintf("ov%03d_%s", i, filepath.Base(k)))
		if err := ioutil.WriteFile(f, overlay[k], 0o666); err != nil {
			return "", err
		}
		rep[k] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	jf := filepath.Join(dir, "overlay.json")
	return jf, ioutil.WriteFile(jf, b, 0o666)
}
