package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check PROP quick|thorough | run HARNESS...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "overlay":
		cmdOverlay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func defaultWorkers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func configFor(h *Harness, tier int) *Config {
	c := &Config{Tier: tier, Workers: defaultWorkers(), MaxSteps: h.intOpt("steps", tier, 3000000), MaxDepth: h.intOpt("depth", tier, 400),
		MaxPaths: h.intOpt("paths", tier, 0), MaxConc: h.intOpt("conc", tier, 80), Preempt: h.intOpt("preempt", tier, 2),
		MaxViol: 24, Samples: h.intOpt("samples", tier, 12), SolverTO: h.intOpt("solver", tier, 20000)}
	c.MapOrder = h.Opt["maporder"] != ""
	b := h.intOpt("budget", tier, 0)
	if b == 0 {
		b = 60
		if tier > 0 {
			b = 400
		}
	}
	c.Budget = time.Duration(b) * time.Second
	return c
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	tier := fs.Int("tier", 0, "tier")
	workers := fs.Int("w", 0, "workers")
	prof := fs.String("prof", "", "cpu profile")
	budget := fs.Int("b", 0, "budget seconds")
	dbg := fs.Bool("dbg", false, "engine panics are fatal")
	native := fs.Bool("native", true, "replay natively")
	fs.Parse(args)
	debugPanics = *dbg
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, name := range fs.Args() {
		hs := selectHarnesses(func(h *Harness) bool { return h.Name == name || strings.HasPrefix(h.Name, name) })
		if len(hs) == 0 {
			fmt.Println("no harness", name)
			continue
		}
		for _, g := range groupHarnesses(hs) {
			w := newWorkspace()
			func() {
				defer w.close()
				l, err := w.loadGroup(g)
				if err != nil {
					fmt.Println("load error:", err)
					return
				}
				for _, h := range g {
					lh := l.harnesses[h.Name]
					cfg := configFor(lh, *tier)
					if *workers > 0 {
						cfg.Workers = *workers
					}
					if *budget > 0 {
						cfg.Budget = time.Duration(*budget) * time.Second
					}
					ex := newExplorer(l.prog, lh.Fn, cfg)
					t0 := time.Now()
					ex.run()
					printSummary(ex, time.Since(t0))
					if *native {
						res := w.replayAll(lh, ex, *tier)
						res.print()
					}
				}
			}()
		}
	}
}

func printSummary(ex *Explorer, d time.Duration) {
	fmt.Printf("== %s: paths=%d done=%d infeasible=%d forks=%d asserts=%d discharged=%d queries=%d unknown=%d solver=%.1fs wall=%.1fs steps=%d maxdec=%d funcs=%d\n", ex.harness, ex.paths, ex.done, ex.assumedOut, ex.forks,
		ex.asserts, ex.discharged, ex.queries, ex.unknowns, ex.solverDur.Seconds(), d.Seconds(), ex.steps, ex.maxDecis, len(ex.funcs))
	for _, k := range sortedKeys(ex.incomplete) {
		fmt.Printf("   incomplete x%d: %s\n", ex.incomplete[k], k)
	}
	for _, k := range sortedKeys(ex.notes) {
		fmt.Printf("   note x%d: %s\n", ex.notes[k], k)
	}
	for _, k := range sortedKeys(ex.reached) {
		fmt.Printf("   reached x%d: %s\n", ex.reached[k], k)
	}
	for _, v := range ex.viols {
		var in []string
		for k, x := range v.Inputs {
			in = append(in, fmt.Sprintf("%s=%d", k, x))
		}
		sort.Strings(in)
		if len(in) > 60 {
			in = in[:60]
		}
		fmt.Printf("   CEX %s: %s @ %s\n      %s\n", v.Kind, v.Msg, v.Where, strings.Join(in, " "))
	}
}
