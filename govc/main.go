package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir     = "/repo"
	execBudget  = 240 * time.Second
	debugPanics = false
)

func loadRepo() (*ssa.Program, []*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir,
		Overlay: map[string][]byte{filepath.Join(repoDir, stdModelDir, "stdmodel.go"): stdModelSrc}}
	pkgs, err := packages.Load(cfg, "./...", "./"+stdModelDir)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	scanTransparent(prog)
	return prog, sp, nil
}

// scanTransparent: external structs whose fields the repository uses directly.
func scanTransparent(prog *ssa.Program) {
	for fn := range ssautil.AllFunctions(prog) {
		p := fn.Pkg
		if p == nil && fn.Parent() != nil {
			p = fn.Parent().Pkg
		}
		if p == nil || !isRepoPkg(p.Pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				switch x := in.(type) {
				case *ssa.FieldAddr:
					t = x.X.Type().Underlying().(*types.Pointer).Elem()
				case *ssa.Field:
					t = x.X.Type()
				default:
					continue
				}
				if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !isRepoPkg(n.Obj().Pkg()) {
					specTransparent[typeName(t)] = true
				}
			}
		}
	}
}

func main() {
	specFile := flag.String("spec", "", "contract file")
	only := flag.String("only", "", "verify only this contract")
	list := flag.Bool("list", false, "list functions")
	dump := flag.String("dump", "", "dump SSA of a function")
	debug := flag.Bool("debug", false, "debug output")
	out := flag.String("out", "", "write the JSON report here")
	worker := flag.Bool("worker", false, "worker mode (one contract)")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.BoolVar(&debugPanics, "panics", false, "let internal panics through")
	bud := flag.Duration("budget", 0, "solver budget per obligation")
	queries := flag.String("queries", "", "write failed queries to this directory")
	flag.Parse()
	_ = worker
	t0 := time.Now()
	prog, sp, err := loadRepo()
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	indexFns(prog)
	indexGoModels(prog)
	if *list {
		for _, k := range sortedKeys(fnIndex) {
			fmt.Println(k)
		}
		return
	}
	if *dump != "" {
		fnIndex[*dump].WriteTo(os.Stdout)
		return
	}
	loadT := time.Since(t0)
	var reps []*FnReport
	var mu sync.Mutex
	mkSpec := func() (s *Spec, err error) {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case fatalErr:
					err = fmt.Errorf("%s", x.msg)
				case specErr:
					err = fmt.Errorf("%s", x.msg)
				default:
					panic(r)
				}
			}
		}()
		s = newSpec(prog)
		common := filepath.Join(filepath.Dir(*specFile), "common.spec")
		if _, e := os.Stat(common); e == nil {
			s.load(common, true)
		}
		s.load(*specFile, true)
		if *bud > 0 {
			s.budget = *bud
		}
		for _, c := range s.contracts {
			c.fn = fnIndex[c.name]
		}
		return
	}
	spec, err := mkSpec()
	if err != nil {
		fmt.Fprintln(os.Stderr, "spec:", err)
		rep := &FnReport{Contract: "*", Status: "unsupported", Why: "specification: " + err.Error()}
		writeReports(*out, []*FnReport{rep}, loadT)
		os.Exit(4)
	}
	base := filepath.Base(*specFile)
	var targets []string
	for _, c := range spec.order {
		if (c.file == base || spec.alsoVerify[c.name]) && !c.trusted && (*only == "" || c.name == *only || strings.Contains(","+*only+",", ","+c.name+",")) {
			targets = append(targets, c.name)
		}
	}
	if *only == "" && len(targets) > 1 {
		// one process per contract: the term tables are not shared
		sem := make(chan struct{}, 6)
		var wg sync.WaitGroup
		for i, t := range targets {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				rs := runWorker(*specFile, t, *bud, *queries)
				mu.Lock()
				for len(reps) < len(targets) {
					reps = append(reps, nil)
				}
				reps[i] = rs
				mu.Unlock()
			}()
		}
		wg.Wait()
	} else {
		for _, t := range targets {
			ex := newExec(prog, spec)
			ex.pkgs = sp
			ex.gFacts = map[*ssa.Global][]*Term{}
			ex.pre = &Prelude{native: spec.native}
			ex.debug = *debug
			r := ex.verify(spec.contracts[t])
			r.SolverStat = map[string][3]int64{}
			for n, s := range stats {
				r.SolverStat[n] = [3]int64{s.calls, s.solved, s.timeNs / 1e6}
			}
			reps = append(reps, r)
		}
	}
	if *queries != "" {
		for _, r := range reps {
			for i, o := range r.Obs {
				if o.Query != "" {
					os.MkdirAll(*queries, 0o755)
					os.WriteFile(filepath.Join(*queries, fmt.Sprintf("%s-%d.smt2", sanitize(r.Contract), i)), []byte(o.Query), 0o644)
				}
			}
		}
	}
	// an event that is reached by no function says nothing: the contract does not describe this code
	if *only == "" {
		for _, h := range spec.hooks {
			hit := h.never()
			for _, r := range reps {
				hit = hit || slices.Contains(r.Fired, h.id()) || h.in == r.Contract && r.Status != "proved"
			}
			if !hit {
				reps = append(reps, &FnReport{Contract: "event " + h.name, Status: "unsupported", Why: "no function under contract reaches this event"})
			}
		}
	}
	writeReports(*out, reps, loadT)
	bad := false
	for _, r := range reps {
		n, f := len(r.Obs), 0
		for _, o := range r.Obs {
			if o.Res != "unsat" {
				f++
			}
		}
		if r.Status != "proved" {
			bad = true
		}
		if *out == "" {
			fmt.Printf("%-45s %-11s obligations %d failed %d paths %d %dms %s\n", r.Contract, r.Status, n, f, r.Paths, r.Ms, r.Why)
			for _, d := range r.Dead {
				fmt.Printf("    never reached: %s\n", d)
			}
			for _, o := range r.Obs {
				if o.Res != "unsat" {
					g := o.Goal
					if len(g) > 600 {
						g = g[:600]
					}
					fmt.Printf("    FAIL %s at %s: %s (%s)\n       %s\n", o.Name, o.Where, o.Res, o.Solver, g)
				}
			}
			if *debug {
				for _, n := range r.Notes {
					fmt.Println("    note:", n)
				}
				fmt.Println("    inlined:", r.Inlined)
				fmt.Println("    models:", r.Models)
			}
		}
	}
	if bad {
		os.Exit(1)
	}
}

func writeReports(out string, reps []*FnReport, load time.Duration) {
	if out == "" {
		return
	}
	b, _ := json.MarshalIndent(map[string]any{"load_ms": load.Milliseconds(), "functions": reps}, "", " ")
	if out == "-" {
		os.Stdout.Write(b)
		return
	}
	os.WriteFile(out, b, 0o644)
}
