package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type ObReport struct {
	Name   string   `json:"name"`
	Where  string   `json:"where"`
	Res    string   `json:"res"`
	Solver string   `json:"solver"`
	Ms     int64    `json:"ms"`
	Goal   string   `json:"goal,omitempty"`
	Trace  []string `json:"trace,omitempty"`
	Query  string   `json:"query,omitempty"`
}

type FnReport struct {
	Contract   string              `json:"contract"`
	Func       string              `json:"func"`
	Pos        string              `json:"pos"`
	Status     string              `json:"status"` // proved, failed, unsupported
	Why        string              `json:"why,omitempty"`
	Obs        []ObReport          `json:"obligations"`
	Fired      []string            `json:"fired"`
	Paths      int                 `json:"paths"`
	Loops      map[string][]string `json:"loops,omitempty"`
	Notes      []string            `json:"notes,omitempty"`
	Inlined    []string            `json:"inlined,omitempty"`
	Models     []string            `json:"models,omitempty"`
	Used       []string            `json:"used_contracts,omitempty"`
	Ms         int64               `json:"ms"`
	Reachable  bool                `json:"reachable"`
	Dead       []string            `json:"never_reached,omitempty"`
	SolverStat map[string][3]int64 `json:"solver_stat,omitempty"`
}

var fnIndex map[string]*ssa.Function

func indexFns(prog *ssa.Program) {
	fnIndex = map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		p := fn.Pkg
		if p == nil && fn.Parent() != nil {
			p = fn.Parent().Pkg
		}
		if p == nil || !isRepoPkg(p.Pkg) {
			continue
		}
		fnIndex[fnShort(fn)] = fn
	}
}

func newExec(prog *ssa.Program, spec *Spec) *Exec {
	return &Exec{prog: prog, spec: spec, implCache: map[string][]types.Type{}, notes: map[string]int{}, globals: map[*ssa.Global]*Term{}, inlined: map[string]bool{}, used: map[string]string{}, usedContracts: map[string]bool{}, ownPhi: map[*Term]bool{}, racyOf: map[*ssa.Function]map[ssa.Value]bool{}, loopHint: map[string]map[string]bool{}, globalMemo: map[*ssa.Global]*Val{}, fired: map[string]bool{}, seenBlk: map[*ssa.BasicBlock]bool{}}
}

func (ex *Exec) ghostInit(st *State) {
	for _, n := range sortedKeys(ex.spec.ghosts) {
		g := ex.spec.ghosts[n]
		if g.local {
			ls := leavesOf(g.t)
			if g.arr {
				k := "GA|" + n
				st.arr(k, arr(g.ksort, ls[0].sort))
				st.heap[k] = ConstArr(arr(g.ksort, ls[0].sort), zeroTerm(ls[0]))
				continue
			}
			v := zeroVal(g.t)
			if g.init != nil {
				v = (&SpecEnv{ex: ex, st: st, names: map[string]Val{}}).eval(g.init)
				if v.T == untypedNil {
					v = zeroVal(g.t)
				}
			}
			for i, l := range v.L {
				st.heap[ghostKey(n, i)] = l
			}
			continue
		}
		if g.arr {
			continue
		}
		v := ex.freshVal(st, "ghost."+n, g.t)
		for i, l := range v.L {
			st.heap[ghostKey(n, i)] = l
		}
	}
}

// freeCells names the captured variables of a closure.
func freeCells(fn *ssa.Function, free []Val) map[string]Val {
	m := map[string]Val{}
	for i, fv := range fn.FreeVars {
		if isPtr(free[i].T) {
			m[fv.Name()] = free[i]
		}
	}
	return m
}

func (ex *Exec) verify(c *Contract) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Contract: c.name}
	defer func() { rep.Ms = time.Since(t0).Milliseconds() }()
	if c.lem != nil {
		ex.proveLemma(c, rep)
		return
	}
	fn := c.fn
	if fn == nil {
		rep.Status, rep.Why = "unsupported", "the function does not exist"
		return
	}
	rep.Func = fn.String()
	p := ex.prog.Fset.Position(fn.Pos())
	rep.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
	ex.target, ex.targetFn = c, fn
	ex.safety = c.nopanic
	ex.noMerge = c.nomerge
	ex.deadline = time.Now().Add(execBudget)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				rep.Status, rep.Why = "unsupported", x.msg
			case specErr:
				rep.Status, rep.Why = "unsupported", "specification: "+x.msg
			default:
				if debugPanics {
					panic(r)
				}
				rep.Status, rep.Why = "unsupported", fmt.Sprintf("internal: %v", r)
			}
		}
		rep.Paths = ex.paths
		rep.Fired = sortedKeys(ex.fired)
		for n := range ex.notes {
			rep.Notes = append(rep.Notes, n)
		}
		sort.Strings(rep.Notes)
		for n := range ex.inlined {
			rep.Inlined = append(rep.Inlined, n)
		}
		sort.Strings(rep.Inlined)
		for n := range ex.used {
			rep.Models = append(rep.Models, n)
		}
		sort.Strings(rep.Models)
		for n := range ex.usedContracts {
			rep.Used = append(rep.Used, n)
		}
		sort.Strings(rep.Used)
		rep.Loops = map[string][]string{}
		for k, m := range ex.loopHint {
			rep.Loops[k] = sortedKeys(m)
		}
	}()

	st := &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, top: top0}
	st.assume(Ge(top0, Int(0)))
	env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}}
	if fn.Pkg != nil {
		env.pkg = fn.Pkg.Pkg
	} else if fn.Parent() != nil {
		env.pkg = fn.Parent().Pkg.Pkg
	}
	ex.ghostInit(st)
	var args, free []Val
	for i, prm := range fn.Params {
		nm := prm.Name()
		if i < len(c.params) {
			nm = c.params[i]
		}
		args = append(args, ex.freshVal(st, nm, prm.Type()))
	}
	for _, fv := range fn.FreeVars {
		v := ex.freshVal(st, fv.Name(), fv.Type())
		st.assume(Gt(v.L[0], Int(0)))
		free = append(free, v)
	}
	// captured variables are different cells
	for i := range free {
		for j := i + 1; j < len(free); j++ {
			if isPtr(free[i].T) && isPtr(free[j].T) {
				st.assume(Not(Eq(free[i].L[0], free[j].L[0])))
			}
		}
	}
	if fn.Signature.Recv() != nil && isPtr(fn.Signature.Recv().Type()) {
		st.assume(Gt(args[0].L[0], Int(0)))
	}
	for i, fv := range fn.FreeVars {
		if f := capturedFunc(ex, fn, i, free); f != nil {
			_ = fv
			ex.store(st, ex.addrOf(free[i]), *f)
		}
	}
	bindNames(env, c.params, append(append([]Val{}, args...), free...))
	env.cells = freeCells(fn, free)
	ex.setAxioms(c, len(ex.spec.axioms))
	for _, l := range c.lets {
		env.names[l.name] = env.eval(l.e)
	}
	for _, r := range c.requires {
		st.assume(ex.evalBool(env, r))
	}
	entry := st.clone()
	envEntry := *env
	envEntry.st = entry
	ex.topEnv = &envEntry
	// the precondition must be satisfiable
	vac := buildQuery(ex.pre, entry.assumps(), nil, true)
	vacCh := make(chan Verdict, 1)
	go func() { vacCh <- portfolio(vac, 2*time.Second, ex.pre.native) }()

	outs := ex.runFunc(st, fn, args, free)
	reach := false
	var reachQ []string
	for _, o := range outs {
		post := &SpecEnv{ex: ex, st: o.st, old: entry, oldEnv: &envEntry, names: map[string]Val{}, pkg: env.pkg, cells: env.cells}
		for k, v := range envEntry.names {
			post.names[k] = v
		}
		if fn.Signature.Results().Len() > 0 {
			bindNames(post, c.results, tupleVals(o.ret, fn.Signature.Results()))
		}
		for i, e := range c.ensures {
			nm := e.tag
			if nm == "" {
				nm = fmt.Sprint(i + 1)
			}
			t := ex.evalBool(post, e)
			for _, part := range goalParts(t) {
				ex.oblige(o.st, "postcondition "+nm, part, rep.Pos)
			}
		}
		ex.frameCheck(&envEntry, c, o.st)
		if len(reachQ) < 6 {
			reachQ = append(reachQ, buildQuery(ex.pre, o.st.assumps(), nil, true))
		}
	}
	for _, o := range ex.obls {
		<-o.done
	}
	if v := <-vacCh; v.res == "unsat" {
		rep.Status, rep.Why = "unsupported", "the precondition is contradictory"
		return
	}
	for _, q := range reachQ {
		if v := portfolio(q, time.Second, ex.pre.native); v.res != "unsat" {
			reach = true
			break
		}
	}
	rep.Reachable = reach
	if !reach && len(outs) > 0 {
		rep.Status, rep.Why = "unsupported", "no return is reachable under the assumptions (vacuous)"
		return
	}
	for _, b := range fn.Blocks {
		if ex.seenBlk[b] || b == fn.Recover || len(b.Instrs) == 0 {
			continue
		}
		pos := token.NoPos
		for _, in := range b.Instrs {
			if in.Pos() != token.NoPos {
				pos = in.Pos()
				break
			}
		}
		rep.Dead = append(rep.Dead, b.Comment+" "+ex.prog.Fset.Position(pos).String())
	}
	rep.Status = "proved"
	for _, o := range ex.obls {
		or := ObReport{Name: o.name, Where: o.where, Res: o.v.res, Solver: o.v.solver, Ms: o.v.dur.Milliseconds()}
		if o.v.res != "unsat" {
			rep.Status = "failed"
			or.Goal = o.goal.String()
			or.Query = o.v.query
			or.Trace = o.trace
		}
		rep.Obs = append(rep.Obs, or)
	}
	if len(ex.obls) == 0 {
		rep.Status, rep.Why = "unsupported", "no obligation was generated"
	}
	return
}

// goalParts splits a goal into conjuncts (also under implications).
func goalParts(t *Term) []*Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, goalParts(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range goalParts(t.args[1]) {
			out = append(out, Imp(t.args[0], a))
		}
		return out
	}
	return []*Term{t}
}

// frameCheck: memory that existed at entry changed only where the contract says.
func (ex *Exec) frameCheck(env *SpecEnv, c *Contract, st *State) {
	if c.modAll {
		return
	}
	before := len(ex.obls)
	defer func() {
		if len(ex.obls) == before { // every write is one the contract allows
			ex.oblige(st, "frame", tTrue, "")
		}
	}()
	var targets []modTarget
	for _, m := range c.modifies {
		targets = append(targets, ex.modTargets(env, m)...)
	}
	done := map[string]bool{}
	for w := st.writes; w != nil; w = w.prev {
		if strings.HasPrefix(w.arr, "I|") || isIterKey(w.arr) || ex.spec.localGhost(w.arr) || w.since != nil {
			continue
		}
		if strings.HasPrefix(w.arr, "GA|chan") || strings.HasPrefix(w.arr, "GA|ctx") {
			continue
		}
		key := w.arr
		if w.ref != nil {
			key += fmt.Sprint(w.ref.id)
		}
		if done[key] {
			continue
		}
		done[key] = true
		ok := false
		var or []*Term
		for _, t := range targets {
			if t.arr == w.arr {
				if t.ref == nil {
					ok = true
				} else if w.ref != nil {
					or = append(or, Eq(w.ref, t.ref))
				}
			}
		}
		if ok {
			continue
		}
		if w.ref == nil {
			// a whole-array havoc: the old contents must still be there
			if strings.HasPrefix(w.arr, "G|") {
				if st.heap[w.arr] == env.st.heap[w.arr] {
					continue
				}
				ex.oblige(st, "frame", Eq(st.heap[w.arr], env.st.heap[w.arr]), w.arr)
				continue
			}
			q := Sym("fr", SInt)
			a0 := env.st.arr(w.arr, arrSorts[w.arr])
			a1 := st.heap[w.arr]
			lo := int64(0)
			if strings.HasPrefix(w.arr, "E|") { // a nil slice has no elements
				lo = 1
			}
			cond := []*Term{Ge(q, Int(lo)), Le(q, top0)}
			for _, t := range targets {
				if t.arr == w.arr {
					cond = append(cond, Not(Eq(q, t.ref)))
				}
			}
			ex.oblige(st, "frame", Imp(And(cond...), Eq(Select(a1, q), Select(a0, q))), w.arr)
			continue
		}
		if refsDistinctTop(w.ref) {
			continue
		}
		or = append(or, Gt(w.ref, top0))
		if strings.HasPrefix(w.arr, "E|") { // a nil slice has no elements
			or = append(or, Eq(w.ref, Int(0)))
		}
		g := Or(or...)
		// writing back the same value is no change
		if g != tTrue {
			a0 := env.st.arr(w.arr, arrSorts[w.arr])
			a1 := st.heap[w.arr]
			s1 := Select(a1, w.ref)
			if s1 == Select(a0, w.ref) {
				continue
			}
			g = Or(g, Eq(s1, Select(a0, w.ref)))
		}
		ex.oblige(st, "frame", g, w.arr)
	}
}

func refsDistinctTop(r *Term) bool {
	if tt, ok := asTop(r); ok {
		return topLe(linTop{top0, 1}, tt)
	}
	if r.op == "ite" {
		return refsDistinctTop(r.args[1]) && refsDistinctTop(r.args[2])
	}
	return false
}

// ---- globals ----

func (ex *Exec) extGlobal(x *types.Var) Val {
	name := x.Pkg().Name() + "." + x.Name()
	if typeName(x.Type()) == "error" {
		return Val{T: x.Type(), L: []*Term{Int(typeID(errStringT())), Int(globalErrID(name))}}
	}
	v := Val{T: x.Type()}
	for _, l := range leavesOf(x.Type()) {
		if l.role == "ref" {
			v.L = append(v.L, Int(globalErrID(name)))
			continue
		}
		v.L = append(v.L, NamedSym("ext:"+name+"."+l.path, l.sort))
	}
	return v
}

var globalErrIDs = map[string]int64{}

// globalErrID: distinct negative numbers for global objects.
func globalErrID(name string) int64 {
	if id, ok := globalErrIDs[name]; ok {
		return id
	}
	id := int64(-1000000 - len(globalErrIDs))
	globalErrIDs[name] = id
	return id
}

var errStringType types.Type

func errStringT() types.Type {
	if errStringType == nil {
		p := types.NewPackage("errors", "errors")
		errStringType = types.NewPointer(types.NewNamed(types.NewTypeName(0, p, "errorString", nil), types.NewStruct(nil, nil), nil))
	}
	return errStringType
}

func (ex *Exec) globalConst(st *State, g *ssa.Global) (Val, bool) {
	if g.Pkg == nil || !isRepoPkg(g.Pkg.Pkg) {
		if v, ok := g.Object().(*types.Var); ok {
			return ex.extGlobal(v), true
		}
		return Val{}, false
	}
	if m, ok := ex.globalMemo[g]; ok {
		if m == nil {
			return Val{}, false
		}
		ex.globalFacts(st, g)
		return *m, true
	}
	ex.globalMemo[g] = nil
	var init ssa.Value
	for _, p := range ex.pkgs {
		if p == nil {
			continue
		}
		for _, fn := range fnsOfPkg(p) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if x.Addr == ssa.Value(g) && fn.Name() == "init" && init == nil {
								init = x.Val
							} else {
								return Val{}, false
							}
						default:
							return Val{}, false
						}
					}
				}
			}
		}
	}
	if init == nil {
		return Val{}, false
	}
	var facts []*Term
	v, ok := ex.initVal(g, init, &facts)
	if !ok {
		return Val{}, false
	}
	v.T = g.Type().Underlying().(*types.Pointer).Elem()
	ex.globalMemo[g] = &v
	ex.gFacts[g] = facts
	ex.globalFacts(st, g)
	return v, true
}

func (ex *Exec) globalFacts(st *State, g *ssa.Global) {
	for _, f := range ex.gFacts[g] {
		st.assume(f)
	}
}

var pkgFns = map[*ssa.Package][]*ssa.Function{}

func fnsOfPkg(p *ssa.Package) []*ssa.Function {
	if f, ok := pkgFns[p]; ok {
		return f
	}
	if len(pkgFns) == 0 {
		for fn := range ssautil.AllFunctions(p.Prog) {
			q := fn.Pkg
			if q == nil && fn.Parent() != nil {
				q = fn.Parent().Pkg
			}
			if q != nil {
				pkgFns[q] = append(pkgFns[q], fn)
			}
		}
	}
	return pkgFns[p]
}

// initVal evaluates a package initialiser.
func (ex *Exec) initVal(g *ssa.Global, v ssa.Value, facts *[]*Term) (Val, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x), true
	case *ssa.Function:
		return ex.funcVal(x, nil), true
	case *ssa.UnOp:
		if g2, ok := x.X.(*ssa.Global); ok {
			st := &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, top: top0}
			r, ok := ex.globalConst(st, g2)
			if ok {
				*facts = append(*facts, st.assumps()...)
			}
			return r, ok
		}
	case *ssa.BinOp:
		a, ok1 := ex.initVal(g, x.X, facts)
		b, ok2 := ex.initVal(g, x.Y, facts)
		if ok1 && ok2 {
			st := &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, top: top0}
			return ex.binop(st, x.Op, a, b, x.Type(), x), true
		}
	case *ssa.ChangeType:
		return ex.initVal(g, x.X, facts)
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			switch fnKey(fn) {
			case "errors.New":
				return Val{T: x.Type(), L: []*Term{Int(typeID(errStringT())), Int(globalErrID(g.String()))}}, true
			case "regexp.MustCompile":
				a, ok := ex.initVal(g, x.Call.Args[0], facts)
				if ok && isStrC(a.L[0]) {
					return ex.regexVal(x.Type(), a.L[0].sval), true
				}
			case "(*regexp.Regexp).String":
				a, ok := ex.initVal(g, x.Call.Args[0], facts)
				if ok {
					if p, ok := regexOf(a.L[0]); ok {
						return term1(tyString, Str(p)), true
					}
				}
			}
		}
		// an opaque value computed once
		out := Val{T: x.Type()}
		for _, l := range leavesOf(x.Type()) {
			if l.role == "ref" {
				out.L = append(out.L, Int(globalErrID(g.String()+l.path)))
			} else {
				out.L = append(out.L, NamedSym("glob:"+g.String()+"."+l.path, l.sort))
			}
		}
		return out, true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return Val{}, false
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || isByteSlice(x.Type()) {
			return Val{}, false
		}
		ref := Int(globalErrID(g.String() + ".array"))
		el := at.Elem()
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			idx, ok := ia.Index.(*ssa.Const)
			if !ok {
				return Val{}, false
			}
			for _, s := range *ia.Referrers() {
				so, ok := s.(*ssa.Store)
				if !ok {
					return Val{}, false
				}
				ev, ok := ex.initVal(g, so.Val, facts)
				if !ok {
					return Val{}, false
				}
				for i, l := range leavesOf(el) {
					m := NamedSym("h0."+elemKey(el, l.path), arr(SInt, arr(SInt, l.sort)))
					arrSorts[elemKey(el, l.path)] = arr(SInt, arr(SInt, l.sort))
					if _, ok := refBounds[m]; !ok {
						refBounds[m] = linTop{top0, 0}
					}
					*facts = append(*facts, Eq(Select(Select(m, ref), Int(idx.Int64())), ev.L[i]))
				}
			}
		}
		ex.noteAssume("package-level slices are not modified after initialisation")
		return Val{T: x.Type(), L: []*Term{ref, Int(0), Int(at.Len()), Int(at.Len())}}, true
	case *ssa.MakeMap:
		return Val{}, false
	}
	return Val{}, false
}

var _ = ast.NewIdent

// setAxioms sets the axioms for one contract: the first n, without the lemmas
// that come after the contract.
func (ex *Exec) setAxioms(c *Contract, n int) {
	ex.pre.axioms = nil
	later := map[int]bool{}
	mine := false
	for _, o := range ex.spec.order {
		if o == c {
			mine = true
		}
		if mine && o.lem != nil {
			later[o.lem.axiom] = true
		}
	}
	for i, a := range ex.spec.axioms[:n] {
		if later[i] || strings.Contains(a.tag, " "+c.name+" ") {
			continue
		}
		s0 := &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, top: top0}
		t := ex.evalBool(&SpecEnv{ex: ex, st: s0, names: map[string]Val{}}, a)
		ax := &Axiom{name: a.src, body: t, fns: map[string]bool{}}
		fnsOf(t, ax.fns, map[*Term]bool{})
		for f := range ax.fns {
			if strOps[f] != "" {
				delete(ax.fns, f)
			}
		}
		ex.pre.axioms = append(ex.pre.axioms, ax)
	}
}

func (ex *Exec) proveLemma(c *Contract, rep *FnReport) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				rep.Status, rep.Why = "unsupported", x.msg
			case specErr:
				rep.Status, rep.Why = "unsupported", "specification: "+x.msg
			default:
				panic(r)
			}
		}
	}()
	rep.Func, rep.Pos, rep.Reachable, rep.Loops = c.name, c.file, true, map[string][]string{}
	ex.target = c
	ex.setAxioms(c, c.lem.axiom)
	st := &State{heap: map[string]*Term{}, facts: map[*Term]bool{}, top: top0}
	env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}}
	for _, p := range c.lem.params {
		n, t, _ := strings.Cut(p, " ")
		ty := ex.spec.typ(parseE(t))
		v := Val{T: ty}
		for i, l := range leavesOf(ty) {
			v.L = append(v.L, Sym(fmt.Sprintf("%s.%d", n, i), l.sort))
		}
		env.names[n] = v
	}
	cl := Clause{"", c.lem.claim, parseE(c.lem.claim)}
	for i, u := range c.lem.uses {
		for k, l := range env.eval(u).L {
			st.assume(Eq(Sym(fmt.Sprintf("uses%d.%d", i, k), l.sort), l))
		}
	}
	if j := c.lem.by; j != "" {
		at := func(t *Term) *Term { return ex.evalBool(env.with(j, num(t)), cl) }
		n := env.names[j].L[0]
		for _, g := range goalParts(at(Int(0))) {
			ex.oblige(st, "base", g, c.file)
		}
		s2 := st.clone()
		s2.assume(Ge(n, Int(0)))
		s2.assume(at(n))
		for _, g := range goalParts(at(Add(n, Int(1)))) {
			ex.oblige(s2, "step", g, c.file)
		}
	} else {
		for _, g := range goalParts(ex.evalBool(env, cl)) {
			ex.oblige(st, "claim", g, c.file)
		}
	}
	rep.Status = "proved"
	for _, o := range ex.obls {
		<-o.done
		or := ObReport{Name: o.name, Where: o.where, Res: o.v.res, Solver: o.v.solver, Ms: o.v.dur.Milliseconds()}
		if o.v.res != "unsat" {
			rep.Status = "failed"
			or.Goal = o.goal.String()
			or.Query = o.v.query
		}
		rep.Obs = append(rep.Obs, or)
	}
}

// capturedFunc is the function a captured variable holds, if the enclosing function
// sets it once, to a closure, before the closure under verification can run.
func capturedFunc(ex *Exec, fn *ssa.Function, i int, free []Val) *Val {
	par := fn.Parent()
	pt, ok := fn.FreeVars[i].Type().Underlying().(*types.Pointer)
	if par == nil || !ok {
		return nil
	}
	if _, ok := pt.Elem().Underlying().(*types.Signature); !ok {
		return nil
	}
	var mine *ssa.MakeClosure
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if mine != nil {
					return nil
				}
				mine = mc
			}
		}
	}
	if mine == nil {
		return nil
	}
	a, ok := mine.Bindings[i].(*ssa.Alloc)
	if !ok {
		return nil
	}
	var set *ssa.Store
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || set != nil {
				return nil
			}
			set = x
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for k, bd := range x.Bindings {
				if bd == a && storesFree(x.Fn.(*ssa.Function), k, 0) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	if set == nil {
		return nil
	}
	mc, ok := set.Val.(*ssa.MakeClosure)
	if !ok {
		return nil
	}
	if mc == mine { // used only through the variable
		for _, r := range *mc.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); r != ssa.Instruction(set) && !dbg {
				return nil
			}
		}
		v := ex.funcVal(fn, free)
		return &v
	}
	// set after this closure was made, it could still be nil when called: that would panic
	if !(set.Block() != mine.Block() && set.Block().Dominates(mine.Block()) || set.Block() == mine.Block() && instrIndex(set) < instrIndex(mine)) &&
		(ex.target == nil || ex.target.nopanic) {
		return nil
	}
	var bind []Val
	for _, bd := range mc.Bindings {
		k := -1
		for j, mb := range mine.Bindings {
			if mb == bd {
				k = j
			}
		}
		if k < 0 {
			return nil
		}
		bind = append(bind, free[k])
	}
	v := ex.funcVal(mc.Fn.(*ssa.Function), bind)
	return &v
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}
