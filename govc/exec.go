package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	fired     map[string]bool // hooks that were reached
	prog      *ssa.Program
	pkgs      []*ssa.Package
	pre       *Prelude
	spec      *Spec
	implCache map[string][]types.Type

	// current verification target
	target        *Contract
	targetFn      *ssa.Function
	topEnv        *SpecEnv // contract names of the target
	dry           int
	obls          []*Obligation
	paths         int
	steps         int
	deadline      time.Time
	loopHint      map[string]map[string]bool
	notes         map[string]int // assumptions made on the way
	globals       map[*ssa.Global]*Term
	inlined       map[string]bool
	used          map[string]string
	usedContracts map[string]bool
	ownPhi        map[*Term]bool
	undecided     int64
	targetFr      *Frame // the frame of the function under verification that ran last
	racyOf        map[*ssa.Function]map[ssa.Value]bool
	globalMemo    map[*ssa.Global]*Val
	gFacts        map[*ssa.Global][]*Term
	pendTrig      []*Term
	pendUsed      bool
	ownTrig       []*Term
	noMerge       bool
	debug         bool
	discover      int
	seenBlk       map[*ssa.BasicBlock]bool
	safety        bool
	callStack     []*ssa.Function
}

type Obligation struct {
	name    string
	props   []string
	assumps []*Term
	goal    *Term
	where   string
	trace   []string
	done    chan struct{}
	v       Verdict
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	instr ssa.Instruction
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	unroll bool
	count  int
	onBack func(fr *Frame, st *State, from *ssa.BasicBlock)
	dry    bool
	n      *Term
	iters  []string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  []*loopCtx
	joins  []*joinCtx
	depth  int
	k      func(*State, Val)
	pairs  map[ssa.Value]*Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = append([]*loopCtx(nil), f.loops...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type Outcome struct {
	st  *State
	ret Val
}

func (ex *Exec) noteAssume(f string, a ...any) {
	ex.notes[fmt.Sprintf(f, a...)]++
}

// ---- function execution ----

// runFunc executes fn's body with args and returns all outcomes.
func (ex *Exec) runFunc(st *State, fn *ssa.Function, args []Val, free []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	for _, f := range ex.callStack {
		if f == fn {
			unsup("recursion through %s without a contract", fn)
		}
	}
	if len(ex.callStack) > 25 {
		unsup("call depth")
	}
	ex.callStack = append(ex.callStack, fn)
	defer func() { ex.callStack = ex.callStack[:len(ex.callStack)-1] }()
	var outs []Outcome
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, depth: len(ex.callStack)}
	for i, p := range fn.Params {
		fr.env[p] = coerce(args[i], p.Type())
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	fr.k = func(s *State, v Val) { outs = append(outs, Outcome{s, v}) }
	// closures run later than the enclosing runFunc call must see the right stack
	ex.exec(fr, st, fn.Blocks[0], 0)
	return outs
}

func coerce(v Val, t types.Type) Val {
	v.T = t
	return v
}

func (ex *Exec) budget(st *State) {
	ex.steps++
	if ex.steps%256 == 0 && time.Now().After(ex.deadline) {
		unsup("time budget for symbolic execution exceeded")
	}
}

func (ex *Exec) exec(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	ex.seenBlk[b] = true
	for ; i < len(b.Instrs); i++ {
		ex.budget(st)
		if fr.fn == ex.targetFn {
			ex.targetFr = fr
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
			continue // set by jump
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			ex.jump(fr, st, b, b.Succs[0])
			return
		case *ssa.If:
			c := ex.val(fr, st, in.Cond).L[0]
			if ex.target != nil && ex.target.joins && ex.dry == 0 && !isBoolC(c) && !st.facts[c] && !st.facts[Not(c)] {
				if p := meet(fr, b); p != nil {
					ex.execJoin(fr, st, b, p, c)
					return
				}
			}
			ex.branch(st, c, func(s *State, v bool, last bool) {
				f := fr
				if !last {
					f = fr.clone()
				}
				if v {
					ex.jump(f, s, b, b.Succs[0])
				} else {
					ex.jump(f, s, b, b.Succs[1])
				}
			})
			return
		case *ssa.Return:
			v := ex.retVal(fr, st, in)
			fr.k(st, v)
			return
		case *ssa.Panic:
			ex.panicAt(st, in, "explicit panic")
			return
		case *ssa.RunDefers:
			ex.runDefers(fr, st, func(f *Frame, s *State) { ex.exec(f, s, b, i+1) })
			return
		case *ssa.Call:
			outs := ex.call(fr, st, in, &in.Call)
			ex.contOuts(fr, outs, in, b, i+1)
			return
		case *ssa.TypeAssert, *ssa.Select, *ssa.Next, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Lookup, *ssa.Convert, *ssa.UnOp:
			outs := ex.multi(fr, st, b.Instrs[i])
			if len(outs) == 1 {
				st = outs[0].st
				fr.env[b.Instrs[i].(ssa.Value)] = outs[0].ret
				continue
			}
			ex.contOuts(fr, outs, b.Instrs[i].(ssa.Value), b, i+1)
			return
		case *ssa.Go:
			ex.goStmt(fr, st, in)
		case *ssa.Defer:
			d := deferred{call: &in.Call, instr: in}
			if in.Call.IsInvoke() || staticCallee(&in.Call) == nil {
				d.fn = ex.val(fr, st, in.Call.Value)
			}
			if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				d.fn = ex.val(fr, st, mc)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, ex.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		default:
			ex.simple(fr, st, b.Instrs[i])
		}
	}
}

func (ex *Exec) contOuts(fr *Frame, outs []Outcome, v ssa.Value, b *ssa.BasicBlock, i int) {
	for n, o := range outs {
		f := fr
		if n < len(outs)-1 {
			f = fr.clone()
		}
		f.env[v] = o.ret
		ex.exec(f, o.st, b, i)
	}
}

func (ex *Exec) retVal(fr *Frame, st *State, in *ssa.Return) Val {
	res := fr.fn.Signature.Results()
	if len(in.Results) == 1 {
		v := ex.val(fr, st, in.Results[0])
		return v
	}
	out := Val{T: res}
	var as []*Addr
	for _, r := range in.Results {
		v := ex.val(fr, st, r)
		if v.A != nil {
			unsup("interior pointer in a result tuple")
		}
		as = append(as, v.A)
		out.L = append(out.L, v.L...)
	}
	return out
}

func (ex *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	outs := ex.callVals(fr, st, d.instr, d.call, d.fn, d.args)
	for n, o := range outs {
		f := fr
		if n < len(outs)-1 {
			f = fr.clone()
		}
		ex.runDefers(f, o.st, k)
	}
}

// branch splits on c.
func (ex *Exec) branch(st *State, c *Term, k func(s *State, v bool, last bool)) {
	if c == tTrue || st.facts[c] {
		k(st, true, true)
		return
	}
	if c == tFalse || st.facts[Not(c)] {
		k(st, false, true)
		return
	}
	as := st.assumps()
	ft := feasible(ex.pre, as, c)
	ff := feasible(ex.pre, as, Not(c))
	if ft && ff {
		ex.paths++
		if ex.paths > 20000 {
			unsup("too many paths")
		}
		s2 := st.clone()
		st.assume(c)
		s2.assume(Not(c))
		k(st, true, false)
		k(s2, false, true)
		return
	}
	if ft {
		st.assume(c)
		k(st, true, true)
	} else if ff {
		st.assume(Not(c))
		k(st, false, true)
	}
}

func (ex *Exec) split(st *State, c *Term) (*State, *State) {
	var a, b *State
	ex.branch(st, c, func(s *State, v bool, last bool) {
		if v {
			a = s
		} else {
			b = s
		}
	})
	return a, b
}

func (ex *Exec) pos(in ssa.Instruction) string {
	p := ex.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return in.Parent().String()
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
}

func (ex *Exec) panicAt(st *State, in ssa.Instruction, what string) {
	if ex.safety {
		ex.oblige(st, "no-panic", tFalse, ex.pos(in)+": "+what)
	}
}

// need records a safety condition: checked when the contract asks for it, else assumed.
func (ex *Exec) need(st *State, in ssa.Instruction, c *Term, what string) {
	if c == tTrue {
		return
	}
	if ex.safety {
		ex.oblige(st, "no-panic", c, ex.pos(in)+": "+what)
	} else {
		ex.noteAssume("no run-time panic is considered outside contracts marked nopanic")
	}
	st.assume(c)
}

// obGate bounds how many obligations are with the solvers at once.
var obGate = make(chan struct{}, 16)

func (ex *Exec) oblige(st *State, name string, goal *Term, where string) {
	if ex.dry > 0 {
		return
	}
	o := &Obligation{name: name, assumps: st.assumps(), goal: goal, where: where, trace: st.traceStrings(), done: make(chan struct{})}
	ex.obls = append(ex.obls, o)
	if goal == tTrue {
		o.v = Verdict{res: "unsat", solver: "simplifier"}
		close(o.done)
		return
	}
	for _, a := range o.assumps {
		if a == tFalse || a == goal {
			o.v = Verdict{res: "unsat", solver: "simplifier"}
			close(o.done)
			return
		}
	}
	q := buildQuery(ex.pre, o.assumps, goal, true)
	if v, ok := queryMemo.Load(q); ok {
		o.v = v.(Verdict)
		close(o.done)
		return
	}
	native := ex.pre.native
	budget := ex.spec.budget
	go func() {
		defer close(o.done)
		obGate <- struct{}{}
		defer func() { <-obGate }()
		b := budget
		if atomic.LoadInt64(&ex.undecided) >= 3 && b > 2*time.Second { // it fails anyway
			b = 2 * time.Second
		}
		o.v = portfolio(q, b, native)
		if o.v.res != "unsat" {
			atomic.AddInt64(&ex.undecided, 1)
		} else {
			queryMemo.Store(q, o.v)
		}
	}()
}

// proveNow decides a goal synchronously (used for candidate invariants).
func (ex *Exec) proveNow(st *State, goal *Term, budget time.Duration) bool {
	if goal == tTrue || st.facts[goal] {
		return true
	}
	return prove(ex.pre, st.assumps(), goal, budget).res == "unsat"
}

// ---- values ----

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return ex.funcVal(x, nil)
	case *ssa.Global:
		return Val{T: x.Type(), L: []*Term{ex.globalRef(x)}}
	case *ssa.Builtin:
		return Val{T: x.Type(), X: x}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return term1(t, Bool(constant.BoolVal(c.Value)))
		case b.Info()&types.IsString != 0:
			return term1(t, Str(constant.StringVal(c.Value)))
		case b.Info()&types.IsInteger != 0:
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			return term1(t, Int(n))
		default:
			return term1(t, NamedSym("const:"+c.Value.ExactString(), SInt))
		}
	}
	unsup("constant %s", c)
	return Val{}
}

type closure struct {
	fn   *ssa.Function
	bind []Val
	bi   *ssa.Builtin
}

var (
	funcTab  = map[int64]*closure{}
	funcIDs  = map[*ssa.Function]int64{}
	funcNext = int64(1000000)
)

func (ex *Exec) funcVal(fn *ssa.Function, bind []Val) Val {
	if bind == nil {
		if id, ok := funcIDs[fn]; ok {
			return term1(fn.Signature, Int(id))
		}
	}
	funcNext++
	funcTab[funcNext] = &closure{fn: fn, bind: bind}
	if bind == nil {
		funcIDs[fn] = funcNext
	}
	return term1(fn.Signature, Int(funcNext))
}

var globalSeq int64

func (ex *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := ex.globals[g]; ok {
		return t
	}
	globalSeq++
	t := Int(-globalSeq) // globals live below every heap reference
	ex.globals[g] = t
	return t
}

func (ex *Exec) addrOf(v Val) *Addr {
	if v.A != nil {
		return v.A
	}
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		unsup("address of %s", v.T)
	}
	el := p.Elem()
	return &Addr{ref: v.L[0], owner: el, t: el}
}

// globalOf returns the global a constant reference denotes.
func (ex *Exec) globalOf(ref *Term) *ssa.Global {
	if ref.op != "int" || ref.ival >= 0 {
		return nil
	}
	for g, t := range ex.globals {
		if t == ref {
			return g
		}
	}
	return nil
}

func (ex *Exec) nilCheck(st *State, in ssa.Instruction, v Val) {
	if v.A != nil {
		return
	}
	t := v.L[0]
	if t.op == "int" && t.ival != 0 || isTopRef(t) {
		return
	}
	ex.need(st, in, Not(Eq(t, Int(0))), "nil dereference")
}

func (ex *Exec) simple(fr *Frame, st *State, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		ref := st.newRef()
		v := Val{T: in.Type(), L: []*Term{ref}}
		if at, ok := el.Underlying().(*types.Array); ok {
			// arrays live in element memory
			for _, l := range leavesOf(at.Elem()) {
				k := elemKey(at.Elem(), l.path)
				m := st.arr(k, arr(SInt, arr(SInt, l.sort)))
				st.heap[k] = Store(m, ref, ConstArr(arr(SInt, l.sort), zeroTerm(l)))
				st.write(k, ref)
			}
		} else {
			ex.store(st, ex.addrOf(v), zeroVal(el))
			if typeName(el) == "sync.Once" {
				ex.setGhostArr(st, "oncedone", ref, tFalse)
			}
		}
		fr.env[in] = v
	case *ssa.Store:
		p := ex.val(fr, st, in.Addr)
		ex.nilCheck(st, in, p)
		v := ex.val(fr, st, in.Val)
		a := ex.addrOf(p)
		if _, ok := a.t.Underlying().(*types.Array); ok && !a.elem {
			ex.storeArray(st, a, v)
			return
		}
		ex.store(st, a, v)
	case *ssa.FieldAddr:
		p := ex.val(fr, st, in.X)
		ex.nilCheck(st, in, p)
		fr.env[in] = ex.fieldAddr(p, in.Field, in.Type())
	case *ssa.Field:
		s := ex.val(fr, st, in.X)
		lo, hi := fieldRange(in.X.Type(), in.Field)
		fr.env[in] = Val{T: in.Type(), L: s.L[lo:hi]}
	case *ssa.Extract:
		tv := ex.val(fr, st, in.Tuple)
		if mv, ok := tv.X.([]Val); ok {
			fr.env[in] = mv[in.Index]
			return
		}
		lo, hi := tupleRange(in.Tuple.Type().(*types.Tuple), in.Index)
		fr.env[in] = Val{T: in.Type(), L: tv.L[lo:hi]}
	case *ssa.BinOp:
		fr.env[in] = ex.binop(st, in.Op, ex.val(fr, st, in.X), ex.val(fr, st, in.Y), in.Type(), in)
	case *ssa.ChangeType:
		v := ex.val(fr, st, in.X)
		v.T = in.Type()
		fr.env[in] = v
	case *ssa.ChangeInterface:
		v := ex.val(fr, st, in.X)
		v.T = in.Type()
		fr.env[in] = v
	case *ssa.MakeInterface:
		fr.env[in] = ex.makeIface(st, ex.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, ex.val(fr, st, b))
		}
		v := ex.funcVal(in.Fn.(*ssa.Function), append([]Val{}, bind...))
		v.T = in.Type()
		fr.env[in] = v
	case *ssa.MakeMap:
		fr.env[in] = term1(in.Type(), ex.newMap(st, in.Type()))
	case *ssa.MakeChan:
		ref := st.newRef()
		sz := ex.val(fr, st, in.Size).L[0]
		ex.setGhostArr(st, "chancap", ref, sz)
		fr.env[in] = term1(in.Type(), ref)
	case *ssa.MakeSlice:
		ln := ex.val(fr, st, in.Len).L[0]
		cp := ex.val(fr, st, in.Cap).L[0]
		ex.need(st, in, Ge(ln, Int(0)), "negative make length")
		if isByteSlice(in.Type()) {
			v := ex.freshVal(st, "bytes", in.Type())
			v.L[1] = st.newRef()
			st.assume(Eq(StrLen(v.L[0]), ln))
			if ln.op == "int" && ln.ival == 0 {
				v.L[0] = Str("")
			}
			fr.env[in] = v
			return
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		ref := st.newRef()
		for _, l := range leavesOf(el) {
			k := elemKey(el, l.path)
			m := st.arr(k, arr(SInt, arr(SInt, l.sort)))
			st.heap[k] = Store(m, ref, ConstArr(arr(SInt, l.sort), zeroTerm(l)))
			st.write(k, ref)
		}
		fr.env[in] = Val{T: in.Type(), L: []*Term{ref, Int(0), ln, cp}}
	case *ssa.MapUpdate:
		m := ex.val(fr, st, in.Map)
		ex.nilCheck(st, in, m)
		k := ex.val(fr, st, in.Key)
		ex.mapSet(st, in.Map.Type(), m.L[0], k.L[0], ex.val(fr, st, in.Value))
	case *ssa.Range:
		fr.env[in] = ex.rangeInit(fr, st, in)
	case *ssa.Send:
		ex.chanEvent(fr, st, in, "send", ex.val(fr, st, in.Chan), ex.val(fr, st, in.X))
	default:
		unsup("instruction %T at %s", instr, ex.pos(instr))
	}
}

func (ex *Exec) storeArray(st *State, a *Addr, v Val) {
	at := a.t.Underlying().(*types.Array)
	el := at.Elem()
	n := len(leavesOf(el))
	for i := 0; i < int(at.Len()); i++ {
		ex.store(st, &Addr{ref: a.ref, owner: el, elem: true, idx: Int(int64(i)), t: el}, Val{T: el, L: v.L[i*n : (i+1)*n]})
	}
}

func (ex *Exec) fieldAddr(p Val, field int, rt types.Type) Val {
	base := ex.addrOf(p)
	s := structOf(base.t)
	if s == nil {
		unsup("field of opaque struct %s", typeName(base.t))
	}
	f := s.Field(field)
	lo, _ := fieldRange(base.t, field)
	path := f.Name()
	if base.path != "" {
		path = base.path + "." + path
	}
	na := *base
	na.path = path
	na.lo = base.lo + lo
	na.t = f.Type()
	args := []*Term{base.ref}
	if base.idx != nil {
		args = append(args, base.idx)
	}
	return Val{T: rt, L: []*Term{App("addr:"+shortType(base.owner)+"."+path, SInt, args...)}, A: &na}
}

func (ex *Exec) makeIface(st *State, v Val, dt, it types.Type) Val {
	if types.IsInterface(dt) {
		v.T = it
		return v
	}
	tag := Int(typeID(dt))
	if v.A != nil { // an interior pointer stays known as one while it is handed on
		r := ex.freshVal(st, "inner", dt)
		st.assume(Gt(r.L[0], Int(0)))
		return Val{T: it, L: []*Term{tag, r.L[0]}, A: v.A}
	}
	return Val{T: it, L: []*Term{tag, ex.box(st, v, dt)}}
}

func boxKey(t types.Type) string { return typeName(types.Unalias(t)) }

func (ex *Exec) box(st *State, v Val, dt types.Type) *Term {
	if v.A != nil {
		unsup("interior pointer boxed into an interface")
	}
	switch dt.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return v.L[0]
	}
	ls := leavesOf(dt)
	if len(ls) == 0 {
		return Int(0)
	}
	// boxing what was just unboxed: a box holds nothing but its value
	var whole *Term
	for i, l := range ls {
		t := v.L[i]
		if t.op != "unbox|"+boxKey(dt)+"|"+l.path || len(t.args) != 1 || whole != nil && t.args[0] != whole {
			whole = nil
			break
		}
		whole = t.args[0]
	}
	if whole != nil {
		return whole
	}
	// unboxing what was just boxed
	bx := App("box|"+boxKey(dt), SInt, v.L...)
	for _, t := range v.L {
		if freeQV(t, nil) { // under a quantifier: for every value
			var qs []*Term
			for _, l := range ls {
				qs = append(qs, QVar("b", l.sort))
			}
			g := App("box|"+boxKey(dt), SInt, qs...)
			var cj []*Term
			for i, l := range ls {
				cj = append(cj, App("=", SBool, App("unbox|"+boxKey(dt)+"|"+l.path, l.sort, g), qs[i]))
			}
			st.assume(Forall(qs, And(cj...), []*Term{g}))
			return bx
		}
	}
	for i, l := range ls {
		st.assume(mk(Term{op: "=", sort: SBool, args: []*Term{App("unbox|"+boxKey(dt)+"|"+l.path, l.sort, bx), v.L[i]}}))
	}
	return bx
}

func (ex *Exec) unbox(st *State, pay *Term, dt types.Type) Val {
	switch dt.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		v := term1(dt, pay)
		ex.wf(st, v)
		return v
	}
	ls := leavesOf(dt)
	v := Val{T: dt, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = unboxLeaf(pay, dt, i, l)
	}
	ex.wf(st, v)
	return v
}

func unboxLeaf(pay *Term, dt types.Type, i int, l Leaf) *Term {
	if pay.op == "box|"+boxKey(dt) {
		return pay.args[i]
	}
	if pay.op == "ite" {
		a, b := unboxLeaf(pay.args[1], dt, i, l), unboxLeaf(pay.args[2], dt, i, l)
		return Ite(pay.args[0], a, b)
	}
	return App("unbox|"+boxKey(dt)+"|"+l.path, l.sort, pay)
}

func eqVals(a, b Val) *Term {
	var as []*Term
	for i := range a.L {
		as = append(as, Eq(a.L[i], b.L[i]))
	}
	return And(as...)
}

func (ex *Exec) equal(st *State, x, y Val) *Term {
	_, xi := x.T.Underlying().(*types.Interface)
	_, yi := y.T.Underlying().(*types.Interface)
	if xi != yi {
		if xi {
			y = ex.makeIface(st, y, y.T, x.T)
		} else {
			x = ex.makeIface(st, x, x.T, y.T)
		}
	}
	if isByteSlice(x.T) { // only nil comparisons
		return Eq(x.L[1], y.L[1])
	}
	if _, ok := x.T.Underlying().(*types.Slice); ok {
		return Eq(x.L[0], y.L[0])
	}
	if isPtr(x.T) && (x.A != nil || y.A != nil) {
		if x.A != nil && y.L[0].op == "int" || y.A != nil && x.L[0].op == "int" {
			return tFalse
		}
	}
	return eqVals(x, y)
}

func (ex *Exec) binop(st *State, op token.Token, x, y Val, t types.Type, in ssa.Instruction) Val {
	b := func(t0 *Term) Val { return term1(t, t0) }
	switch op {
	case token.EQL:
		return b(ex.equal(st, x, y))
	case token.NEQ:
		return b(Not(ex.equal(st, x, y)))
	}
	xb, _ := x.T.Underlying().(*types.Basic)
	if xb == nil {
		unsup("binop %s on %s", op, x.T)
	}
	a, c := x.L[0], y.L[0]
	switch {
	case xb.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return b(Concat(a, c))
		case token.LSS:
			return b(strLt(a, c))
		case token.GTR:
			return b(strLt(c, a))
		case token.LEQ:
			return b(Not(strLt(c, a)))
		case token.GEQ:
			return b(Not(strLt(a, c)))
		}
	case xb.Info()&types.IsInteger != 0:
		switch op {
		case token.ADD:
			return b(Add(a, c))
		case token.SUB:
			return b(Sub(a, c))
		case token.MUL:
			return b(Mul(a, c))
		case token.QUO:
			return b(quo(a, c))
		case token.REM:
			return b(rem(a, c))
		case token.LSS:
			return b(Lt(a, c))
		case token.LEQ:
			return b(Le(a, c))
		case token.GTR:
			return b(Lt(c, a))
		case token.GEQ:
			return b(Le(c, a))
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			ex.noteAssume("bit operations on integers are uninterpreted")
			return b(App("bit:"+op.String(), SInt, a, c))
		}
	case xb.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND:
			return b(And(a, c))
		case token.OR:
			return b(Or(a, c))
		}
	case xb.Info()&types.IsFloat != 0:
		s := SInt
		if t.Underlying().(*types.Basic).Info()&types.IsBoolean != 0 {
			s = SBool
		}
		return b(App("float:"+op.String(), s, a, c))
	}
	unsup("binop %s on %s", op, x.T)
	return Val{}
}

func strLt(a, b *Term) *Term {
	if isStrC(a) && isStrC(b) {
		return Bool(a.sval < b.sval)
	}
	return App("strlt", SBool, a, b)
}

// Go division truncates towards zero.
func quo(a, c *Term) *Term {
	if a.op == "int" && c.op == "int" && c.ival != 0 {
		return Int(a.ival / c.ival)
	}
	pos := App("div", SInt, a, c)
	neg := Sub(Int(0), App("div", SInt, Sub(Int(0), a), c))
	return Ite(Ge(a, Int(0)), pos, neg)
}
func multipleOf(a, c *Term) bool {
	if c.op != "int" || c.ival == 0 {
		return false
	}
	switch a.op {
	case "int":
		return a.ival%c.ival == 0
	case "*":
		return multipleOf(a.args[0], c) || multipleOf(a.args[1], c)
	case "+", "-":
		for _, x := range a.args {
			if !multipleOf(x, c) {
				return false
			}
		}
		return true
	}
	return false
}

func rem(a, c *Term) *Term {
	if a.op == "int" && c.op == "int" && c.ival != 0 {
		return Int(a.ival % c.ival)
	}
	if multipleOf(a, c) {
		return Int(0)
	}
	pos := App("mod", SInt, a, c)
	neg := Sub(Int(0), App("mod", SInt, Sub(Int(0), a), c))
	return Ite(Ge(a, Int(0)), pos, neg)
}

// multi executes instructions that may need several outcomes or add assumptions.
func (ex *Exec) multi(fr *Frame, st *State, instr ssa.Instruction) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{st, v}} }
	switch in := instr.(type) {
	case *ssa.UnOp:
		x := ex.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok {
				if v, ok := ex.globalConst(st, g); ok {
					return one(v)
				}
			}
			ex.nilCheck(st, in, x)
			a := ex.addrOf(x)
			if at, ok := a.t.Underlying().(*types.Array); ok && !a.elem && a.path == "" {
				v := Val{T: a.t}
				for i := 0; i < int(at.Len()); i++ {
					v.L = append(v.L, ex.load(st, &Addr{ref: a.ref, owner: at.Elem(), elem: true, idx: Int(int64(i)), t: at.Elem()}).L...)
				}
				return one(v)
			}
			if ex.racyLoad(in) {
				return one(ex.freshVal(st, "racy", in.Type()))
			}
			v := ex.load(st, a)
			v.T = in.Type()
			return one(v)
		case token.NOT:
			return one(term1(in.Type(), Not(x.L[0])))
		case token.SUB:
			return one(term1(in.Type(), Sub(Int(0), x.L[0])))
		case token.XOR:
			return one(term1(in.Type(), App("bit:not", SInt, x.L[0])))
		case token.ARROW:
			return ex.recv(fr, st, in, x, in.CommaOk)
		}
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, st, in)
	case *ssa.IndexAddr:
		x := ex.val(fr, st, in.X)
		i := ex.val(fr, st, in.Index).L[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			if isByteSlice(in.X.Type()) {
				ex.need(st, in, And(Ge(i, Int(0)), Lt(i, StrLen(x.L[0]))), "index out of range")
				return one(Val{T: in.Type(), L: []*Term{Int(1)}, A: &Addr{ref: x.L[1], owner: tyByteSl, elem: true, idx: i, path: "byteat", t: u.Elem()}, X: x.L[0]})
			}
			ex.need(st, in, And(Ge(i, Int(0)), Lt(i, x.L[2])), "index out of range")
			return one(elemPtr(in.Type(), x, i, u.Elem()))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a := ex.addrOf(x)
			if a.path != "" || a.elem {
				unsup("array inside an object")
			}
			ex.need(st, in, And(Ge(i, Int(0)), Lt(i, Int(at.Len()))), "index out of range")
			return one(Val{T: in.Type(), L: []*Term{App("addr:elem", SInt, a.ref, i)}, A: &Addr{ref: a.ref, owner: at.Elem(), elem: true, idx: i, t: at.Elem()}})
		}
		unsup("IndexAddr on %s", in.X.Type())
	case *ssa.Index:
		x := ex.val(fr, st, in.X)
		i := ex.val(fr, st, in.Index).L[0]
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			ex.need(st, in, And(Ge(i, Int(0)), Lt(i, StrLen(x.L[0]))), "index out of range")
			return one(ex.byteAt(st, x.L[0], i, in.Type()))
		}
		if at, ok := in.X.Type().Underlying().(*types.Array); ok && i.op == "int" {
			n := len(leavesOf(at.Elem()))
			return one(Val{T: in.Type(), L: x.L[int(i.ival)*n : (int(i.ival)+1)*n]})
		}
		unsup("Index on %s", in.X.Type())
	case *ssa.Slice:
		return one(ex.sliceOp(fr, st, in))
	case *ssa.Lookup:
		x := ex.val(fr, st, in.X)
		k := ex.val(fr, st, in.Index)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i := k.L[0]
			ex.need(st, in, And(Ge(i, Int(0)), Lt(i, StrLen(x.L[0]))), "index out of range")
			return one(ex.byteAt(st, x.L[0], i, in.Type()))
		}
		v, has := ex.mapGet(st, in.X.Type(), x.L[0], k.L[0])
		if in.CommaOk {
			return one(Val{T: in.Type(), L: append(append([]*Term{}, v.L...), has)})
		}
		v.T = in.Type()
		return one(v)
	case *ssa.Convert:
		return one(ex.convert(st, ex.val(fr, st, in.X), in.X.Type(), in.Type()))
	case *ssa.Next:
		return ex.next(fr, st, in)
	case *ssa.Select:
		return ex.selectStmt(fr, st, in)
	}
	unsup("instruction %T at %s", instr, ex.pos(instr))
	return nil
}

func elemPtr(t types.Type, sl Val, i *Term, el types.Type) Val {
	idx := Add(sl.L[1], i)
	return Val{T: t, L: []*Term{App("addr:elem", SInt, sl.L[0], idx)}, A: &Addr{ref: sl.L[0], owner: el, elem: true, idx: idx, t: el}}
}

func (ex *Exec) byteAt(st *State, s, i *Term, t types.Type) Val {
	if isStrC(s) && i.op == "int" && i.ival >= 0 && int(i.ival) < len(s.sval) {
		return term1(t, Int(int64(s.sval[i.ival])))
	}
	b := App("byteat", SInt, s, i)
	st.assume(Ge(b, Int(0)), Le(b, Int(255)))
	return term1(t, b)
}

func (ex *Exec) sliceOp(fr *Frame, st *State, in *ssa.Slice) Val {
	x := ex.val(fr, st, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.val(fr, st, v).L[0]
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		lo := get(in.Low, Int(0))
		hi := get(in.High, StrLen(x.L[0]))
		ex.need(st, in, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, StrLen(x.L[0]))), "slice bounds out of range")
		return term1(in.Type(), substr(st, x.L[0], lo, hi))
	case *types.Slice:
		if isByteSlice(in.X.Type()) {
			lo := get(in.Low, Int(0))
			hi := get(in.High, StrLen(x.L[0]))
			ex.need(st, in, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, StrLen(x.L[0]))), "slice bounds out of range")
			return Val{T: in.Type(), L: []*Term{substr(st, x.L[0], lo, hi), x.L[1]}}
		}
		lo := get(in.Low, Int(0))
		hi := get(in.High, x.L[2])
		mx := get(in.Max, x.L[3])
		ex.need(st, in, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, mx), Le(mx, x.L[3])), "slice bounds out of range")
		return Val{T: in.Type(), L: []*Term{x.L[0], Add(x.L[1], lo), Sub(hi, lo), Sub(mx, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := ex.addrOf(x)
		if a.path != "" || a.elem {
			unsup("slice of an array inside an object")
		}
		lo := get(in.Low, Int(0))
		hi := get(in.High, Int(at.Len()))
		if isByteSlice(in.Type()) {
			unsup("byte slice of an array")
		}
		return Val{T: in.Type(), L: []*Term{a.ref, lo, Sub(hi, lo), Sub(Int(at.Len()), lo)}}
	}
	unsup("slice of %s", in.X.Type())
	return Val{}
}

// substr is s[lo:hi].
func substr(st *State, s, lo, hi *Term) *Term {
	if lo.op == "int" && lo.ival == 0 && hi == StrLen(s) {
		return s
	}
	if isStrC(s) && lo.op == "int" && hi.op == "int" && lo.ival >= 0 && lo.ival <= hi.ival && int(hi.ival) <= len(s.sval) {
		return Str(s.sval[lo.ival:hi.ival])
	}
	if lo == hi {
		return Str("")
	}
	r := App("substr", SStr, s, lo, Sub(hi, lo))
	if st != nil {
		st.assume(Eq(StrLen(r), Sub(hi, lo)))
	}
	return r
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return term1(to, v.L[0])
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if intWiden(fb, tb) {
			return term1(to, v.L[0])
		}
		if v.L[0].op == "int" {
			return term1(to, v.L[0])
		}
		ex.noteAssume("narrowing integer conversions are assumed to be value preserving")
		return term1(to, v.L[0])
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return term1(to, App("chr", SStr, v.L[0]))
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(to):
		return Val{T: to, L: []*Term{v.L[0], st.newRef()}}
	case tok && tb.Info()&types.IsString != 0 && isByteSlice(from):
		return term1(to, v.L[0])
	case fok && tok:
		return term1(to, App("conv:"+tb.Name(), leavesOf(to)[0].sort, v.L[0]))
	}
	if len(leavesOf(from)) == len(leavesOf(to)) {
		v.T = to
		return v
	}
	if fok && fb.Info()&types.IsString != 0 {
		// []rune(s)
		r := ex.freshVal(st, "runes", to)
		st.assume(Eq(r.L[2], App("runecount", SInt, v.L[0])), Not(Eq(r.L[0], Int(0))))
		return r
	}
	if tok && tb.Info()&types.IsString != 0 {
		return term1(to, Sym("runes2s", SStr))
	}
	unsup("conversion %s to %s", from, to)
	return Val{}
}

func intWiden(a, b *types.Basic) bool {
	sz := func(x *types.Basic) int {
		switch x.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	return sz(a) <= sz(b)
}

func (ex *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []Outcome {
	x := ex.val(fr, st, in.X)
	if x.A != nil {
		unsup("type assertion on an interior pointer")
	}
	tag, pay := x.L[0], x.L[1]
	var ok *Term
	var v Val
	if types.IsInterface(in.AssertedType) {
		ok = ex.implementsTerm(tag, in.AssertedType)
		v = Val{T: in.AssertedType, L: x.L}
		if in.CommaOk {
			z := zeroVal(in.AssertedType)
			v.L = []*Term{Ite(ok, tag, z.L[0]), Ite(ok, pay, z.L[1])}
		}
	} else {
		ok = Eq(tag, Int(typeID(in.AssertedType)))
		if ok != tFalse {
			v = ex.unbox(st, pay, in.AssertedType)
		} else {
			v = zeroVal(in.AssertedType)
		}
	}
	if !in.CommaOk {
		ex.need(st, in, ok, "type assertion")
		v.T = in.Type()
		return []Outcome{{st, v}}
	}
	if ok == tTrue || ok == tFalse {
		if ok == tFalse {
			v = zeroVal(in.AssertedType)
		}
		return []Outcome{{st, Val{T: in.Type(), L: append(append([]*Term{}, v.L...), ok)}}}
	}
	// both outcomes separately, so that the value stays simple
	var outs []Outcome
	ex.branch(st, ok, func(s *State, b bool, last bool) {
		w := v
		if !b {
			w = zeroVal(in.AssertedType)
		}
		outs = append(outs, Outcome{s, Val{T: in.Type(), L: append(append([]*Term{}, w.L...), Bool(b))}})
	})
	return outs
}

func (ex *Exec) implementsTerm(tag *Term, it types.Type) *Term {
	if tag.op == "int" {
		if tag.ival == 0 {
			return tFalse
		}
		return Bool(types.Implements(typeByID[tag.ival], it.Underlying().(*types.Interface)))
	}
	return And(Not(Eq(tag, Int(0))), App("implements|"+typeName(it), SBool, tag))
}

// ---- channels ----

func (ex *Exec) setGhostArr(st *State, name string, ref, v *Term) {
	k := "GA|" + name
	st.heap[k] = Store(st.arr(k, arr(SInt, v.sort)), ref, v)
	st.write(k, ref)
}

func (ex *Exec) getGhostArr(st *State, name, sort string, ref *Term) *Term {
	return selH(st.arr("GA|"+name, arr(SInt, sort)), ref)
}

func (ex *Exec) recv(fr *Frame, st *State, in ssa.Instruction, ch Val, commaOk bool) []Outcome {
	el := ch.T.Underlying().(*types.Chan).Elem()
	v := ex.freshVal(st, "recv", el)
	ex.chanEvent(fr, st, in, "recv", ch, v)
	if commaOk {
		v = Val{T: in.(ssa.Value).Type(), L: append(append([]*Term{}, v.L...), Sym("recvok", SBool))}
	}
	return []Outcome{{st, v}}
}

func (ex *Exec) chanEvent(fr *Frame, st *State, in ssa.Instruction, kind string, ch, v Val) {
	ex.hook(fr, st, in, "chan."+kind, []Val{ch, v}, nil)
}

func (ex *Exec) selectStmt(fr *Frame, st *State, in *ssa.Select) []Outcome {
	var outs []Outcome
	n := len(in.States)
	total := n
	if !in.Blocking {
		total++
	}
	for c := 0; c < total; c++ {
		s := st
		if c < total-1 {
			s = st.clone()
		}
		idx := int64(c)
		if c == n {
			idx = -1
		}
		ret := Val{T: in.Type(), L: []*Term{Int(idx), Sym("recvok", SBool)}}
		dead := false
		for j, sc := range in.States {
			ch := ex.val(fr, s, sc.Chan)
			if j == c {
				// a nil channel is never ready
				if ch.L[0].op == "int" && ch.L[0].ival == 0 {
					dead = true
				} else {
					s.assume(Not(Eq(ch.L[0], Int(0))))
				}
			}
			if sc.Dir == types.RecvOnly {
				v := ex.freshVal(s, "recv", sc.Chan.Type().Underlying().(*types.Chan).Elem())
				if j == c {
					ex.chanEvent(fr, s, in, "recv", ch, v)
				}
				ret.L = append(ret.L, v.L...)
			} else if j == c {
				ex.chanEvent(fr, s, in, "send", ch, ex.val(fr, s, sc.Send))
			}
		}
		if dead {
			continue
		}
		outs = append(outs, Outcome{s, ret})
	}
	return outs
}

func dbg(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}
