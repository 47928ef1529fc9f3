package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func staticCallee(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	return c.StaticCallee()
}

func (ex *Exec) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) []Outcome {
	var fv Val
	if c.IsInvoke() {
		fv = ex.val(fr, st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = ex.val(fr, st, c.Value)
	}
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = ex.val(fr, st, a)
	}
	return ex.callVals(fr, st, in, c, fv, args)
}

func one(st *State, v Val) []Outcome { return []Outcome{{st, v}} }

func (ex *Exec) callVals(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, in, b, c, args)
	}
	if c.IsInvoke() {
		return ex.invoke(fr, st, in, c.Method, fv, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []Val
		if len(fn.FreeVars) > 0 {
			if cl := funcTab[fv.L[0].ival]; fv.L[0].op == "int" && cl != nil {
				free = cl.bind
			}
		}
		return ex.callFn(fr, st, in, fn, args, free)
	}
	return ex.callValue(fr, st, in, fv, args, c.Signature())
}

// callValue calls a function value.
func (ex *Exec) callValue(fr *Frame, st *State, in ssa.Instruction, fv Val, args []Val, sig *types.Signature) []Outcome {
	id := fv.L[0]
	if id.op == "int" {
		if cl := funcTab[id.ival]; cl != nil {
			return ex.callFn(fr, st, in, cl.fn, args, cl.bind)
		}
		if id.ival == 0 {
			ex.panicAt(st, in, "call of a nil function")
			return nil
		}
	}
	if id.op == "ite" {
		var outs []Outcome
		ex.branch(st, id.args[0], func(s *State, v bool, last bool) {
			x := fv
			if v {
				x.L = []*Term{id.args[1]}
			} else {
				x.L = []*Term{id.args[2]}
			}
			outs = append(outs, ex.callValue(fr, s, in, x, args, sig)...)
		})
		return outs
	}
	ex.need(st, in, Not(Eq(id, Int(0))), "call of a nil function")
	ev := ""
	if ci, ok := in.(ssa.CallInstruction); ok {
		if p, ok := ci.Common().Value.(*ssa.Parameter); ok {
			for i, q := range p.Parent().Params {
				if p == q {
					ev = fmt.Sprintf("param.%d", i)
				}
			}
		}
	}
	hooked := args
	if ev == "" { // a value of a named function type: the event has the function first
		if n, ok := types.Unalias(fv.T).(*types.Named); ok && n.Obj().Pkg() != nil {
			ev = "value." + n.Obj().Pkg().Name() + "." + n.Obj().Name()
			hooked = append([]Val{fv}, args...)
		}
	}
	if ev == "" {
		return ex.unknownCall(fr, st, in, "function value of type "+shortType(sig), args, sig.Results())
	}
	ex.hook(fr, st, in, ev, hooked, nil)
	outs := ex.unknownCall(fr, st, in, "function value of type "+shortType(sig), args, sig.Results())
	if ex.hasAfter(ev) {
		for _, o := range outs {
			r := o.ret
			ex.hook(fr, o.st, in, ev, hooked, &r)
		}
	}
	return outs
}

func (ex *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, m *types.Func, recv Val, args []Val) []Outcome {
	tag := recv.L[0]
	it := types.Unalias(recv.T)
	switch {
	case tag.op == "int" && tag.ival == 0:
		ex.panicAt(st, in, "method call on nil interface")
		return nil
	case tag.op == "int":
		dt := typeByID[tag.ival]
		if mod := models["("+typeName(it)+")."+m.Name()]; mod != nil && (dt == fileStatT || dt == ctxT) {
			return mod(&callCtx{ex: ex, fr: fr, st: st, in: in, name: "(" + typeName(it) + ")." + m.Name(), res: m.Signature().Results()}, append([]Val{recv}, args...))
		}
		fn := ex.prog.LookupMethod(dt, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s of %s", m.Name(), dt)
		}
		rv := ex.unbox(st, recv.L[1], dt)
		return ex.callFn(fr, st, in, fn, append([]Val{rv}, args...), nil)
	case tag.op == "ite":
		var outs []Outcome
		ex.branch(st, tag.args[0], func(s *State, v bool, last bool) {
			x := Val{T: it, L: []*Term{tag.args[1], recv.L[1]}}
			if !v {
				x.L[0] = tag.args[2]
			}
			if p := recv.L[1]; p.op == "ite" && p.args[0] == tag.args[0] {
				x.L[1] = p.args[2]
				if v {
					x.L[1] = p.args[1]
				}
			}
			outs = append(outs, ex.invoke(fr, s, in, m, x, args)...)
		})
		return outs
	}
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Name() == "RunItem" && isRepoPkg(n.Obj().Pkg()) {
		// closed world
		var outs []Outcome
		impls := ex.implementers(it)
		rest := st
		for _, dt := range impls {
			if rest == nil {
				break
			}
			a, b := ex.split(rest, Eq(tag, Int(typeID(dt))))
			if a != nil {
				x := Val{T: it, L: []*Term{Int(typeID(dt)), recv.L[1]}}
				outs = append(outs, ex.invoke(fr, a, in, m, x, args)...)
			}
			rest = b
		}
		return outs
	}
	ex.need(st, in, Not(Eq(tag, Int(0))), "method call on nil interface")
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil {
		ev := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + m.Name()
		all := append([]Val{recv}, args...)
		ex.hook(fr, st, in, ev, all, nil)
		outs := ex.invokeOpen(fr, st, in, m, it, recv, args)
		if ex.hasAfter(ev) {
			for _, o := range outs {
				r := o.ret
				ex.hook(fr, o.st, in, ev, all, &r)
			}
		}
		return outs
	}
	return ex.invokeOpen(fr, st, in, m, it, recv, args)
}

// invokeOpen calls a method of a value whose dynamic type is not known.
func (ex *Exec) invokeOpen(fr *Frame, st *State, in ssa.Instruction, m *types.Func, it types.Type, recv Val, args []Val) []Outcome {
	tag := recv.L[0]
	if m.Name() == "Error" && m.Pkg() == nil {
		return one(st, term1(tyString, App("errstr", SStr, tag, recv.L[1])))
	}
	name := "(" + typeName(it) + ")." + m.Name()
	if mod := models[name]; mod != nil {
		ex.used[name] = "model"
		return mod(&callCtx{ex: ex, fr: fr, st: st, in: in, name: name, res: m.Signature().Results()}, append([]Val{recv}, args...))
	}
	if c := ex.spec.extern(shortName(name)); c != nil {
		return ex.contractCall(fr, st, in, c, append([]Val{recv}, args...), m.Signature().Results())
	}
	return ex.unknownCall(fr, st, in, name, append([]Val{recv}, args...), m.Signature().Results())
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// fnShort gives pkgname.F, pkgname.T.M, pkgname.F$1.
func fnShort(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return fnShort(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name() + "."
			}
			return pk + n.Obj().Name() + "." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Name() + "." + fn.Name()
	}
	return fn.String()
}

func (ex *Exec) callFn(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args, free []Val) []Outcome {
	name := fnKey(fn)
	short := fnShort(fn)
	var argv []Val
	argv = append(argv, args...)
	ex.hook(fr, st, in, short, argv, nil)
	var outs []Outcome
	res := fn.Signature.Results()
	switch {
	case ex.spec.contractFor(fn) != nil && !ex.spec.inlines(ex.target, short):
		c := ex.spec.contractFor(fn)
		outs = ex.contractCall(fr, st, in, c, append(append([]Val{}, args...), free...), res)
	case goModels[name] != "" && goModelFns[goModels[name]] != nil:
		ex.used[name] = "model (Go)"
		outs = ex.inline(st, goModelFns[goModels[name]], args, free)
	case models[name] != nil:
		ex.used[name] = "model"
		outs = models[name](&callCtx{ex: ex, fr: fr, st: st, in: in, name: name, res: res, sig: fn.Signature}, args)
	case fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg) && len(fn.Blocks) > 0, fn.Synthetic != "" && len(fn.Blocks) > 0 && wrapsRepo(fn), fn.Parent() != nil && len(fn.Blocks) > 0:
		ex.inlined[short] = true
		outs = ex.inline(st, fn, args, free)
	case ex.spec.extern(short) != nil:
		outs = ex.contractCall(fr, st, in, ex.spec.extern(short), args, res)
	default:
		outs = ex.unknownCall(fr, st, in, name, args, res)
	}
	if ex.hasAfter(short) {
		for _, o := range outs {
			r := o.ret
			ex.hook(fr, o.st, in, short, argv, &r)
		}
	}
	return outs
}

func wrapsRepo(fn *ssa.Function) bool {
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return isRepoPkg(fn.Object().Pkg())
	}
	return true
}

// inline runs the body and merges outcomes that left memory alike.
func (ex *Exec) inline(st *State, fn *ssa.Function, args, free []Val) []Outcome {
	base := st.clone()
	outs := ex.runFunc(st, fn, args, free)
	return ex.merge(base, outs)
}

func sameHeap(a, b *State) bool {
	if a.top != b.top || a.writes != b.writes {
		return false
	}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok && w != v {
			return false
		}
	}
	return true
}

func (ex *Exec) merge(base *State, outs []Outcome) []Outcome {
	if len(outs) < 2 || ex.noMerge {
		return outs
	}
	var res []Outcome
	used := make([]bool, len(outs))
	for i := range outs {
		if used[i] {
			continue
		}
		grp := []int{i}
		for j := i + 1; j < len(outs); j++ {
			if !used[j] && sameHeap(outs[i].st, outs[j].st) && mergeable(outs[i].ret, outs[j].ret) {
				grp = append(grp, j)
				used[j] = true
			}
		}
		if len(grp) == 1 {
			res = append(res, outs[i])
			continue
		}
		m := base.clone()
		m.heap = map[string]*Term{}
		m.top = outs[i].st.top
		m.writes = outs[i].st.writes
		m.trace = base.trace
		var guards []*Term
		bn := 0
		if base.pc != nil {
			bn = base.pc.n
		}
		for _, g := range grp {
			for k, v := range outs[g].st.heap {
				m.heap[k] = v
			}
			var suf []*Term
			for p := outs[g].st.pc; p != nil && p.n > bn; p = p.prev {
				suf = append(suf, p.t)
			}
			for a, b := 0, len(suf)-1; a < b; a, b = a+1, b-1 {
				suf[a], suf[b] = suf[b], suf[a]
			}
			guards = append(guards, And(suf...))
		}
		// facts common to all paths stay unconditional
		common := map[*Term]int{}
		conj := make([][]*Term, len(guards))
		for gi, g := range guards {
			if g.op == "and" {
				conj[gi] = g.args
			} else if g != tTrue {
				conj[gi] = []*Term{g}
			}
			for _, c := range conj[gi] {
				common[c]++
			}
		}
		for gi := range guards {
			var own []*Term
			for _, c := range conj[gi] {
				if common[c] == len(guards) {
					m.assume(c)
				} else {
					own = append(own, c)
				}
			}
			guards[gi] = And(own...)
		}
		// name long guards
		for gi, g := range guards {
			if g.op == "and" && len(g.args) > 3 {
				p := Sym("path", SBool)
				// p <-> g
				m.assume(mk(Term{op: "=", sort: SBool, args: []*Term{p, g}}))
				guards[gi] = p
			}
		}
		m.assume(Or(guards...))
		ret := outs[grp[len(grp)-1]].ret
		for x := len(grp) - 2; x >= 0; x-- {
			r := outs[grp[x]].ret
			n := Val{T: r.T, L: make([]*Term, len(r.L)), A: r.A, X: r.X}
			for li := range r.L {
				n.L[li] = Ite(guards[x], r.L[li], ret.L[li])
			}
			ret = n
		}
		res = append(res, Outcome{m, ret})
	}
	return res
}

func mergeable(a, b Val) bool {
	if len(a.L) != len(b.L) {
		return false
	}
	if (a.A == nil) != (b.A == nil) || a.A != nil && a.A.String() != b.A.String() {
		return false
	}
	if a.X != nil || b.X != nil {
		return false
	}
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			return false
		}
		// function values and concrete dynamic types are kept apart
		if a.L[i] != b.L[i] && a.L[i].op == "int" && b.L[i].op == "int" && (a.L[i].ival >= 1000000 || b.L[i].ival >= 1000000) {
			return false
		}
	}
	return true
}

// unknownCall models a call about which nothing is known.
func (ex *Exec) unknownCall(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, res *types.Tuple) []Outcome {
	ex.noteAssume("unmodelled call: %s returns an arbitrary value and changes nothing reachable in bab's own data except through its pointer arguments", name)
	for _, a := range args {
		ex.havocArg(st, a)
	}
	return one(st, ex.freshRes(st, name, res))
}

// exportsFields reports whether other code can set fields of a struct by reflection.
func exportsFields(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (ex *Exec) havocArg(st *State, a Val) {
	// a pointer handed over as an interface value
	if types.IsInterface(a.T) && a.A != nil {
		ex.store(st, a.A, ex.freshVal(st, "ext", a.A.t))
		return
	}
	if types.IsInterface(a.T) && len(a.L) == 2 && a.L[0].op == "int" {
		if dt := typeByID[a.L[0].ival]; dt != nil {
			if pt, isP := dt.Underlying().(*types.Pointer); isP {
				if sv := (Val{T: dt, L: a.L[1:2]}); exportsFields(pt.Elem()) {
					ex.store(st, ex.addrOf(sv), ex.freshVal(st, "ext", pt.Elem()))
				} else {
					ex.havocArg(st, sv)
				}
			}
		}
		return
	}
	p, ok := a.T.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if a.A != nil {
		ex.store(st, a.A, ex.freshVal(st, "ext", a.A.t))
		return
	}
	el := p.Elem()
	if n, ok := types.Unalias(el).(*types.Named); ok && n.Obj().Pkg() != nil && !isRepoPkg(n.Obj().Pkg()) {
		return
	}
	if _, isArr := el.Underlying().(*types.Array); isArr {
		return
	}
	if a.L[0].op == "int" {
		return
	}
	ex.store(st, ex.addrOf(a), ex.freshVal(st, "ext", el))
}

func (ex *Exec) freshRes(st *State, name string, res *types.Tuple) Val {
	// results may refer to new objects
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	st.top = freshTop(st)
	if res.Len() == 1 {
		return ex.freshVal(st, name, res.At(0).Type())
	}
	v := Val{T: res}
	for i := 0; i < res.Len(); i++ {
		v.L = append(v.L, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), res.At(i).Type()).L...)
	}
	return v
}

func freshTop(st *State) *Term {
	t := newTop(st.top, "top")
	st.assume(Ge(t, st.top))
	return t
}

func (ex *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val) []Outcome {
	rt := types.Type(nil)
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	switch b.Name() {
	case "len":
		x := args[0]
		switch x.T.Underlying().(type) {
		case *types.Basic:
			return one(st, term1(rt, StrLen(x.L[0])))
		case *types.Slice:
			if isByteSlice(x.T) {
				return one(st, term1(rt, StrLen(x.L[0])))
			}
			return one(st, term1(rt, x.L[2]))
		case *types.Map:
			ln := st.mapLen(x.T, x.L[0])
			if x.L[0].op != "int" && !isTopRef(x.L[0]) {
				ln = Ite(Eq(x.L[0], Int(0)), Int(0), ln)
			}
			st.assume(Ge(ln, Int(0)))
			if ln.op != "int" {
				q := QVar("k", mapKeySort(x.T))
				dom := st.mapDom(x.T, x.L[0])
				st.assume(Imp(Eq(ln, Int(0)), Forall([]*Term{q}, Not(ex.mapHas(st, x.T, x.L[0], q)), []*Term{Select(dom, q)})))
			}
			return one(st, term1(rt, ln))
		case *types.Chan:
			return one(st, term1(rt, Sym("chanlen", SInt)))
		case *types.Array:
			return one(st, term1(rt, Int(x.T.Underlying().(*types.Array).Len())))
		}
	case "cap":
		x := args[0]
		if _, ok := x.T.Underlying().(*types.Slice); ok && !isByteSlice(x.T) {
			return one(st, term1(rt, x.L[3]))
		}
		n := Sym("cap", SInt)
		st.assume(Ge(n, Int(0)))
		return one(st, term1(rt, n))
	case "append":
		return one(st, ex.appendOp(st, args[0], args[1], rt))
	case "copy":
		d, s := args[0], args[1]
		if isByteSlice(d.T) {
			unsup("copy into bytes")
		}
		n := Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2])
		el := d.T.Underlying().(*types.Slice).Elem()
		for _, l := range leavesOf(el) {
			k := elemKey(el, l.path)
			m := st.arr(k, arr(SInt, arr(SInt, l.sort)))
			row, src := selH(m, d.L[0]), selH(m, s.L[0])
			nr := Sym("copy", row.sort)
			q := QVar("i", SInt)
			st.assume(Forall([]*Term{q}, App("=", SBool, Select(nr, q), Ite(And(Ge(q, d.L[1]), Lt(q, Add(d.L[1], n))), Select(src, Add(s.L[1], Sub(q, d.L[1]))), Select(row, q))), []*Term{Select(nr, q)}))
			st.assume(Forall([]*Term{q}, Imp(And(Ge(q, s.L[1]), Lt(q, Add(s.L[1], n))), Eq(Select(nr, Add(d.L[1], Sub(q, s.L[1]))), Select(src, q))), []*Term{Select(src, q)}))
			st.heap[k] = Store(m, d.L[0], nr)
			st.write(k, d.L[0])
		}
		return one(st, term1(tyInt, n))
	case "delete":
		ex.mapDelete(st, args[0].T, args[0].L[0], args[1].L[0])
		return one(st, Val{})
	case "close":
		ex.hook(fr, st, in, "chan.close", args, nil)
		return one(st, Val{})
	case "min", "max":
		v := args[0].L[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				v = Ite(Le(v, a.L[0]), v, a.L[0])
			} else {
				v = Ite(Ge(v, a.L[0]), v, a.L[0])
			}
		}
		return one(st, term1(rt, v))
	case "panic":
		ex.panicAt(st, in, "explicit panic")
		return nil
	case "print", "println":
		return one(st, Val{})
	case "recover":
		return one(st, zeroVal(rt))
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

// constLen gives the literal length of a slice value, or -1.
func constLen(v Val) int {
	if len(v.L) == 4 && v.L[2].op == "int" {
		return int(v.L[2].ival)
	}
	return -1
}

func (ex *Exec) appendOp(st *State, d, s Val, rt types.Type) Val {
	if isByteSlice(rt) {
		// the bytes are a value: the buffer keeps its owner or gets a new one
		var add *Term
		if b, ok := s.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			add = s.L[0]
		} else {
			add = s.L[0]
		}
		st.top = freshTop(st)
		own := Sym("bytes", SInt)
		refBounds[own], _ = asTop(st.top)
		st.assume(Gt(own, Int(0)))
		return Val{T: rt, L: []*Term{Concat(d.L[0], add), own}}
	}
	el := rt.Underlying().(*types.Slice).Elem()
	if len(s.L) == 1 { // nil
		s = zeroVal(rt)
	}
	n := s.L[2]
	if n.op == "int" && n.ival == 0 {
		return Val{T: rt, L: d.L}
	}
	newLen := Add(d.L[2], n)
	fresh := st.newRef()
	fit := Le(newLen, d.L[3])
	if d.L[0].op == "int" && d.L[0].ival == 0 {
		fit = tFalse
	} else if st.facts[Eq(d.L[0], Int(0))] {
		fit = tFalse
	}
	ref := Ite(fit, d.L[0], fresh)
	ncap := Sym("cap", SInt)
	st.assume(Ge(ncap, newLen))
	cp := Ite(fit, d.L[3], ncap)
	st.assume(Ge(cp, newLen))
	cl := constLen(s)
	for _, l := range leavesOf(el) {
		k := elemKey(el, l.path)
		m := st.arr(k, arr(SInt, arr(SInt, l.sort)))
		row, src := selH(m, d.L[0]), selH(m, s.L[0])
		if d.L[0].op == "int" && d.L[0].ival == 0 {
			row = ConstArr(arr(SInt, l.sort), zeroTerm(l))
		}
		if cl >= 0 && cl <= 8 {
			for i := 0; i < cl; i++ {
				row = Store(row, Add(Add(d.L[1], d.L[2]), Int(int64(i))), Select(src, Add(s.L[1], Int(int64(i)))))
			}
		} else {
			nr := Sym("app", row.sort)
			if b, ok := selBound0(row, src); ok {
				refBounds[nr] = b
			} else if b, ok := asTop(st.top); ok {
				refBounds[nr] = b
			}
			q := QVar("i", SInt)
			at := Add(d.L[1], d.L[2])
			st.assume(Forall([]*Term{q}, Imp(And(Ge(q, at), Lt(q, Add(at, n))), App("=", SBool, Select(nr, q), Select(src, Add(s.L[1], Sub(q, at))))), []*Term{Select(nr, q)}))
			st.assume(Forall([]*Term{q}, Imp(Lt(q, at), App("=", SBool, Select(nr, q), Select(row, q))), []*Term{Select(nr, q)}))
			// the same facts triggered from the sources
			q2 := QVar("j", SInt)
			st.assume(Forall([]*Term{q2}, Imp(And(Ge(q2, s.L[1]), Lt(q2, Add(s.L[1], n))), App("=", SBool, Select(nr, Add(at, Sub(q2, s.L[1]))), Select(src, q2))), []*Term{Select(src, q2)}))
			st.assume(Forall([]*Term{q}, Imp(Lt(q, at), App("=", SBool, Select(nr, q), Select(row, q))), []*Term{Select(row, q)}))
			row = nr
		}
		st.heap[k] = Store(m, ref, row)
		st.write(k, ref)
	}
	return Val{T: rt, L: []*Term{ref, d.L[1], newLen, cp}}
}

func selBound0(a, b *Term) (linTop, bool) {
	x, ok1 := rowBound(a)
	y, ok2 := rowBound(b)
	return joinB(x, ok1, y, ok2)
}

// ---- goroutines ----

func (ex *Exec) goStmt(fr *Frame, st *State, in *ssa.Go) {
	args := make([]Val, len(in.Call.Args))
	for i, a := range in.Call.Args {
		args[i] = ex.val(fr, st, a)
	}
	var fn *ssa.Function
	var free []Val
	if f := in.Call.StaticCallee(); f != nil {
		fn = f
		if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, ex.val(fr, st, b))
			}
		}
	} else if !in.Call.IsInvoke() {
		fv := ex.val(fr, st, in.Call.Value)
		if cl := funcTab[fv.L[0].ival]; fv.L[0].op == "int" && cl != nil {
			fn, free = cl.fn, cl.bind
		}
	}
	ex.spawn(fr, st, in, fn, args, free)
}

// spawn starts a goroutine: what it may write becomes unknown from here on.
func (ex *Exec) spawn(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args, free []Val) {
	name := "go"
	if fn != nil {
		name = fnShort(fn)
	}
	ex.hook(fr, st, in, "go", args, nil)
	var c *Contract
	if fn != nil {
		c = ex.spec.contractFor(fn)
	}
	if c != nil {
		c.used = true
		ex.usedContracts[c.name] = true
		env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}}
		if c.fn.Pkg != nil {
			env.pkg = c.fn.Pkg.Pkg
		} else if c.fn.Parent() != nil {
			env.pkg = c.fn.Parent().Pkg.Pkg
		}
		ex.callPre(st, in, c, env, append(append([]Val{}, args...), free...))
		ex.noteAssume("goroutine %s keeps its contract whatever runs in between: what others may do is stated by the havoc and assume lines of the specification", name)
		return
	}
	ex.noteAssume("goroutine %s runs concurrently: interference is covered by the bounded schedule harness, not by a proof", name)
}

// racyAllocs are the variables of a function that goroutines it starts may write.
func racyAllocs(fn *ssa.Function) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for i, bd := range mc.Bindings {
				if storesFree(mc.Fn.(*ssa.Function), i, 0) {
					m[bd] = true
				}
			}
			for _, a := range g.Call.Args {
				if _, ok := a.(*ssa.Alloc); ok {
					m[a] = true
				}
			}
		}
	}
	return m
}

// storesFree tells whether a closure (or one it makes) may write its i-th captured variable.
func storesFree(fn *ssa.Function, i, depth int) bool {
	if depth > 8 {
		return true
	}
	fv := fn.FreeVars[i]
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for j, b := range x.Bindings {
				if b == fv && storesFree(x.Fn.(*ssa.Function), j, depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// racyLoad tells that a variable is read while goroutines that write it may be running.
func (ex *Exec) racyLoad(in *ssa.UnOp) bool {
	fn := in.Parent()
	if fn == nil {
		return false
	}
	ra, ok := ex.racyOf[fn]
	if !ok {
		ra = racyAllocs(fn)
		ex.racyOf[fn] = ra
	}
	if !ra[in.X] {
		return false
	}
	// after a Wait every goroutine is done; before the first go there is none
	started := false
	for _, b := range fn.Blocks {
		for k, i := range b.Instrs {
			switch c := i.(type) {
			case *ssa.Call:
				if f := c.Call.StaticCallee(); f != nil && f.String() == "(*sync.WaitGroup).Wait" {
					if b != in.Block() && b.Dominates(in.Block()) {
						return false
					}
					if b == in.Block() {
						for _, e := range b.Instrs[k:] {
							if e == ssa.Instruction(in) {
								return false
							}
						}
					}
				}
			case *ssa.Go:
				started = started || reaches(b, in.Block())
			}
		}
	}
	return started
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(a)
}

// joinAll: the goroutines are done; what they may have written is unknown now.
func (ex *Exec) joinAll(fr *Frame, st *State) {
	if fr == nil {
		return
	}
	ra, ok := ex.racyOf[fr.fn]
	if !ok {
		ra = racyAllocs(fr.fn)
		ex.racyOf[fr.fn] = ra
	}
	for a := range ra {
		v, ok := fr.env[a]
		if !ok {
			continue
		}
		ad := ex.addrOf(v)
		if structOf(ad.t) != nil {
			continue
		}
		if _, isArr := ad.t.Underlying().(*types.Array); isArr {
			continue
		}
		ex.store(st, ad, ex.freshVal(st, "joined", ad.t))
	}
	// and what their contracts let them change
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			fn := mc.Fn.(*ssa.Function)
			c := ex.spec.contractFor(fn)
			if c == nil {
				continue
			}
			env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}, old: st}
			var args []Val
			for _, p := range fn.Params {
				args = append(args, ex.freshVal(st, p.Name(), p.Type()))
			}
			for _, bd := range mc.Bindings {
				v, ok := fr.env[bd]
				if !ok {
					return // it was not started
				}
				args = append(args, v)
			}
			bindNames(env, c.params, args)
			env.cells = freeCells(fn, args[len(fn.Params):])
			if c.modAll {
				unsup("a goroutine that may change everything")
			}
			for _, m := range c.modifies {
				ex.havocTarget(env, m)
			}
		}
	}
}

var _ = token.ADD

// shortName drops the directories of import paths: "(io/fs.FileInfo).IsDir" -> "(fs.FileInfo).IsDir".
func shortName(n string) string {
	i := strings.LastIndexByte(n, '/')
	if i < 0 {
		return n
	}
	pre := ""
	if strings.HasPrefix(n, "(") {
		pre = "("
		if strings.HasPrefix(n, "(*") {
			pre = "(*"
		}
	}
	return pre + n[i+1:]
}
