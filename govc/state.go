package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- persistent lists ----

type pcList struct {
	prev *pcList
	t    *Term
	n    int
}

type wrec struct {
	prev  *wrec
	arr   string
	ref   *Term
	since *Term // writes only to objects newer than this frontier
	n     int
}

// State is the symbolic machine state of one path.
type State struct {
	heap   map[string]*Term
	top    *Term // allocation frontier: refs <= top exist
	pc     *pcList
	writes *wrec
	facts  map[*Term]bool // literal facts (positive forms) for quick folding
	steps  int
	trace  *traceList
}

type traceList struct {
	prev *traceList
	s    string
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts)+8)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return &n
}

func (s *State) note(f string, a ...any) {
	s.trace = &traceList{s.trace, fmt.Sprintf(f, a...)}
}

func (s *State) traceStrings() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, t.s)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == tTrue || t.qv {
			continue
		}
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		if s.facts[t] {
			continue
		}
		s.facts[t] = true
		n := 1
		if s.pc != nil {
			n = s.pc.n + 1
		}
		s.pc = &pcList{s.pc, t, n}
	}
}

func (s *State) assumps() []*Term {
	if s.pc == nil {
		return nil
	}
	out := make([]*Term, s.pc.n)
	for p := s.pc; p != nil; p = p.prev {
		out[p.n-1] = p.t
	}
	return out
}

func (s *State) write(arr string, ref *Term) {
	n := 1
	if s.writes != nil {
		n = s.writes.n + 1
	}
	s.writes = &wrec{prev: s.writes, arr: arr, ref: ref, n: n}
}

func (s *State) writeSince(arr string, since *Term) {
	n := 1
	if s.writes != nil {
		n = s.writes.n + 1
	}
	s.writes = &wrec{prev: s.writes, arr: arr, since: since, n: n}
}

var arrSorts = map[string]string{}

// ---- reference bounds ----

// linTop describes "symbol + off" where symbol is an allocation frontier.
type linTop struct {
	sym *Term
	off int64
}

var (
	topPrev   = map[*Term]linTop{} // frontier symbol >= prev
	refBounds = map[*Term]linTop{} // symbol (ref or heap array) -> all refs <= bound
	frameOf   = map[*Term]frameInfo{}
)

type frameInfo struct {
	bound *Term // refs <= bound (frontier term) keep the value of base
	base  *Term
}

func newTop(prev *Term, hint string) *Term {
	t := Sym(hint, SInt)
	if prev != nil {
		if lt, ok := asTop(prev); ok {
			topPrev[t] = lt
		}
	} else {
		topPrev[t] = linTop{}
	}
	return t
}

func asTop(t *Term) (linTop, bool) {
	b, o := linView(t)
	if b == nil {
		return linTop{}, false
	}
	if _, ok := topPrev[b]; ok {
		return linTop{b, o}, true
	}
	return linTop{}, false
}

// topLe: a <= b for certain.
func topLe(a, b linTop) bool {
	// walk b down its chain; b.sym >= prev.sym+prev.off
	for {
		if a.sym == b.sym {
			return a.off <= b.off
		}
		p, ok := topPrev[b.sym]
		if !ok || p.sym == nil {
			return false
		}
		b = linTop{p.sym, p.off + b.off}
	}
}

func topMax(a, b linTop) (linTop, bool) {
	if topLe(a, b) {
		return b, true
	}
	if topLe(b, a) {
		return a, true
	}
	return linTop{}, false
}

var negInf = linTop{off: -1 << 60}

var boundMemo = map[*Term]*linTop{}

// refBound computes a frontier term that t is known not to exceed.
func refBound(t *Term) (linTop, bool) {
	if r, ok := boundMemo[t]; ok {
		if r == nil {
			return linTop{}, false
		}
		return *r, true
	}
	boundMemo[t] = nil
	r, ok := refBound0(t)
	if ok {
		boundMemo[t] = &r
	}
	return r, ok
}

func joinB(a linTop, aok bool, b linTop, bok bool) (linTop, bool) {
	if !aok || !bok {
		return linTop{}, false
	}
	if a.sym == nil {
		return b, true
	}
	if b.sym == nil {
		return a, true
	}
	return topMax(a, b)
}

func refBound0(t *Term) (linTop, bool) {
	if t.sort != SInt {
		return linTop{}, false
	}
	switch t.op {
	case "int":
		if t.ival <= 0 {
			return negInf, true
		}
		return linTop{}, false
	case "var":
		if b, ok := refBounds[t]; ok {
			return b, true
		}
	case "ite":
		a, ok1 := refBound(t.args[1])
		b, ok2 := refBound(t.args[2])
		return joinB(a, ok1, b, ok2)
	case "select":
		return selBound(t.args[0], t.args[1])
	}
	return asTop(t)
}

// selBound bounds the value of select(a, i), a an array of refs (possibly nested).
func selBound(a, i *Term) (linTop, bool) {
	switch a.op {
	case "store":
		if _, vs := arrParts(a.sort); vs != SInt {
			return linTop{}, false
		}
		x, ok1 := refBound(a.args[2])
		y, ok2 := selBound(a.args[0], i)
		return joinB(x, ok1, y, ok2)
	case "var":
		b, ok := refBounds[a]
		if !ok {
			return linTop{}, false
		}
		// contents of objects that exist at that frontier are bounded by it
		if ib, ok := refBound(i); ok && (ib.sym == nil || topLe(ib, b)) {
			return b, true
		}
		if !refKeyed(a.sort, i) {
			return b, true
		}
		return linTop{}, false
	case "select":
		// element memory: select(select(E, arr), idx)
		return selBoundNested(a.args[0], a.args[1], i)
	case "ite":
		x, ok1 := selBound(a.args[1], i)
		y, ok2 := selBound(a.args[2], i)
		return joinB(x, ok1, y, ok2)
	case "constarr":
		return refBound(a.args[0])
	}
	return linTop{}, false
}

func refKeyed(sort string, i *Term) bool { return true }

func selBoundNested(a, r, i *Term) (linTop, bool) {
	switch a.op {
	case "var":
		b, ok := refBounds[a]
		if !ok {
			return linTop{}, false
		}
		if rb, ok := refBound(r); ok && (rb.sym == nil || topLe(rb, b)) {
			return b, true
		}
	case "store":
		x, ok1 := rowBound(a.args[2])
		y, ok2 := selBoundNested(a.args[0], r, i)
		return joinB(x, ok1, y, ok2)
	}
	return linTop{}, false
}

func rowBound(row *Term) (linTop, bool) {
	switch row.op {
	case "store":
		x, ok1 := refBound(row.args[2])
		y, ok2 := rowBound(row.args[0])
		return joinB(x, ok1, y, ok2)
	case "constarr":
		return refBound(row.args[0])
	case "select":
		return selBoundNested(row.args[0], row.args[1], nil)
	case "var":
		b, ok := refBounds[row]
		return b, ok
	}
	return linTop{}, false
}

// refsDistinct: a and b certainly differ because one is newer than the other.
func refsDistinct(a, b *Term) bool {
	if ta, ok := asTop(a); ok {
		if bb, ok := refBound(b); ok && bb.sym != nil {
			if topLe(linTop{bb.sym, bb.off + 1}, ta) {
				return true
			}
		}
	}
	if tb, ok := asTop(b); ok {
		if ab, ok := refBound(a); ok && ab.sym != nil {
			if topLe(linTop{ab.sym, ab.off + 1}, tb) {
				return true
			}
		}
	}
	return false
}

// ---- heap access ----

func heapKey(owner types.Type, path string) string { return "H|" + typeName(owner) + "|" + path }

func elemKey(elem types.Type, path string) string { return "E|" + typeName(elem) + "|" + path }

func (s *State) arr(name, sort string) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	arrSorts[name] = sort
	t := NamedSym("h0."+name, sort)
	t.seq = 0
	if _, ok := refBounds[t]; !ok {
		refBounds[t] = linTop{top0, 0}
	}
	s.heap[name] = t
	return t
}

var top0 = func() *Term {
	t := NamedSym("top0", SInt)
	topPrev[t] = linTop{}
	return t
}()

func heapSort(leaf string) string { return arr(SInt, leaf) }

// selH reads array a at ref, using frame information of havocked arrays.
func selH(a, ref *Term) *Term {
	for {
		switch a.op {
		case "store":
			e := Eq(a.args[1], ref)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse || refsDistinct(a.args[1], ref) {
				a = a.args[0]
				continue
			}
		case "var":
			if f, ok := frameOf[a]; ok {
				if rb, ok := refBound(ref); ok {
					if fb, ok := asTop(f.bound); ok && (rb.sym == nil && ref.op == "int" || rb.sym != nil && topLe(rb, fb)) {
						a = f.base
						continue
					}
				}
			}
		case "ite":
			x, y := selH(a.args[1], ref), selH(a.args[2], ref)
			return Ite(a.args[0], x, y)
		}
		break
	}
	return Select(a, ref)
}

func (ex *Exec) loadLeaf(st *State, a *Addr, l Leaf, path string) *Term {
	var t *Term
	if a.elem {
		row := selH(st.arr(elemKey(a.owner, path), arr(SInt, arr(SInt, l.sort))), a.ref)
		t = Select(row, a.idx)
	} else {
		t = selH(st.arr(heapKey(a.owner, path), heapSort(l.sort)), a.ref)
	}
	return t
}

func (ex *Exec) load(st *State, a *Addr) Val {
	ls := leavesOf(a.t)
	ol := leavesOf(a.owner)
	v := Val{T: a.t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = ex.loadLeaf(st, a, l, ol[a.lo+i].path)
	}
	ex.wf(st, v)
	return v
}

func (ex *Exec) store(st *State, a *Addr, v Val) {
	if v.A != nil && isPtr(a.t) {
		unsup("interior pointer stored in memory (%s)", v.A)
	}
	ls := leavesOf(a.t)
	ol := leavesOf(a.owner)
	if len(v.L) != len(ls) {
		panic(fmt.Sprintf("store leaves %d != %d: %s", len(v.L), len(ls), a.t))
	}
	for i, l := range ls {
		path := ol[a.lo+i].path
		if a.elem {
			k := elemKey(a.owner, path)
			m := st.arr(k, arr(SInt, arr(SInt, l.sort)))
			row := selH(m, a.ref)
			st.heap[k] = Store(m, a.ref, Store(row, a.idx, v.L[i]))
			st.write(k, a.ref)
		} else {
			k := heapKey(a.owner, path)
			m := st.arr(k, heapSort(l.sort))
			st.heap[k] = Store(m, a.ref, v.L[i])
			st.write(k, a.ref)
		}
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// wf assumes the type invariants of a value's leaves.
func (ex *Exec) wf(st *State, v Val) {
	ls := leavesOf(v.T)
	for i := 0; i < len(ls); i++ {
		t := v.L[i]
		switch ls[i].role {
		case "ref":
			ex.wfRef(st, t)
		case "sarr":
			off, ln, cp := v.L[i+1], v.L[i+2], v.L[i+3]
			if t.op == "int" && off.op == "int" && ln.op == "int" && cp.op == "int" {
				break
			}
			ex.wfRef(st, t)
			if isConstSlice(t, off, ln, cp) {
				break
			}
			st.assume(Ge(off, Int(0)), Ge(ln, Int(0)), Le(ln, cp), Imp(Eq(t, Int(0)), And(Eq(cp, Int(0)), Eq(off, Int(0)))))
		case "tag":
			if t.op != "int" {
				st.assume(Ge(t, Int(0)))
				pay := v.L[i+1]
				st.assume(Imp(Eq(t, Int(0)), Eq(pay, Int(0))))
				if n, ok := types.Unalias(ls[i].t).(*types.Named); ok && n.Obj().Name() == "RunItem" && isRepoPkg(n.Obj().Pkg()) {
					st.assume(ex.closedWorld(t, ls[i].t))
				}
			}
		case "brf":
			if t.op != "int" {
				st.assume(Ge(t, Int(0)), Imp(Eq(t, Int(0)), Eq(v.L[i-1], Str(""))))
			}
		case "num":
			if b, ok := ls[i].t.Underlying().(*types.Basic); ok && t.op != "int" {
				if b.Info()&types.IsUnsigned != 0 {
					st.assume(Ge(t, Int(0)))
				}
				if b.Kind() == types.Uint8 {
					st.assume(Le(t, Int(255)))
				}
			}
		}
	}
}

func isConstSlice(a, off, ln, cp *Term) bool {
	_, isTop := asTop(a)
	return isTop && off.op == "int" && ln.op == "int" && cp.op == "int"
}

func (ex *Exec) wfRef(st *State, t *Term) {
	if t.op == "int" {
		return
	}
	if tt, ok := asTop(t); ok && tt.off > 0 {
		return
	}
	st.assume(Ge(t, Int(0)), Le(t, st.top))
}

func (ex *Exec) closedWorld(tag *Term, it types.Type) *Term {
	var or []*Term
	for _, t := range ex.implementers(it) {
		or = append(or, Eq(tag, Int(typeID(t))))
	}
	return Or(or...)
}

// implementers lists the repository's value struct types that implement it.
func (ex *Exec) implementers(it types.Type) []types.Type {
	k := typeName(it)
	if r, ok := ex.implCache[k]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, p := range ex.prog.AllPackages() {
		if !isRepoPkg(p.Pkg) {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), iface) {
				out = append(out, tn.Type())
			}
		}
	}
	// deterministic order
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if typeName(out[j]) < typeName(out[i]) {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	ex.implCache[k] = out
	return out
}

// newRef allocates a new object.
func (st *State) newRef() *Term {
	st.top = Add(st.top, Int(1))
	return st.top
}

// freshVal makes an unconstrained value of type t.
func (ex *Exec) freshVal(st *State, hint string, t types.Type) Val {
	ls := leavesOf(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		h := hint
		if l.path != "" {
			h += "." + l.path
		}
		v.L[i] = Sym(h, l.sort)
		if l.role == "ref" || l.role == "sarr" || l.role == "func" {
			if lt, ok := asTop(st.top); ok {
				refBounds[v.L[i]] = lt
			}
		}
	}
	ex.wf(st, v)
	return v
}

// ---- maps ----

func mapKV(t types.Type) (types.Type, types.Type) {
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem()
}

func mapKeyName(t types.Type) string {
	k, v := mapKV(t)
	return typeName(k) + "|" + typeName(v)
}

func mapKeySort(t types.Type) string {
	k, _ := mapKV(t)
	ls := leavesOf(k)
	if len(ls) != 1 {
		unsup("map key type %s", k)
	}
	return ls[0].sort
}

func mdKey(t types.Type) string           { return "MD|" + mapKeyName(t) }
func mlKey(t types.Type) string           { return "ML|" + mapKeyName(t) }
func mvKey(t types.Type, p string) string { return "MV|" + mapKeyName(t) + "|" + p }

func (st *State) mapDom(t types.Type, m *Term) *Term {
	ks := mapKeySort(t)
	if m.op == "int" && m.ival == 0 {
		return ConstArr(arr(ks, SBool), tFalse)
	}
	return selH(st.arr(mdKey(t), arr(SInt, arr(ks, SBool))), m)
}

func (st *State) mapVals(t types.Type, m *Term) []*Term {
	ks := mapKeySort(t)
	_, vt := mapKV(t)
	var out []*Term
	for _, l := range leavesOf(vt) {
		out = append(out, selH(st.arr(mvKey(t, l.path), arr(SInt, arr(ks, l.sort))), m))
	}
	return out
}

func (st *State) mapLen(t types.Type, m *Term) *Term {
	if m.op == "int" && m.ival == 0 {
		return Int(0)
	}
	return selH(st.arr(mlKey(t), arr(SInt, SInt)), m)
}

// mapHas gives "k in m" as a term.
func (ex *Exec) mapHas(st *State, t types.Type, m, k *Term) *Term {
	in := Select(st.mapDom(t, m), k)
	if m.op == "int" || isTopRef(m) {
		return in
	}
	return And(Not(Eq(m, Int(0))), in)
}

func isTopRef(m *Term) bool {
	tt, ok := asTop(m)
	return ok && (tt.off > 0 || tt.sym != top0)
}

func (ex *Exec) mapGet(st *State, t types.Type, m, k *Term) (Val, *Term) {
	_, vt := mapKV(t)
	has := ex.mapHas(st, t, m, k)
	v := Val{T: vt}
	for i, mv := range st.mapVals(t, m) {
		raw := Select(mv, k)
		v.L = append(v.L, Ite(has, raw, zeroTerm(leavesOf(vt)[i])))
	}
	if has != tTrue && has != tFalse {
		ln := st.mapLen(t, m)
		if ln.op != "int" {
			st.assume(Imp(has, Ge(ln, Int(1))))
		}
	}
	ex.wf(st, v)
	return v, has
}

func (ex *Exec) mapSet(st *State, t types.Type, m, k *Term, v Val) {
	ks := mapKeySort(t)
	_, vt := mapKV(t)
	has := Select(st.mapDom(t, m), k)
	if isPtr(vt) && v.A != nil {
		unsup("interior pointer stored in a map")
	}
	dk := mdKey(t)
	d := st.arr(dk, arr(SInt, arr(ks, SBool)))
	st.heap[dk] = Store(d, m, Store(selH(d, m), k, tTrue))
	st.write(dk, m)
	for i, l := range leavesOf(vt) {
		vk := mvKey(t, l.path)
		a := st.arr(vk, arr(SInt, arr(ks, l.sort)))
		st.heap[vk] = Store(a, m, Store(selH(a, m), k, v.L[i]))
		st.write(vk, m)
	}
	lk := mlKey(t)
	la := st.arr(lk, arr(SInt, SInt))
	ol := selH(la, m)
	st.heap[lk] = Store(la, m, Ite(has, ol, Add(ol, Int(1))))
	st.write(lk, m)
}

func (ex *Exec) mapDelete(st *State, t types.Type, m, k *Term) {
	ks := mapKeySort(t)
	has := ex.mapHas(st, t, m, k)
	dk := mdKey(t)
	d := st.arr(dk, arr(SInt, arr(ks, SBool)))
	st.heap[dk] = Store(d, m, Store(selH(d, m), k, tFalse))
	st.write(dk, m)
	_, vt := mapKV(t)
	for _, l := range leavesOf(vt) {
		vk := mvKey(t, l.path)
		a := st.arr(vk, arr(SInt, arr(ks, l.sort)))
		st.heap[vk] = Store(a, m, Store(selH(a, m), k, zeroTerm(l)))
		st.write(vk, m)
	}
	lk := mlKey(t)
	la := st.arr(lk, arr(SInt, SInt))
	ol := selH(la, m)
	st.heap[lk] = Store(la, m, Ite(has, Sub(ol, Int(1)), ol))
	st.write(lk, m)
}

func (ex *Exec) newMap(st *State, t types.Type) *Term {
	m := st.newRef()
	ks := mapKeySort(t)
	dk := mdKey(t)
	st.heap[dk] = Store(st.arr(dk, arr(SInt, arr(ks, SBool))), m, ConstArr(arr(ks, SBool), tFalse))
	st.write(dk, m)
	lk := mlKey(t)
	st.heap[lk] = Store(st.arr(lk, arr(SInt, SInt)), m, Int(0))
	st.write(lk, m)
	// outside the domain a value array holds zero: contents are equal when they agree on the domain
	_, vt := mapKV(t)
	for _, l := range leavesOf(vt) {
		vk := mvKey(t, l.path)
		st.heap[vk] = Store(st.arr(vk, arr(SInt, arr(ks, l.sort))), m, ConstArr(arr(ks, l.sort), zeroTerm(l)))
		st.write(vk, m)
	}
	return m
}

// havocLoc gives array name a new unknown value at ref.
func (ex *Exec) havocLoc(st *State, name string, ref *Term) {
	a := st.heap[name]
	_, vs := arrParts(a.sort)
	f := Sym("hv."+name, vs)
	if lt, ok := asTop(st.top); ok {
		refBounds[f] = lt
	}
	st.heap[name] = Store(a, ref, f)
	st.write(name, ref)
}

// havocArr gives array name a new unknown value everywhere.
func (ex *Exec) havocArr(st *State, name string) {
	a := st.heap[name]
	f := Sym("ha."+name, a.sort)
	if lt, ok := asTop(st.top); ok {
		refBounds[f] = lt
	}
	st.heap[name] = f
	st.write(name, nil)
}

func isGhostKey(k string) bool { return strings.HasPrefix(k, "G|") }

var _ = ssa.NaiveForm

func isIterKey(k string) bool { return k == "G|$n" || k == "G|$i" }

// ghostKey is where leaf i of a ghost is kept.
func ghostKey(name string, i int) string {
	if i == 0 {
		return "G|" + name
	}
	return fmt.Sprintf("G|%s#%d", name, i)
}

func (st *State) ghostVal(name string, t types.Type) Val {
	v := Val{T: t}
	for i := range leavesOf(t) {
		v.L = append(v.L, st.heap[ghostKey(name, i)])
	}
	return v
}
