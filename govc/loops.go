package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// loopInfo describes the natural loops of a function.
type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	idx    int
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				li.latch = append(li.latch, b)
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if li.blocks[x] {
						return
					}
					li.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range out {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		out[h].idx = i
	}
	loopCache[fn] = out
	return out
}

func setPhis(fr *Frame, ex *Exec, st *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, ex.val(fr, st, p.Edges[pi]))
	}
	for i, p := range ps {
		fr.env[p] = coerce(vs[i], p.Type())
	}
}

func (ex *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	loops := loopsOf(fr.fn)
	// leave loops that do not contain the target
	for len(fr.loops) > 0 {
		c := fr.loops[len(fr.loops)-1]
		if c.blocks[to] {
			break
		}
		if c.dry {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if li := loops[to]; li != nil {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].header == to {
			c := fr.loops[n-1]
			c.onBack(fr, st, from)
			return
		}
		ex.enterLoop(fr, st, from, li)
		return
	}
	setPhis(fr, ex, st, from, to)
	if n := len(fr.joins); n > 0 && fr.joins[n-1].at == to && fr.joins[n-1].loop == len(fr.loops) {
		fr.joins[n-1].arr = append(fr.joins[n-1].arr, arrival{fr, st})
		return
	}
	ex.exec(fr, st, to, 0)
}

// headerConst tells whether the loop header's test folds to a constant.
func (ex *Exec) headerConst(fr *Frame, st *State, h *ssa.BasicBlock) (res bool, known bool) {
	fr = fr.clone()
	st = st.clone()
	defer func() {
		if r := recover(); r != nil {
			res, known = false, false
		}
	}()
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
			ex.simple(fr, st, in)
		case *ssa.UnOp, *ssa.IndexAddr:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return false, false
			}
			o := ex.multi(fr, st, in)
			if len(o) != 1 {
				return false, false
			}
			fr.env[in.(ssa.Value)] = o[0].ret
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false, false
			}
			o := ex.call(fr, st, x, &x.Call)
			fr.env[x] = o[0].ret
		case *ssa.Next:
			it, ok := ex.val(fr, st, x.Iter).X.(*iterVal)
			if !ok || !it.constant(st) {
				return false, false
			}
			o := ex.multi(fr, st, in)
			if len(o) != 1 {
				return false, false
			}
			fr.env[x] = o[0].ret
		case *ssa.If:
			c := ex.val(fr, st, x.Cond).L[0]
			if isBoolC(c) {
				return c == tTrue, true
			}
			return false, false
		default:
			return false, false
		}
	}
	return false, false
}

const maxUnroll = 40

func (ex *Exec) enterLoop(fr *Frame, st *State, from *ssa.BasicBlock, li *loopInfo) {
	h := li.header
	f := fr.clone()
	setPhis(f, ex, st, from, h)
	if _, known := ex.headerConst(f, st, h); known && ex.unrollable(f, st, li) {
		c := &loopCtx{header: h, blocks: li.blocks, unroll: true}
		var onBack func(fr *Frame, st *State, from *ssa.BasicBlock)
		onBack = func(fr *Frame, st *State, from *ssa.BasicBlock) {
			nc := *fr.loops[len(fr.loops)-1]
			nc.count++
			if nc.count > maxUnroll {
				unsup("loop unrolled more than %d times in %s", maxUnroll, fr.fn)
			}
			fr.loops[len(fr.loops)-1] = &nc
			setPhis(fr, ex, st, from, h)
			if _, known := ex.headerConst(fr, st, h); !known {
				// the test became symbolic: cut here
				fr.loops = fr.loops[:len(fr.loops)-1]
				ex.cutLoop(fr, st, li)
				return
			}
			ex.exec(fr, st, h, 0)
		}
		c.onBack = onBack
		f.loops = append(f.loops, c)
		ex.exec(f, st, h, 0)
		return
	}
	ex.cutLoop(f, st, li)
}

// unrollable: a loop whose test folds now is only unrolled when its bound is a
// small constant (not when it merely starts with a constant test).
func (ex *Exec) unrollable(f *Frame, st *State, li *loopInfo) bool {
	for _, in := range li.header.Instrs {
		if iff, ok := in.(*ssa.If); ok {
			if b, ok := iff.Cond.(*ssa.BinOp); ok {
				switch b.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					return true
				}
			}
			if e, ok := iff.Cond.(*ssa.Extract); ok {
				_, ok = e.Tuple.(*ssa.Next)
				return ok
			}
			return false
		}
	}
	return false
}

// ---- cutting a loop with an invariant ----

type cand struct {
	name string
	// eval gives the invariant in a state where the loop phis have the given values
	eval func(fr *Frame, st *State) (*Term, bool)
	own  func(fr *Frame, st *State) *Term
}

type modSet struct {
	locs  map[string]map[*Term]bool // location havocs
	fresh map[string]bool           // writes only to objects allocated in the loop
	whole map[string]bool
}

func newModSet() *modSet {
	return &modSet{map[string]map[*Term]bool{}, map[string]bool{}, map[string]bool{}}
}

func (m *modSet) add(o *modSet) bool {
	ch := false
	for a, ls := range o.locs {
		if m.locs[a] == nil {
			m.locs[a] = map[*Term]bool{}
		}
		for l := range ls {
			if !m.locs[a][l] {
				m.locs[a][l] = true
				ch = true
			}
		}
	}
	for a := range o.fresh {
		if !m.fresh[a] {
			m.fresh[a] = true
			ch = true
		}
	}
	for a := range o.whole {
		if !m.whole[a] {
			m.whole[a] = true
			ch = true
		}
	}
	return ch
}

type phiKind struct {
	invariant bool
	linear    []int64 // per leaf step (valid where lin[i])
	lin       []bool
	inv       []bool
}

type loopRun struct {
	phis  []*ssa.Phi
	entry map[*ssa.Phi]Val
	kinds map[*ssa.Phi]*phiKind
	mods  *modSet
	heads map[*Term][2]*Term // head ref symbol -> entry value (entry-or-fresh)
	entSt *State
	entFr *Frame
	li    *loopInfo
}

func (ex *Exec) cutLoop(fr *Frame, st *State, li *loopInfo) {
	h := li.header
	lr := &loopRun{entry: map[*ssa.Phi]Val{}, kinds: map[*ssa.Phi]*phiKind{}, mods: newModSet(), entSt: st.clone(), entFr: fr.clone(), li: li}
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			lr.phis = append(lr.phis, p)
			v := fr.env[p]
			if v.A != nil {
				unsup("interior pointer carried around a loop in %s", fr.fn)
			}
			lr.entry[p] = v
			lr.kinds[p] = &phiKind{inv: boolsTrue(len(v.L)), lin: boolsTrue(len(v.L)), linear: make([]int64, len(v.L))}
		}
	}
	key := fmt.Sprintf("%s#%d", fr.fn, li.idx)
	for _, f := range ex.callStack[:len(ex.callStack)-1] {
		key += "<" + f.Name()
	}
	// phase 1: discover modified locations and phi shapes
	for round := 0; ; round++ {
		if round > 12 {
			unsup("modified locations of the loop in %s do not stabilise", fr.fn)
		}
		ex.discover++
		again := ex.dryRun(lr, ex.ownCands(lr), nil)
		ex.discover--
		if !again {
			break
		}
	}
	// phase 2: candidates
	cands := ex.candidates(lr)
	hintKey := key
	if hs, ok := ex.loopHint[hintKey]; ok {
		// survivors of an earlier analysis of the same loop: try these alone first
		var sub []cand
		for _, c := range cands {
			if hs[c.name] || hs["(survey)"] && strings.HasPrefix(c.name, "inv") {
				sub = append(sub, c)
			}
		}
		cands = sub
	}
	// init
	cands = ex.filterCands(cands, func(c cand) (bool, []*Term, *Term) {
		s := lr.entSt.clone()
		ex.setIter(lr, s, Int(0))
		t, ok := c.eval(lr.entFr, s)
		if !ok {
			return false, nil, nil
		}
		return true, s.assumps(), t
	}, ex.spec.candBudget)
	for round := 0; ; round++ {
		if round > 30 {
			unsup("invariant inference does not stabilise in %s", fr.fn)
		}
		type chk struct {
			c  cand
			as []*Term
			g  *Term
		}
		var chks []chk
		bad := map[string]bool{}
		changed := ex.dryRun(lr, cands, func(f *Frame, s *State) {
			for _, c := range cands {
				if bad[c.name] {
					continue
				}
				s2 := s.clone()
				t, ok := c.eval(f, s2)
				if !ok {
					bad[c.name] = true
					continue
				}
				if t == tTrue || s2.facts[t] {
					continue
				}
				chks = append(chks, chk{c, s2.assumps(), t})
			}
		})
		if changed {
			// more writes were found: analyse again with the larger set
			continue
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		// once a candidate has failed its other checks are given up
		sem := make(chan struct{}, 8)
		stop := map[string]context.CancelFunc{}
		ctxs := map[string]context.Context{}
		for _, c := range cands {
			ctxs[c.name], stop[c.name] = context.WithCancel(context.Background())
		}
		for _, k := range chks {
			q := prep(ex.pre, k.as, k.g)
			if q.done {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				mu.Lock()
				b := bad[k.c.name]
				mu.Unlock()
				if b {
					return
				}
				if v := q.runCtx(ctxs[k.c.name], ex.spec.candBudget); v.res != "unsat" {
					if ex.debug && ctxs[k.c.name].Err() == nil {
						dbg("  drop %s: %s (%s)", k.c.name, v.res, key)
						if d := os.Getenv("GOVC_DUMP"); d != "" {
							os.WriteFile(fmt.Sprintf("%s/%s-%s.smt2", d, sanitize(k.c.name), sanitize(filepath.Base(key))), []byte(q.q), 0o644)
						}
					}
					mu.Lock()
					bad[k.c.name] = true
					mu.Unlock()
					stop[k.c.name]()
				}
			}()
		}
		wg.Wait()
		for _, f := range stop {
			f()
		}
		if len(bad) == 0 {
			break
		}
		var keep []cand
		for _, c := range cands {
			if !bad[c.name] {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	hs := map[string]bool{}
	var names []string
	for _, c := range cands {
		hs[c.name] = true
		names = append(names, c.name)
	}
	if ex.loopHint == nil {
		ex.loopHint = map[string]map[string]bool{}
	}
	// a survey of an outer loop's writes knows none of that loop's invariants yet:
	// the stated ones are tried again
	if ex.discover > 0 {
		hs["(survey)"] = true
	}
	ex.loopHint[hintKey] = hs
	if ex.debug && ex.dry == 0 {
		dbg("loop %s invariants: %s", key, strings.Join(names, "; "))
		dbg("   mods: %v", lr.mods)
	}
	// final run
	f, s := ex.headState(lr, cands)
	c := &loopCtx{header: h, blocks: li.blocks}
	c.onBack = func(fr *Frame, st *State, from *ssa.BasicBlock) {
		if lr.outer(ex) {
			ex.hook(fr, st, from.Instrs[len(from.Instrs)-1], "loop.back", nil, nil)
		}
	}
	f.loops = append(f.loops, c)
	ex.exec(f, s, h, 0)
}

func boolsTrue(n int) []bool {
	b := make([]bool, n)
	for i := range b {
		b[i] = true
	}
	return b
}

// setIter records the iteration a state is in: $n for the loop at hand, $i for
// the outermost loop of the function under verification.
func (ex *Exec) setIter(lr *loopRun, st *State, n *Term) {
	st.heap["G|$n"] = n
	if lr.outer(ex) {
		st.heap["G|$i"] = n
	}
}

// outer tells that this is an outermost loop of the function under verification.
func (lr *loopRun) outer(ex *Exec) bool {
	return lr.entFr.fn == ex.targetFn && len(lr.entFr.loops) == 0
}

// headState builds the state of an arbitrary iteration.
func (ex *Exec) headState(lr *loopRun, cands []cand) (*Frame, *State) {
	st := lr.entSt.clone()
	f := lr.entFr.clone()
	entTop := st.top
	st.top = newTop(entTop, "top")
	st.assume(Ge(st.top, entTop))
	n := Sym("n", SInt)
	st.assume(Ge(n, Int(0)))
	ex.setIter(lr, st, n)
	lr.heads = map[*Term][2]*Term{}
	ex.applyMods(st, lr.mods, entTop, lr)
	for _, p := range lr.phis {
		ev := lr.entry[p]
		k := lr.kinds[p]
		ls := leavesOf(p.Type())
		v := Val{T: p.Type(), L: make([]*Term, len(ls))}
		for i, l := range ls {
			switch {
			case k.inv[i]:
				v.L[i] = ev.L[i]
			case k.lin[i] && l.sort == SInt && (l.role == "num" || l.role == "slen" || l.role == "soff"):
				step := k.linear[i]
				if step == 1 {
					v.L[i] = Add(n, ev.L[i])
				} else {
					v.L[i] = Add(Mul(Int(step), n), ev.L[i])
				}
			default:
				v.L[i] = Sym("phi."+p.Comment+"."+l.path, l.sort)
				if l.role == "ref" || l.role == "sarr" || l.role == "func" {
					if lt, ok := asTop(st.top); ok {
						refBounds[v.L[i]] = lt
					}
					lr.heads[v.L[i]] = [2]*Term{ev.L[i], entTop}
				}
			}
		}
		ex.wf(st, v)
		f.env[p] = v
	}
	for _, c := range cands {
		if t, ok := c.eval(f, st); ok {
			st.assume(t)
			if c.own != nil {
				ex.ownPhi[c.own(f, st)] = true
			}
		}
	}
	return f, st
}

func (ex *Exec) applyMods(st *State, m *modSet, entTop *Term, lr *loopRun) {
	var keys []string
	seen := map[string]bool{}
	for k := range m.locs {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for k := range m.fresh {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for k := range m.whole {
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		a, ok := st.heap[k]
		if !ok {
			so, ok2 := arrSorts[k]
			if !ok2 {
				unsup("loop modifies unknown memory %s", k)
			}
			a = st.arr(k, so)
		}
		if m.whole[k] {
			ex.havocArr(st, k)
			continue
		}
		if m.fresh[k] {
			f := Sym("fr."+k, a.sort)
			if lt, ok := asTop(st.top); ok {
				refBounds[f] = lt
			}
			frameOf[f] = frameInfo{bound: entTop, base: a}
			q := QVar("r", SInt)
			st.assume(Forall([]*Term{q}, Imp(Le(q, entTop), mk(Term{op: "=", sort: SBool, args: []*Term{App("select", elemSort(a.sort), f, q), App("select", elemSort(a.sort), a, q)}})), []*Term{App("select", elemSort(a.sort), f, q)}))
			st.heap[k] = f
			st.writeSince(k, entTop)
		}
		var ls []*Term
		for l := range m.locs[k] {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, l := range ls {
			ex.havocLoc(st, k, l)
			if lr != nil && strings.HasSuffix(k, "#arr") {
				if v := Select(st.heap[k], l); v.op == "var" {
					lr.heads[v] = [2]*Term{Select(a, l), entTop}
				}
			}
		}
	}
}

func elemSort(s string) string { _, v := arrParts(s); return v }

// dryRun executes one arbitrary iteration and reports whether the analysis
// must be repeated (more modified locations, or phis of another shape).
func (ex *Exec) dryRun(lr *loopRun, cands []cand, back func(f *Frame, s *State)) bool {
	ex.dry++
	defer func() { ex.dry-- }()
	startSeq := symSeq
	entWrites := 0
	f, s := ex.headState(lr, cands)
	if s.writes != nil {
		entWrites = s.writes.n
	}
	headN := s.heap["G|$n"]
	headVals := map[*ssa.Phi]Val{}
	for _, p := range lr.phis {
		headVals[p] = f.env[p]
	}
	changed := false
	found := newModSet()
	c := &loopCtx{header: lr.li.header, blocks: lr.li.blocks, dry: true}
	c.onBack = func(fr *Frame, st *State, from *ssa.BasicBlock) {
		if lr.outer(ex) {
			ex.hook(fr, st, from.Instrs[len(from.Instrs)-1], "loop.back", nil, nil)
		}
		for w := st.writes; w != nil && w.n > entWrites; w = w.prev {
			ex.classify(found, w, startSeq, lr)
		}
		fr = fr.clone()
		setPhis(fr, ex, st, from, lr.li.header)
		for _, p := range lr.phis {
			k := lr.kinds[p]
			bv, hv := fr.env[p], headVals[p]
			if bv.A != nil {
				unsup("interior pointer carried around a loop")
			}
			for i := range bv.L {
				if k.inv[i] {
					if bv.L[i] != hv.L[i] {
						k.inv[i] = false
						changed = true
						if d := Sub(bv.L[i], hv.L[i]); bv.L[i].sort == SInt && d.op == "int" {
							k.linear[i] = d.ival
						} else {
							k.lin[i] = false
						}
					}
				} else if k.lin[i] {
					if d := Sub(bv.L[i], hv.L[i]); !(bv.L[i].sort == SInt && d.op == "int" && d.ival == k.linear[i]) {
						k.lin[i] = false
						changed = true
					}
				}
			}
		}
		ex.setIter(lr, st, Add(headN, Int(1)))
		if back != nil && !changed {
			back(fr, st)
		}
	}
	f.loops = append(f.loops, c)
	ex.exec(f, s, lr.li.header, 0)
	if lr.mods.add(found) {
		changed = true
	}
	return changed
}

func (ex *Exec) classify(m *modSet, w *wrec, startSeq int, lr *loopRun) {
	if isIterKey(w.arr) {
		return
	}
	if strings.HasPrefix(w.arr, "I|") {
		if _, ok := lr.entSt.heap[w.arr]; !ok {
			return
		}
	}
	if w.since != nil {
		if et, ok := asTop(lr.entSt.top); ok {
			if st, ok := asTop(w.since); ok && topLe(et, st) {
				m.fresh[w.arr] = true
				return
			}
		}
		m.whole[w.arr] = true
		return
	}
	if w.ref == nil {
		m.whole[w.arr] = true
		return
	}
	var cl func(r *Term)
	cl = func(r *Term) {
		if r.seq <= startSeq {
			if m.locs[w.arr] == nil {
				m.locs[w.arr] = map[*Term]bool{}
			}
			m.locs[w.arr][r] = true
			return
		}
		if tt, ok := asTop(r); ok {
			if et, ok := asTop(lr.entSt.top); ok && topLe(linTop{et.sym, et.off + 1}, tt) {
				m.fresh[w.arr] = true
				return
			}
		}
		if hv, ok := lr.heads[r]; ok {
			// entry value or an object allocated in the loop (candidate phiown)
			if ex.ownPhi[r] {
				if !(hv[0].op == "int" && hv[0].ival == 0) {
					cl(hv[0])
				}
				m.fresh[w.arr] = true
				return
			}
		}
		if r.op == "ite" {
			cl(r.args[1])
			cl(r.args[2])
			return
		}
		m.whole[w.arr] = true
	}
	cl(w.ref)
}

type prepared struct {
	done bool
	q    string
	nat  bool
}

func prep(pre *Prelude, as []*Term, g *Term) *prepared {
	if g == tTrue {
		return &prepared{done: true}
	}
	for _, a := range as {
		if a == tFalse || a == g {
			return &prepared{done: true}
		}
	}
	return &prepared{q: buildQuery(pre, as, g, true), nat: pre.native}
}

func (p *prepared) run(budget time.Duration) Verdict {
	return p.runCtx(context.Background(), budget)
}

func (p *prepared) runCtx(ctx context.Context, budget time.Duration) Verdict {
	if p.done {
		return Verdict{res: "unsat"}
	}
	if v, ok := queryMemo.Load(p.q); ok {
		return v.(Verdict)
	}
	v := portfolioCtx(ctx, p.q, budget)
	if v.res == "unsat" || v.res == "sat" {
		queryMemo.Store(p.q, v)
	}
	return v
}

func (ex *Exec) filterCands(cs []cand, f func(c cand) (bool, []*Term, *Term), budget time.Duration) []cand {
	ok := make([]bool, len(cs))
	var wg sync.WaitGroup
	for i, c := range cs {
		good, as, g := f(c)
		if !good {
			continue
		}
		q := prep(ex.pre, as, g)
		if q.done {
			ok[i] = true
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := q.run(ex.spec.candBudget)
			ok[i] = v.res == "unsat"
			if ex.debug && !ok[i] {
				dbg("  init drop %s: %s", c.name, v.res)
				if d := os.Getenv("GOVC_DUMP"); d != "" {
					os.WriteFile(d+"/init_"+sanitize(c.name)+".smt2", []byte(q.q), 0o644)
				}
			}
		}()
	}
	wg.Wait()
	var out []cand
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		}
	}
	return out
}

// candidates proposes invariants for the loop.
func (ex *Exec) candidates(lr *loopRun) []cand {
	var out []cand
	h := lr.li.header
	// bounds from the loop test
	var iff *ssa.If
	for _, in := range h.Instrs {
		if x, ok := in.(*ssa.If); ok {
			iff = x
		}
	}
	if iff != nil {
		if b, ok := iff.Cond.(*ssa.BinOp); ok {
			for _, side := range []struct {
				x, y ssa.Value
				op   token.Token
			}{{b.X, b.Y, b.Op}, {b.Y, b.X, flip(b.Op)}} {
				x, y := side.x, side.y
				base, off := ssaLin(x)
				p, ok := base.(*ssa.Phi)
				if !ok || p.Block() != h {
					continue
				}
				if !definedOutside(y, lr.li.blocks) {
					continue
				}
				if leavesOf(p.Type())[0].sort != SInt {
					continue
				}
				switch side.op {
				case token.LSS, token.NEQ, token.LEQ:
					d := off - 1
					if side.op == token.LEQ {
						d = off - 1
					}
					if side.op == token.LSS || side.op == token.NEQ {
						d = off
					}
					_ = d
					// before the test with x = phi+off < y: phi+off <= y held or loop ended
					out = append(out, cand{name: fmt.Sprintf("bound:%s", p.Name()), eval: func(fr *Frame, st *State) (*Term, bool) {
						lim := ex.val(fr, st, y).L[0]
						v := fr.env[p].L[0]
						if side.op == token.LEQ {
							return Le(Add(v, Int(off)), Add(lim, Int(1))), true
						}
						return Le(Add(v, Int(off)), lim), true
					}})
				case token.GTR, token.GEQ:
					out = append(out, cand{name: fmt.Sprintf("bound:%s", p.Name()), eval: func(fr *Frame, st *State) (*Term, bool) {
						lim := ex.val(fr, st, y).L[0]
						v := fr.env[p].L[0]
						if side.op == token.GEQ {
							return Ge(Add(v, Int(off)), Sub(lim, Int(1))), true
						}
						return Ge(Add(v, Int(off)), lim), true
					}})
				}
			}
		}
		// map iteration: what was seen was in the map
		if e, ok := iff.Cond.(*ssa.Extract); ok {
			if nx, ok := e.Tuple.(*ssa.Next); ok {
				if it, ok := lr.entFr.env[nx.Iter].X.(*iterVal); ok && it.isMap {
					out = append(out, cand{name: "seen-sub:" + nx.Name(), eval: func(fr *Frame, st *State) (*Term, bool) {
						v, ok := st.heap[it.key]
						if !ok {
							return nil, false
						}
						q := QVar("k", mapKeySort(it.t))
						sel := Select(v, q)
						return Forall([]*Term{q}, Imp(sel, And(Not(Eq(it.m, Int(0))), Select(st.mapDom(it.t, it.m), q))), []*Term{sel}), true
					}})
				} else if ok && !it.isMap {
					out = append(out, cand{name: "strpos:" + nx.Name(), eval: func(fr *Frame, st *State) (*Term, bool) {
						v, ok := st.heap[it.key]
						if !ok {
							return nil, false
						}
						return And(Ge(v, Int(0)), Le(v, StrLen(it.s))), true
					}})
				}
			}
		}
	}
	for _, p := range lr.phis {
		k := lr.kinds[p]
		for i, l := range leavesOf(p.Type()) {
			if k.inv[i] {
				continue
			}
			if l.role == "num" && !k.lin[i] {
				out = append(out, cand{name: fmt.Sprintf("nonneg:%s.%s", p.Name(), l.path), eval: func(fr *Frame, st *State) (*Term, bool) {
					return Ge(fr.env[p].L[i], Int(0)), true
				}})
			}
			if l.role == "sarr" {
			}
		}
	}
	out = append(out, ex.ownCands(lr)...)
	out = append(out, ex.frameCands(lr)...)
	out = append(out, ex.userCands(lr)...)
	return out
}

// frameCands: memory a loop may write anywhere (it calls something that does)
// still holds at old references what it held when the function was entered, and
// at references made before the loop what it held at the start of the loop,
// except where the contract lets the function write.
func (ex *Exec) frameCands(lr *loopRun) []cand {
	if ex.target == nil || ex.topEnv == nil || ex.target.modAll || lr.entFr.fn != ex.targetFn {
		return nil
	}
	var keys []string
	for _, k := range sortedKeys(lr.mods.whole) {
		if strings.HasPrefix(k, "E|") || strings.HasPrefix(k, "H|") || strings.HasPrefix(k, "MD|") || strings.HasPrefix(k, "MV|") || strings.HasPrefix(k, "ML|") {
			if _, ok := arrSorts[k]; ok {
				keys = append(keys, k)
			}
		}
	}
	if len(keys) == 0 {
		return nil
	}
	targets := func(st *State) []modTarget {
		env := *ex.topEnv
		env.st = st
		var out []modTarget
		for _, m := range ex.target.modifies {
			out = append(out, ex.modTargets(&env, m)...)
		}
		return out
	}
	var out []cand
	atEntry := targets(ex.topEnv.st)
	atLoop := append(targets(lr.entSt), atEntry...)
	add := func(name, k string, from *State, top *Term, ts []modTarget) {
		var refs []*Term
		for _, t := range ts {
			if t.arr == k {
				if t.ref == nil {
					return
				}
				refs = append(refs, t.ref)
			}
		}
		a0 := from.arr(k, arrSorts[k])
		out = append(out, cand{name: name + k, eval: func(fr *Frame, st *State) (*Term, bool) {
			a1, ok := st.heap[k]
			if !ok {
				return nil, false
			}
			if a1 == a0 {
				return tTrue, true
			}
			q := QVar("r", SInt)
			lo := int64(0)
			if strings.HasPrefix(k, "E|") { // a nil slice has no elements
				lo = 1
			}
			cond := []*Term{Ge(q, Int(lo)), Le(q, top)}
			for _, t := range refs {
				cond = append(cond, Not(Eq(q, t)))
			}
			s1 := Select(a1, q)
			return Forall([]*Term{q}, Imp(And(cond...), Eq(s1, Select(a0, q))), []*Term{s1}), true
		}})
	}
	for _, k := range keys {
		add("frame:", k, ex.topEnv.st, top0, atEntry)
		add("loopframe:", k, lr.entSt, lr.entSt.top, atLoop)
	}
	return out
}

// ownCands: a carried slice or reference is the one the loop started with or
// one allocated by the loop.
func (ex *Exec) ownCands(lr *loopRun) []cand {
	var out []cand
	for _, p := range lr.phis {
		k := lr.kinds[p]
		for i, l := range leavesOf(p.Type()) {
			if k.inv[i] || l.role != "sarr" && l.role != "ref" {
				continue
			}
			ev := lr.entry[p]
			out = append(out, cand{name: fmt.Sprintf("own:%s.%s", p.Name(), l.path), eval: func(fr *Frame, st *State) (*Term, bool) {
				x := fr.env[p].L[i]
				return Or(Eq(x, ev.L[i]), Gt(x, lr.entSt.top)), true
			}, own: func(fr *Frame, st *State) *Term { return fr.env[p].L[i] }})
		}
	}
	// variables in memory that hold slices
	for _, k := range sortedKeys(lr.mods.locs) {
		if !strings.HasPrefix(k, "H|") || !strings.HasSuffix(k, "#arr") || lr.mods.whole[k] || lr.mods.fresh[k] {
			continue
		}
		var ls []*Term
		for l := range lr.mods.locs[k] {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for i, l := range ls {
			a0, ok := lr.entSt.heap[k]
			if !ok {
				a0 = lr.entSt.arr(k, arrSorts[k])
			}
			ev := Select(a0, l)
			out = append(out, cand{name: fmt.Sprintf("own:%s@%d", k, i), eval: func(fr *Frame, st *State) (*Term, bool) {
				x := Select(st.heap[k], l)
				return Or(Eq(x, ev), Gt(x, lr.entSt.top)), true
			}, own: func(fr *Frame, st *State) *Term { return Select(st.heap[k], l) }})
		}
	}
	return out
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func ssaLin(v ssa.Value) (ssa.Value, int64) {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				n := c.Int64()
				if b.Op == token.SUB {
					n = -n
				}
				x, o := ssaLin(b.X)
				return x, o + n
			}
		}
	}
	return v, 0
}

func definedOutside(v ssa.Value, blocks map[*ssa.BasicBlock]bool) bool {
	if in, ok := v.(ssa.Instruction); ok {
		return !blocks[in.Block()]
	}
	return true
}

// userCands instantiates the contract's schematic loop invariants over the
// values that are live at the loop head.
func (ex *Exec) userCands(lr *loopRun) []cand {
	if ex.spec == nil {
		return nil
	}
	var out []cand
	var invs []*LoopInv
	if ex.target != nil {
		invs = append(invs, ex.target.loops...)
	}
	if c := ex.spec.contractFor(lr.li.header.Parent()); c != nil && c != ex.target {
		invs = append(invs, c.loops...)
	}
	if len(invs) == 0 {
		return nil
	}
	type nv struct {
		name string
		get  func(fr *Frame, st *State) (Val, bool)
		t    types.Type
		phi  bool
		made bool
	}
	var vals []nv
	add := func(v ssa.Value, name string) {
		if p, ok := v.(*ssa.Phi); ok && p.Comment == "rangeindex" {
			// the number of completed iterations of a range loop
			vals = append(vals, nv{name, func(fr *Frame, st *State) (Val, bool) {
				x, ok := fr.env[v]
				if ok {
					x = num(Add(x.L[0], Int(1)))
				}
				return x, ok
			}, v.Type(), false, false})
			return
		}
		made := false
		switch v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
			made = true
		}
		vals = append(vals, nv{name: name, get: func(fr *Frame, st *State) (Val, bool) { x, ok := fr.env[v]; return x, ok }, t: v.Type(), made: made})
	}
	for _, p := range lr.phis {
		add(p, p.Name())
		vals[len(vals)-1].phi = true
	}
	// values defined before the loop and used inside or after it
	for v, x := range lr.entFr.env {
		if _, isPhi := v.(*ssa.Phi); isPhi && v.(ssa.Instruction).Block() == lr.li.header {
			continue
		}
		if x.X != nil && len(x.L) == 0 {
			continue
		}
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc, *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Slice, *ssa.UnOp, *ssa.Lookup, *ssa.MakeChan:
			add(v, v.Name())
		}
	}
	// variables captured by function values that the loop may call
	for v, x := range lr.entFr.env {
		if _, ok := v.Type().Underlying().(*types.Signature); !ok || len(x.L) != 1 || x.L[0].op != "int" {
			continue
		}
		if cl := funcTab[x.L[0].ival]; cl != nil {
			for i, b := range cl.bind {
				b := b
				vals = append(vals, nv{v.Name() + "." + cl.fn.FreeVars[i].Name(), func(fr *Frame, st *State) (Val, bool) { return b, true }, b.T, false, false})
			}
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].name < vals[j].name })
	for _, inv := range invs {
		var rec func(i int, env map[string]nv, nm string)
		count := 0
		rec = func(i int, env map[string]nv, nm string) {
			if count > 60 {
				return
			}
			if i == len(inv.vars) {
				count++
				e2 := map[string]nv{}
				for k, v := range env {
					e2[k] = v
				}
				out = append(out, cand{name: inv.name + "(" + nm + ")", eval: func(fr *Frame, st *State) (*Term, bool) {
					env := ex.loopEnv(lr, fr, st)
					for k, v := range e2 {
						x, ok := v.get(fr, st)
						if !ok {
							return nil, false
						}
						if isCell(v.t, inv, k) {
							x = ex.load(st, ex.addrOf(x))
						}
						env.names[k] = x
						if p, ok := v.get(lr.entFr, lr.entSt); ok {
							if isCell(v.t, inv, k) {
								p = ex.load(lr.entSt, ex.addrOf(p))
							}
							if env.preNames == nil {
								env.preNames = map[string]Val{}
							}
							env.preNames[k] = p
						}
					}
					t, err := ex.tryEval(env, inv.expr)
					if err != nil {
						if ex.debug {
							dbg("candidate %s(%s): %v", inv.name, nm, err)
						}
						return nil, false
					}
					return t, true
				}})
				return
			}
			want := inv.types[i]
			for _, v := range vals {
				if inv.made[i] && !v.made {
					continue
				}
				if inv.phi[i] && !v.phi {
					continue
				}
				if typeName(v.t) == typeName(want) || isPtrTo(v.t, want) && isAlloc(v.name) {
					env[inv.vars[i]] = v
					rec(i+1, env, nm+","+v.name)
				}
			}
			delete(env, inv.vars[i])
		}
		rec(0, map[string]nv{}, "")
	}
	return out
}

func isAlloc(n string) bool { return true }

func isPtrTo(t, el types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == typeName(el)
}

func isCell(t types.Type, inv *LoopInv, name string) bool {
	for i, v := range inv.vars {
		if v == name {
			return typeName(t) != typeName(inv.types[i])
		}
	}
	return false
}

// loopEnv is the specification scope inside a loop of the target.
func (ex *Exec) loopEnv(lr *loopRun, fr *Frame, st *State) *SpecEnv {
	env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}}
	if ex.topEnv != nil {
		env.old = ex.topEnv.st
		env.oldEnv = ex.topEnv
		for k, v := range ex.topEnv.names {
			env.names[k] = v
		}
		env.pkg = ex.topEnv.pkg
		env.cells = ex.topEnv.cells
		if fr.fn == ex.targetFn {
			env.cells = localCells(fr)
		}
	}
	env.names["$n"] = term1(tyInt, st.heap["G|$n"])
	if t := st.heap["G|$i"]; t != nil {
		env.names["$i"] = term1(tyInt, t)
	}
	env.loopEntry = lr.entSt
	env.iter = headIter(lr.entFr, lr.li.header)
	if env.iter != nil && !env.iter.isMap && st.heap[env.iter.key] != nil { // the place reached in a string
		env.names["$p"] = term1(tyInt, st.heap[env.iter.key])
	}
	for i := len(lr.entFr.loops) - 1; i >= 0 && env.iter == nil; i-- { // else that of the map loop around it
		if it := headIter(lr.entFr, lr.entFr.loops[i].header); it != nil && it.isMap {
			env.iter = it
		}
	}
	return env
}

func headIter(fr *Frame, h *ssa.BasicBlock) *iterVal {
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := fr.env[nx.Iter].X.(*iterVal); ok {
				return it
			}
		}
	}
	return nil
}

// ---- range over maps and strings ----

type iterVal struct {
	isMap bool
	t     types.Type
	m     *Term
	s     *Term
	key   string
	dom   *Term // the keys at the start
	size  *Term
}

func (it *iterVal) constant(st *State) bool {
	if it.isMap {
		if it.m.op == "int" && it.m.ival == 0 {
			return true
		}
		return false
	}
	return isStrC(it.s) && len(it.s.sval) <= maxUnroll && st.heap[it.key].op == "int"
}

var iterSeq int

func (ex *Exec) rangeInit(fr *Frame, st *State, in *ssa.Range) Val {
	x := ex.val(fr, st, in.X)
	iterSeq++
	it := &iterVal{key: fmt.Sprintf("I|%d", iterSeq), t: in.X.Type()}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		it.s = x.L[0]
		st.heap[it.key] = Int(0)
	} else {
		it.isMap = true
		it.m = x.L[0]
		it.dom, it.size = st.mapDom(it.t, it.m), st.mapLen(it.t, it.m)
		st.heap[it.key] = ConstArr(arr(mapKeySort(it.t), SBool), tFalse)
	}
	st.write(it.key, nil)
	return Val{T: in.Type(), X: it}
}

func (ex *Exec) next(fr *Frame, st *State, in *ssa.Next) []Outcome {
	it := ex.val(fr, st, in.Iter).X.(*iterVal)
	tt := in.Type().(*types.Tuple)
	if !it.isMap {
		pos := st.heap[it.key]
		if isStrC(it.s) && pos.op == "int" {
			p := int(pos.ival)
			if p >= len(it.s.sval) {
				return []Outcome{{st, Val{T: tt, L: []*Term{tFalse, Int(0), Int(0)}}}}
			}
			for i, r := range it.s.sval[p:] {
				_ = i
				st.heap[it.key] = Int(int64(p + len(string(r))))
				st.write(it.key, nil)
				return []Outcome{{st, Val{T: tt, L: []*Term{tTrue, pos, Int(int64(r))}}}}
			}
		}
		var outs []Outcome
		ex.branch(st, Lt(pos, StrLen(it.s)), func(s *State, b bool, last bool) {
			if !b {
				outs = append(outs, Outcome{s, Val{T: tt, L: []*Term{tFalse, Int(0), Int(0)}}})
				return
			}
			r := App("runeat", SInt, it.s, pos)
			w := App("runewidth", SInt, it.s, pos)
			s.assume(Ge(r, Int(0)), Ge(w, Int(1)), Le(w, Int(4)), Le(Add(pos, w), StrLen(it.s)), Or(Eq(r, Int(0xFFFD)), Eq(w, App("runelen", SInt, r))), Le(r, Int(0x10FFFF)))
			s.heap[it.key] = Add(pos, w)
			s.write(it.key, nil)
			outs = append(outs, Outcome{s, Val{T: tt, L: []*Term{tTrue, pos, r}}})
		})
		return outs
	}
	kt, vt := mapKV(it.t)
	if it.m.op == "int" && it.m.ival == 0 {
		return []Outcome{{st, Val{T: tt, L: append(append([]*Term{tFalse}, zeroVal(kt).L...), zeroVal(vt).L...)}}}
	}
	ks := mapKeySort(it.t)
	s1, s2 := st, st.clone()
	vis := st.heap[it.key]
	more := Sym("more", SBool)
	// one more element
	k := Sym("key", ks)
	s1.assume(more)
	s1.assume(Not(Eq(it.m, Int(0))), Select(s1.mapDom(it.t, it.m), k), Not(Select(vis, k)), Ge(s1.mapLen(it.t, it.m), Int(1)))
	v, _ := ex.mapGet(s1, it.t, it.m, k)
	s1.heap[it.key] = Store(vis, k, tTrue)
	s1.write(it.key, nil)
	// blank variables have invalid types in the tuple
	kv := Val{T: kt, L: []*Term{k}}
	ex.wf(s1, kv)
	l1 := []*Term{tTrue}
	l2 := []*Term{tFalse}
	if isValid(tt.At(1).Type()) {
		l1 = append(l1, k)
		l2 = append(l2, zeroVal(kt).L...)
	}
	if isValid(tt.At(2).Type()) {
		l1 = append(l1, v.L...)
		l2 = append(l2, zeroVal(vt).L...)
	}
	mv1 := []Val{term1(tyBool, tTrue), kv, v}
	mv2 := []Val{term1(tyBool, tFalse), zeroVal(kt), zeroVal(vt)}
	// finished: every key present has been visited
	s2.assume(Not(more))
	q := QVar("k", ks)
	dom := s2.mapDom(it.t, it.m)
	s2.assume(Or(Eq(it.m, Int(0)), Forall([]*Term{q}, Imp(Select(dom, q), Select(vis, q)), []*Term{Select(dom, q)}, []*Term{Select(vis, q)})))
	// an unchanged map has been visited once per key
	if n := len(fr.loops); n > 0 && fr.loops[n-1].header == in.Block() && !fr.loops[n-1].unroll && it.dom != nil && s2.heap["G|$n"] != nil {
		if dom == it.dom && s2.mapLen(it.t, it.m) == it.size {
			s1.assume(Lt(s1.heap["G|$n"], it.size))
			s2.assume(Eq(s2.heap["G|$n"], Ite(Eq(it.m, Int(0)), Int(0), it.size)))
		}
	}
	return []Outcome{{s1, Val{T: tt, L: l1, X: mv1}}, {s2, Val{T: tt, L: l2, X: mv2}}}
}

func isValid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return !ok || b.Kind() != types.Invalid
}
