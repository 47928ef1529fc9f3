package main

import "golang.org/x/tools/go/ssa"

// Paths that part at an if and meet again are merged at the meeting point when
// the contract asks for it (clause "joins").

var ipdomMemo = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

// ipdom computes immediate post-dominators (nil: the exit).
func ipdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := ipdomMemo[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	full := map[int]bool{}
	for i := range fn.Blocks {
		full[i] = true
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = map[int]bool{i: true}
		} else {
			pd[i] = full
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			x := map[int]bool{}
			for k := range pd[b.Succs[0].Index] {
				ok := true
				for _, s := range b.Succs[1:] {
					if !pd[s.Index][k] {
						ok = false
					}
				}
				if ok {
					x[k] = true
				}
			}
			x[i] = true
			if len(x) != len(pd[i]) {
				pd[i] = x
				ch = true
			}
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the strict post-dominator that all others post-dominate
		var best *ssa.BasicBlock
		for k := range pd[i] {
			if k == i {
				continue
			}
			if best == nil || len(pd[k]) > len(pd[best.Index]) {
				best = fn.Blocks[k]
			}
		}
		res[b] = best
	}
	ipdomMemo[fn] = res
	return res
}

type joinCtx struct {
	at   *ssa.BasicBlock
	arr  []arrival
	loop int
}

type arrival struct {
	fr *Frame
	st *State
}

// meet gives the block at which to merge the two sides of the if ending b, or nil.
//
// A return or panic leaves the region, so such exits do not count as meeting
// points: the block is looked for among the blocks reachable without them.
func meet(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	p := softMeet(b)
	if p == nil || p == b || p.Dominates(b) {
		return nil
	}
	ls := loopsOf(fr.fn)
	if ls[p] != nil {
		return nil
	}
	if n := len(fr.loops); n > 0 && !fr.loops[n-1].blocks[p] {
		return nil
	}
	for _, l := range ls {
		if l.blocks[p] && !l.blocks[b] {
			return nil
		}
	}
	return p
}

var softMemo = map[*ssa.BasicBlock]*ssa.BasicBlock{}

// softMeet: the nearest block every path from b that reaches the join goes
// through, ignoring paths that return.
func softMeet(b *ssa.BasicBlock) *ssa.BasicBlock {
	if m, ok := softMemo[b]; ok {
		return m
	}
	res := ipdom(b.Parent())[b]
	if res == nil && len(b.Succs) == 2 {
		// nearest block dominated by b (entered by several edges) that both sides reach
		r0, r1 := reach(b.Succs[0], b), reach(b.Succs[1], b)
		var cand []*ssa.BasicBlock
		for _, x := range b.Parent().Blocks {
			if r0[x] && r1[x] && len(x.Preds) > 1 && b.Dominates(x) && !returns(x) {
				cand = append(cand, x)
			}
		}
		for _, x := range cand {
			ok := true
			for _, y := range cand {
				if y != x && !reach(x, b)[y] {
					ok = false
				}
			}
			if ok {
				res = x
				break
			}
		}
	}
	softMemo[b] = res
	return res
}

func returns(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 }

func reach(from, not *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	w := []*ssa.BasicBlock{from}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if r[x] || x == not {
			continue
		}
		r[x] = true
		w = append(w, x.Succs...)
	}
	return r
}

// execJoin runs both sides of the if and merges what arrives at block p.
func (ex *Exec) execJoin(fr *Frame, st *State, b, p *ssa.BasicBlock, c *Term) {
	base := st.clone()
	j := &joinCtx{at: p, loop: len(fr.loops)}
	f0 := fr.clone()
	f0.joins = append(append([]*joinCtx{}, fr.joins...), j)
	ex.branch(st, c, func(s *State, v bool, last bool) {
		f := f0.clone()
		if v {
			ex.jump(f, s, b, b.Succs[0])
		} else {
			ex.jump(f, s, b, b.Succs[1])
		}
	})
	arr := j.arr
	used := make([]bool, len(arr))
	for i := range arr {
		if used[i] {
			continue
		}
		cur := arr[i]
		used[i] = true
		for k := i + 1; k < len(arr); k++ {
			if used[k] || len(arr[k].fr.defers) != len(cur.fr.defers) {
				continue
			}
			if m, ok := ex.merge2(base, fr, p, cur, arr[k]); ok {
				cur = m
				used[k] = true
			}
		}
		cur.fr.joins = fr.joins
		ex.exec(cur.fr, cur.st, p, 0)
	}
}

// suffix of the path condition of s beyond base.
func pcSuffix(base, s *State) ([]*Term, bool) {
	bn := 0
	if base.pc != nil {
		bn = base.pc.n
	}
	var suf []*Term
	p := s.pc
	for ; p != nil && p.n > bn; p = p.prev {
		suf = append(suf, p.t)
	}
	if p != base.pc {
		return nil, false
	}
	for a, b := 0, len(suf)-1; a < b; a, b = a+1, b-1 {
		suf[a], suf[b] = suf[b], suf[a]
	}
	return suf, true
}

func (ex *Exec) merge2(base *State, fr0 *Frame, p *ssa.BasicBlock, a, b arrival) (arrival, bool) {
	sa, ok1 := pcSuffix(base, a.st)
	sb, ok2 := pcSuffix(base, b.st)
	if !ok1 || !ok2 {
		return arrival{}, false
	}
	// what differs between the environments and lives on: values defined before the if, and the phis
	f := a.fr.clone()
	f.env = map[ssa.Value]Val{}
	for k, v := range fr0.env {
		f.env[k] = v
	}
	type diff struct {
		k    ssa.Value
		x, y Val
	}
	var ds []diff
	for _, in := range p.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := a.fr.env[phi], b.fr.env[phi]
		if !sameVal(x, y) {
			if !mergeable(x, y) {
				return arrival{}, false
			}
			ds = append(ds, diff{phi, x, y})
		} else {
			f.env[phi] = x
		}
	}
	// memory
	top, ok := joinTop(a.st.top, b.st.top)
	if !ok {
		return arrival{}, false
	}
	inB := map[*Term]bool{}
	for _, t := range sb {
		inB[t] = true
	}
	var common, ga, gb []*Term
	inC := map[*Term]bool{}
	for _, t := range sa {
		if inB[t] {
			common = append(common, t)
			inC[t] = true
		} else {
			ga = append(ga, t)
		}
	}
	for _, t := range sb {
		if !inC[t] {
			gb = append(gb, t)
		}
	}
	g := guardOf(ga, gb)
	if g == nil {
		g = Sym("side", SBool)
	}
	heap := map[string]*Term{}
	for k, v := range a.st.heap {
		w, ok := b.st.heap[k]
		if !ok {
			w = base.heap[k]
			if w == nil {
				heap[k] = v
				continue
			}
		}
		if v == w {
			heap[k] = v
			continue
		}
		m, ok := joinArr(g, v, w, a.st.top, b.st.top, base.top)
		if !ok {
			return arrival{}, false
		}
		heap[k] = m
	}
	for k, w := range b.st.heap {
		if _, ok := a.st.heap[k]; !ok {
			v := base.heap[k]
			if v == nil || v == w {
				heap[k] = w
				continue
			}
			m, ok := joinArr(g, v, w, a.st.top, b.st.top, base.top)
			if !ok {
				return arrival{}, false
			}
			heap[k] = m
		}
	}
	m := base.clone()
	m.heap = heap
	m.top = top
	// write log
	m.writes = a.st.writes
	bn := 0
	if base.writes != nil {
		bn = base.writes.n
	}
	var ws []*wrec
	for w := b.st.writes; w != nil && w.n > bn; w = w.prev {
		ws = append(ws, w)
	}
	for i := len(ws) - 1; i >= 0; i-- {
		if ws[i].since != nil {
			m.writeSince(ws[i].arr, ws[i].since)
		} else {
			m.write(ws[i].arr, ws[i].ref)
		}
	}
	m.assume(common...)
	for _, t := range ga {
		if t != g {
			m.assume(Imp(g, t))
		}
	}
	for _, t := range gb {
		if t != Not(g) {
			m.assume(Imp(Not(g), t))
		}
	}
	for _, d := range ds {
		n := Val{T: d.x.T, A: d.x.A}
		for i := range d.x.L {
			n.L = append(n.L, Ite(g, d.x.L[i], d.y.L[i]))
		}
		f.env[d.k] = n
	}
	return arrival{f, m}, true
}

// guardOf finds a condition that holds on one side and fails on the other.
func guardOf(ga, gb []*Term) *Term {
	neg := map[*Term]bool{}
	for _, t := range gb {
		neg[Not(t)] = true
	}
	for _, t := range ga {
		if neg[t] {
			return t
		}
	}
	return nil
}

func sameVal(x, y Val) bool {
	if len(x.L) != len(y.L) || x.X != y.X || (x.A == nil) != (y.A == nil) || x.A != nil && x.A != y.A && x.A.String() != y.A.String() {
		return false
	}
	for i := range x.L {
		if x.L[i] != y.L[i] {
			return false
		}
	}
	return true
}

func joinTop(a, b *Term) (*Term, bool) {
	if a == b {
		return a, true
	}
	x, ok1 := asTop(a)
	y, ok2 := asTop(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	if topLe(x, y) {
		return b, true
	}
	if topLe(y, x) {
		return a, true
	}
	return nil, false
}

func storeChain(t *Term) []*Term {
	out := []*Term{t}
	for t.op == "store" {
		t = t.args[0]
		out = append(out, t)
	}
	return out
}

// joinArr merges two versions of a heap array that differ by stores.
func joinArr(g, v, w, topV, topW, base *Term) (*Term, bool) {
	if !isArr(v.sort) {
		return Ite(g, v, w), true
	}
	cv, cw := storeChain(v), storeChain(w)
	pos := map[*Term]int{}
	for i, t := range cv {
		pos[t] = i
	}
	iv, iw := -1, -1
	for i, t := range cw {
		if k, ok := pos[t]; ok {
			iv, iw = k, i
			break
		}
	}
	if iv < 0 {
		return nil, false
	}
	res := cw[iw]
	var refs []*Term
	seen := map[*Term]bool{}
	for i := iv - 1; i >= 0; i-- {
		if r := cv[i].args[1]; !seen[r] {
			seen[r] = true
			refs = append(refs, r)
		}
	}
	for i := iw - 1; i >= 0; i-- {
		if r := cw[i].args[1]; !seen[r] {
			seen[r] = true
			refs = append(refs, r)
		}
	}
	bt, _ := asTop(base)
	vt, _ := asTop(topV)
	wt, _ := asTop(topW)
	for _, r := range refs {
		x, y := selH(v, r), selH(w, r)
		// an object only one side allocated
		if lt, ok := asTop(r); ok && lt.sym == bt.sym && lt.off > bt.off {
			inV := vt.sym == lt.sym && vt.off >= lt.off || vt.sym != lt.sym && topLe(lt, vt)
			inW := wt.sym == lt.sym && wt.off >= lt.off || wt.sym != lt.sym && topLe(lt, wt)
			if inV && !inW {
				y = x
			} else if inW && !inV {
				x = y
			}
		}
		res = Store(res, r, Ite(g, x, y))
	}
	return res, true
}

func isArr(sort string) bool { return len(sort) > 6 && sort[:6] == "(Array" }
