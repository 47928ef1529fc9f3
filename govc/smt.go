package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Axiom struct {
	name string
	body *Term
	fns  map[string]bool // uninterpreted functions mentioned
}

type Prelude struct {
	native bool
	axioms []*Axiom
}

var builtinOps = map[string]string{
	"and": "and", "or": "or", "not": "not", "=>": "=>", "ite": "ite", "=": "=", "+": "+", "-": "-", "*": "*",
	"<": "<", "<=": "<=", "select": "select", "store": "store", "div": "div", "mod": "mod", "distinct": "distinct",
}

// string operations: opaque name / native name
var strOps = map[string]string{
	"concat": "str.++", "strlen": "str.len", "prefixof": "str.prefixof", "suffixof": "str.suffixof",
	"contains": "str.contains", "substr": "str.substr", "indexof": "str.indexof", "replaceall": "str.replace_all",
	"strlt": "str.<",
	"code": "str.to_code", "atidx": "str.at",
}

type emitter struct {
	native  bool
	decl    bytes.Buffer
	defs    bytes.Buffer
	seenSym map[string]bool
	names   map[*Term]string
	refs    map[*Term]int
	strs    map[string]string
	strList []string
	fns     map[string]bool
	n       int
}

func (e *emitter) sort(s string) string {
	if e.native {
		s = strings.ReplaceAll(s, "Str", "String")
	}
	return s
}

func (e *emitter) count(t *Term) {
	e.refs[t]++
	if e.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		e.count(a)
	}
	for _, p := range t.pats {
		for _, a := range p {
			e.count(a)
		}
	}
}

func nativeStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c >= 0x20 && c < 0x7f && c != '\\':
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *emitter) ex(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	switch t.op {
	case "int":
		if t.ival < 0 {
			return fmt.Sprintf("(- %d)", -t.ival)
		}
		return fmt.Sprint(t.ival)
	case "true", "false":
		return t.op
	case "str":
		if e.native {
			return nativeStr(t.sval)
		}
		if n, ok := e.strs[t.sval]; ok {
			return n
		}
		n := fmt.Sprintf("str$%d", len(e.strs))
		e.strs[t.sval] = n
		e.strList = append(e.strList, t.sval)
		fmt.Fprintf(&e.decl, "(declare-const %s Str) ; %q\n", n, t.sval)
		return n
	case "var":
		if !e.seenSym[t.sval] {
			e.seenSym[t.sval] = true
			fmt.Fprintf(&e.decl, "(declare-const %s %s)\n", t.sval, e.sort(t.sort))
		}
		return t.sval
	case "qvar":
		return t.sval
	}
	var b strings.Builder
	switch t.op {
	case "forall", "exists":
		n := len(t.args) - 1
		b.WriteString("(" + t.op + " (")
		for _, v := range t.args[:n] {
			fmt.Fprintf(&b, "(%s %s)", v.sval, e.sort(v.sort))
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(e.ex(t.args[n]))
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(e.ex(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	case "constarr":
		if a := t.args[0]; a.sort == SStr && !e.native { // cvc5 only takes values here
			v := e.ex(a)
			n := "carr$" + sanitize(t.sort) + v
			if !e.seenSym[n] {
				e.seenSym[n] = true
				ks, _ := arrParts(t.sort)
				fmt.Fprintf(&e.decl, "(declare-const %s %s)\n(assert (forall ((k %s)) (! (= (select %s k) %s) :pattern ((select %s k)))))\n", n, e.sort(t.sort), e.sort(ks), n, v, n)
			}
			return n
		}
		fmt.Fprintf(&b, "((as const %s) %s)", e.sort(t.sort), e.ex(t.args[0]))
	default:
		op := t.op
		if o, ok := builtinOps[op]; ok {
			op = o
		} else if o, ok := strOps[op]; ok && e.native {
			op = o
		} else if strings.HasPrefix(op, "smt:") { // raw SMT operator (native strings / regex)
			op = op[4:]
		} else {
			if _, ok := strOps[op]; ok {
				op = "s_" + op
			}
			op = sanitize(op)
			e.fns[t.op] = true
			if !e.seenSym[op] {
				e.seenSym[op] = true
				var as []string
				for _, a := range t.args {
					as = append(as, e.sort(a.sort))
				}
				fmt.Fprintf(&e.decl, "(declare-fun %s (%s) %s)\n", op, strings.Join(as, " "), e.sort(t.sort))
			}
			if len(t.args) == 0 {
				return op
			}
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(e.ex(a))
		}
		b.WriteByte(')')
	}
	s := b.String()
	if !t.qv && e.refs[t] > 1 && len(s) > 12 && !strings.HasPrefix(t.sort, "RegLan") {
		e.n++
		n := fmt.Sprintf("t$%d", e.n)
		fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, e.sort(t.sort), s)
		e.names[t] = n
		return n
	}
	return s
}

func fnsOf(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case "int", "true", "false", "str", "var", "qvar", "forall", "exists", "constarr":
	default:
		if _, ok := builtinOps[t.op]; !ok {
			out[t.op] = true
		}
	}
	for _, a := range t.args {
		fnsOf(a, out, seen)
	}
}

// buildQuery renders assumptions ∧ ¬goal.
func buildQuery(pre *Prelude, assumps []*Term, goal *Term, useAxioms bool) string {
	var as []*Term
	as = append(as, assumps...)
	if goal != nil {
		as = append(as, Not(goal))
	}
	if useAxioms {
		have := map[string]bool{}
		seen := map[*Term]bool{}
		for _, a := range as {
			fnsOf(a, have, seen)
		}
		used := map[*Axiom]bool{}
		for ch := true; ch; {
			ch = false
			for _, ax := range pre.axioms {
				if used[ax] {
					continue
				}
				ok := len(ax.fns) == 0
				for f := range ax.fns {
					if have[f] {
						ok = true
					}
				}
				if ok && ax.body.op == "forall" && len(ax.body.pats) > 0 { // what it is triggered by must occur
					ok = false
					for _, p := range ax.body.pats {
						need := map[string]bool{}
						for _, t := range p {
							fnsOf(t, need, map[*Term]bool{})
						}
						all := true
						for f := range need {
							all = all && (have[f] || strOps[f] != "")
						}
						ok = ok || all
					}
				}
				if ok {
					used[ax] = true
					ch = true
					fnsOf(ax.body, have, seen)
				}
			}
		}
		for _, ax := range pre.axioms {
			if used[ax] {
				as = append(as, ax.body)
			}
		}
	}
	e := &emitter{native: pre.native, seenSym: map[string]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, strs: map[string]string{}, fns: map[string]bool{}}
	for _, a := range as {
		e.count(a)
	}
	var body strings.Builder
	for _, a := range as {
		s := e.ex(a)
		body.WriteString(e.defs.String())
		e.defs.Reset()
		body.WriteString("(assert " + s + ")\n")
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if !pre.native {
		b.WriteString("(declare-sort Str 0)\n")
	}
	b.Write(e.decl.Bytes())
	if !pre.native {
		if len(e.strList) > 1 {
			b.WriteString("(assert (distinct")
			for _, s := range e.strList {
				b.WriteString(" " + e.strs[s])
			}
			b.WriteString("))\n")
		}
		if e.fns["strlen"] {
			b.WriteString("(assert (forall ((s Str)) (! (>= (s_strlen s) 0) :pattern ((s_strlen s)))))\n")
			for _, s := range e.strList {
				fmt.Fprintf(&b, "(assert (= (s_strlen %s) %d))\n", e.strs[s], len(s))
			}
			emp, ok := e.strs[""]
			if ok {
				fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (s_strlen s) 0) (= s %s)) :pattern ((s_strlen s)))))\n", emp)
			}
		}
		if e.fns["concat"] && e.fns["contains"] {
			b.WriteString("(assert (forall ((a Str)(b Str)(c Str)) (! (=> (or (= c a) (= c b) (s_contains a c) (s_contains b c)) (s_contains (s_concat a b) c)) :pattern ((s_contains (s_concat a b) c)))))\n")
		}
		if e.fns["substr"] && e.fns["strlen"] {
			b.WriteString("(assert (forall ((s Str)(a Int)(n Int)(c Int)(m Int)) (! (=> (and (<= 0 a) (<= 0 n) (<= (+ a n) (s_strlen s)) (<= 0 c) (<= 0 m) (<= (+ c m) n)) (= (s_substr (s_substr s a n) c m) (s_substr s (+ a c) m))) :pattern ((s_substr (s_substr s a n) c m)))))\n")
			if e.fns["byteat"] {
				b.WriteString("(assert (forall ((s Str)(a Int)(n Int)(i Int)) (! (=> (and (<= 0 a) (<= (+ a n) (s_strlen s)) (<= 0 i) (< i n)) (= (byteat (s_substr s a n) i) (byteat s (+ a i)))) :pattern ((byteat (s_substr s a n) i)))))\n")
			}
			b.WriteString("(assert (forall ((s Str)(n Int)) (! (=> (= n (s_strlen s)) (= (s_substr s 0 n) s)) :pattern ((s_substr s 0 n)))))\n")
		}
		if e.fns["concat"] && e.fns["strlen"] {
			b.WriteString("(assert (forall ((a Str)(b Str)) (! (= (s_strlen (s_concat a b)) (+ (s_strlen a) (s_strlen b))) :pattern ((s_concat a b)))))\n")
		}
	}
	if pre.native && e.fns["byteat"] && strings.Contains(body.String(), "(str.substr ") {
		b.WriteString("(assert (forall ((s String)(a Int)(n Int)(i Int)) (! (=> (and (<= 0 a) (<= (+ a n) (str.len s)) (<= 0 i) (< i n)) (= (byteat (str.substr s a n) i) (byteat s (+ a i)))) :pattern ((byteat (str.substr s a n) i)))))\n")
	}
	b.WriteString(body.String())
	b.WriteString("(check-sat)\n")
	return b.String()
}

type solverStat struct {
	calls  int64
	solved int64
	timeNs int64
}

var (
	slots     = make(chan struct{}, 8)
	statMu    sync.Mutex
	stats     = map[string]*solverStat{}
	queryMemo sync.Map
	nQueries  int64
)

var solverCmd = map[string][]string{
	"z3-new": {"z3-new", "-in", "-smt2"},
	"z3":     {"z3", "-in", "-smt2"},
	"cvc5":   {"cvc5", "--lang=smt2", "--strings-exp", "-q"},
}

func runSolver(ctx context.Context, name, q string, timeout time.Duration) string {
	args := append([]string{}, solverCmd[name]...)
	ms := int(timeout / time.Millisecond)
	if name == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit=%d", ms))
	} else {
		q = fmt.Sprintf("(set-option :timeout %d)\n", ms) + q
	}
	slots <- struct{}{}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return "unknown"
	}
	c, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(q)
	out, _ := cmd.Output()
	dt := time.Since(t0)
	r := "unknown"
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			r = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			r = "error: " + l
			break
		}
	}
	statMu.Lock()
	s := stats[name]
	if s == nil {
		s = &solverStat{}
		stats[name] = s
	}
	s.calls++
	s.timeNs += int64(dt)
	if r == "unsat" || r == "sat" {
		s.solved++
	}
	statMu.Unlock()
	return r
}

type Verdict struct {
	res    string // unsat, sat, unknown, error
	solver string
	dur    time.Duration
	query  string
	all    map[string]string
}

// prove decides assumps ⊢ goal with the portfolio.
func prove(pre *Prelude, assumps []*Term, goal *Term, budget time.Duration) Verdict {
	if goal == tTrue {
		return Verdict{res: "unsat", solver: "simplifier"}
	}
	for _, a := range assumps {
		if a == tFalse || a == goal {
			return Verdict{res: "unsat", solver: "simplifier"}
		}
	}
	q := buildQuery(pre, assumps, goal, true)
	if v, ok := queryMemo.Load(q); ok {
		return v.(Verdict)
	}
	v := portfolio(q, budget, pre.native)
	queryMemo.Store(q, v)
	return v
}

func portfolio(q string, budget time.Duration, native bool) Verdict {
	return portfolioCtx(context.Background(), q, budget)
}

func portfolioCtx(outer context.Context, q string, budget time.Duration) Verdict {
	atomic.AddInt64(&nQueries, 1)
	t0 := time.Now()
	// a short first try, then everything at once
	all := map[string]string{}
	first := 700 * time.Millisecond
	r := runSolver(outer, "z3-new", q, first)
	all["z3-new"] = r
	if r == "unsat" || r == "sat" {
		return Verdict{res: r, solver: "z3-new", dur: time.Since(t0), query: q, all: all}
	}
	ctx, cancel := context.WithCancel(outer)
	defer cancel()
	type res struct{ s, r string }
	ch := make(chan res, 3)
	names := []string{"cvc5", "z3-new", "z3"}
	for _, n := range names {
		go func() { ch <- res{n, runSolver(ctx, n, q, budget)} }()
	}
	best := Verdict{res: "unknown", query: q, all: all}
	for range names {
		x := <-ch
		all[x.s] = x.r
		if x.r == "unsat" {
			best.res, best.solver = "unsat", x.s
			break
		}
		if x.r == "sat" && best.res != "sat" {
			best.res, best.solver = "sat", x.s
			break
		}
		if strings.HasPrefix(x.r, "error") && best.res == "unknown" {
			best.res, best.solver = x.r, x.s
		}
	}
	best.dur = time.Since(t0)
	if d := os.Getenv("GOVC_SLOW"); d != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/%s-%d-%d.smt2", d, best.res, best.dur.Milliseconds(), atomic.LoadInt64(&nQueries)), []byte(q), 0o644)
	}
	return best
}

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

var quantMemo = map[*Term]bool{}

// feasible is a quick satisfiability test of a path (unknown counts as feasible).
func feasible(pre *Prelude, assumps []*Term, extra *Term) bool {
	if extra == tFalse {
		return false
	}
	if extra == tTrue {
		return true
	}
	var as []*Term
	for _, a := range assumps {
		if a == tFalse || a == Not(extra) {
			return false
		}
		if !hasQuant(a, quantMemo) {
			as = append(as, a)
		}
	}
	if hasQuant(extra, quantMemo) {
		return true
	}
	q := buildQuery(pre, append(as, extra), nil, false)
	if v, ok := queryMemo.Load("F" + q); ok {
		return v.(bool)
	}
	r := runSolver(context.Background(), "z3-new", q, 300*time.Millisecond) != "unsat"
	queryMemo.Store("F"+q, r)
	return r
}
