package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	tag string
	src string
	e   ast.Expr
}

type LoopInv struct {
	phi   []bool // only a variable that this loop changes
	made  []bool // only a map or slice made in this function
	name  string
	vars  []string
	types []types.Type
	texpr []ast.Expr
	expr  ast.Expr
}

type Contract struct {
	name     string
	file     string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	modifies []Clause
	modAll   bool
	loops    []*LoopInv
	lets     []letDef
	nopanic  bool
	trusted  bool
	pure     bool
	inl      map[string]bool
	fn       *ssa.Function
	recvType types.Type
	extern   bool
	nomerge  bool
	joins    bool
	cases    bool
	used     bool
	decr     ast.Expr
	decrSrc  string
	lem      *lemma
}

// lemma: a statement proved from the axioms (and the lemmas before it), by
// induction on one of its parameters or directly, and then used like an axiom.
type lemma struct {
	params []string // "x T"
	by     string
	uses   []ast.Expr
	trig   string
	claim  string
	axiom  int // its place among the axioms
}

type letDef struct {
	name string
	e    ast.Expr
}

type macro struct {
	params []string
	body   ast.Expr
}

type ufun struct {
	params []types.Type
	res    types.Type
}

type hookAct struct {
	kind string // set, check, assume
	name string
	idx  ast.Expr
	e    ast.Expr
	tag  string
	src  string

	params, results []string // apply
}

type hookDef struct {
	name    string // function short name or chan.send etc.
	after   bool
	params  []string
	results []string
	acts    []hookAct
	file    string
	guard   bool   // a rule for calls that may be absent
	in      string // only while this contract is verified
}

type ghost struct {
	local bool // belongs to one activation of the function under verification
	t     types.Type
	init  ast.Expr
	arr   bool   // per-reference ghost
	ksort string // what it is indexed by
}

type Spec struct {
	contracts  map[string]*Contract
	order      []*Contract
	externs    map[string]*Contract
	macros     map[string]*macro
	funs       map[string]*ufun
	axioms     []Clause
	ghosts     map[string]*ghost
	hooks      []*hookDef
	budget     time.Duration
	candBudget time.Duration
	native     bool
	prog       *ssa.Program
	pkgByName  map[string]*types.Package
	alsoVerify map[string]bool
	globalInl  map[string]bool
	fileInl    map[string]map[string]bool
	mainFile   string
}

func specPre(s string) string {
	// $name outside string literals
	var b strings.Builder
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case in != 0:
			if c == '\\' && in != '`' && i+1 < len(s) {
				b.WriteByte(c)
				i++
				c = s[i]
			} else if c == in {
				in = 0
			}
		case c == '"' || c == '`' || c == '\'':
			in = c
		case c == '$':
			b.WriteString("S_")
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func parseE(src string) ast.Expr {
	e, err := parser.ParseExpr(specPre(src))
	if err != nil {
		fatal("spec expression %q: %v", src, err)
	}
	return e
}

func fatal(f string, a ...any) {
	panic(fatalErr{fmt.Sprintf(f, a...)})
}

type fatalErr struct{ msg string }

// logical lines: joined while brackets are open or an operator dangles
func specLines(file string) []string {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var out []string
	cur := ""
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], `"`) {
			l = l[:i]
		}
		t := strings.TrimRight(l, " \t")
		if strings.TrimSpace(t) == "" && cur == "" {
			continue
		}
		if cur == "" {
			cur = t
		} else {
			cur += " " + strings.TrimSpace(t)
		}
		if openBrackets(cur) > 0 || dangling(cur) {
			continue
		}
		out = append(out, cur)
		cur = ""
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func dangling(s string) bool {
	s = strings.TrimSpace(s)
	for _, op := range []string{"&&", "||", "==", "!=", "+", ",", "="} {
		if strings.HasSuffix(s, op) {
			return true
		}
	}
	return false
}

func openBrackets(s string) int {
	d := 0
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in != 0 {
			if c == '\\' && in == '"' {
				i++
			} else if c == in {
				in = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			in = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	return d
}

func splitSig(s string) (name string, params, results []string) {
	i := strings.Index(s, "(")
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s[1:], "(") + 1
	}
	if i < 0 {
		return strings.TrimSpace(s), nil, nil
	}
	name = strings.TrimSpace(s[:i])
	rest := s[i:]
	j := strings.Index(rest, ")")
	params = fields(rest[1:j])
	rest = strings.TrimSpace(rest[j+1:])
	if strings.HasPrefix(rest, "(") {
		results = fields(strings.Trim(rest, "()"))
	}
	return
}

func fields(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f != "" {
			out = append(out, f)
		}
	}
	return out
}

func newSpec(prog *ssa.Program) *Spec {
	s := &Spec{contracts: map[string]*Contract{}, externs: map[string]*Contract{}, macros: map[string]*macro{}, funs: map[string]*ufun{}, ghosts: map[string]*ghost{}, prog: prog, pkgByName: map[string]*types.Package{}, globalInl: map[string]bool{}, budget: 20 * time.Second, candBudget: 4 * time.Second, fileInl: map[string]map[string]bool{}, alsoVerify: map[string]bool{}}
	var add func(p *types.Package, repo bool)
	seen := map[*types.Package]bool{}
	add = func(p *types.Package, repo bool) {
		if seen[p] {
			return
		}
		seen[p] = true
		if old, ok := s.pkgByName[p.Name()]; !ok || isRepoPkg(p) || !isRepoPkg(old) && len(p.Path()) < len(old.Path()) {
			s.pkgByName[p.Name()] = p
		}
		for _, q := range p.Imports() {
			add(q, false)
		}
	}
	for _, p := range prog.AllPackages() {
		add(p.Pkg, true)
	}
	return s
}

func (s *Spec) load(file string, main bool) {
	var c *Contract
	var hk *hookDef
	base := filepath.Base(file)
	for _, line := range specLines(file) {
		indented := line[0] == ' ' || line[0] == '\t'
		t := strings.TrimSpace(line)
		word := t
		rest := ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			word, rest = t[:i], strings.TrimSpace(t[i:])
		}
		if !indented {
			c, hk = nil, nil
		}
		if c == nil && hk == nil {
			switch word {
			case "import":
				for _, f := range strings.Fields(rest) {
					s.load(filepath.Join(filepath.Dir(file), f+".spec"), false)
				}
			case "native":
				s.native = true
			case "verify": // imported contracts that are verified here too
				if main {
					for _, f := range strings.Fields(rest) {
						s.alsoVerify[f] = true
					}
				}
			case "fun":
				i := strings.Index(rest, "(")
				j := strings.LastIndex(rest, ")")
				u := &ufun{}
				for _, p := range fields(rest[i+1 : j]) {
					u.params = append(u.params, s.typ(parseE(p)))
				}
				u.res = s.typ(parseE(rest[j+1:]))
				s.funs[strings.TrimSpace(rest[:i])] = u
			case "axiom":
				if strings.HasPrefix(rest, "local ") {
					if !main {
						continue
					}
					rest = strings.TrimPrefix(rest, "local ")
				}
				not := ""
				if x, ok := strings.CutPrefix(rest, "except "); ok {
					not, rest, _ = strings.Cut(x, ":")
				}
				s.axioms = append(s.axioms, Clause{" " + strings.TrimSpace(not) + " ", rest, parseE(rest)})
			case "def":
				i := strings.Index(rest, "=")
				j := strings.Index(rest, "(")
				var ps []string
				name := strings.TrimSpace(rest[:i])
				if j >= 0 && j < i {
					k := strings.Index(rest, ")")
					ps = fields(rest[j+1 : k])
					name = strings.TrimSpace(rest[:j])
					i = k + strings.Index(rest[k:], "=")
				}
				s.macros[name] = &macro{ps, parseE(rest[i+1:])}
			case "ghost":
				f := strings.SplitN(rest, "=", 2)
				nt := strings.Fields(f[0])
				g := &ghost{ksort: SInt}
				if nt[0] == "local" {
					g.local = true
					nt = nt[1:]
				}
				ty := strings.Join(nt[1:], " ")
				if strings.HasPrefix(ty, "per ") {
					g.arr = true
					ty = strings.TrimPrefix(ty, "per ")
					if r, ok := strings.CutPrefix(ty, "string to "); ok {
						ty, g.ksort = r, SStr
					}
				}
				g.t = s.typ(parseE(ty))
				if len(f) == 2 {
					g.init = parseE(f[1])
				}
				s.ghosts[nt[0]] = g
			case "budget":
				d, err := time.ParseDuration(rest)
				if err != nil {
					fatal("budget %v", err)
				}
				s.budget = d
			case "inline":
				if s.fileInl[base] == nil {
					s.fileInl[base] = map[string]bool{}
				}
				for _, f := range strings.Fields(rest) {
					s.fileInl[base][f] = true
				}
			case "transparent":
				for _, f := range strings.Fields(rest) {
					specTransparent[f] = true
				}
			case "lemma":
				if !main {
					c = &Contract{lem: &lemma{}}
					continue
				}
				i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
				c = &Contract{name: "lemma " + rest[:i], file: base, lem: &lemma{axiom: len(s.axioms)}}
				c.lem.params = splitTop(rest[i+1 : j])
				c.lem.by = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), "by "))
				s.contracts[c.name] = c
				s.order = append(s.order, c)
				s.axioms = append(s.axioms, Clause{"", rest, nil})
			case "func", "extern":
				n, ps, rs := splitSig(rest)
				if old, ok := s.contracts[n]; ok && old.file != base && !main {
					// imported twice
					c = &Contract{}
					continue
				}
				c = &Contract{name: n, params: ps, results: rs, file: base, inl: map[string]bool{}}
				if word == "extern" {
					c.extern, c.trusted = true, true
					s.externs[n] = c
				} else {
					s.contracts[n] = c
					s.order = append(s.order, c)
				}
			case "on":
				kind := rest
				after := false
				w2 := kind
				r2 := ""
				if i := strings.IndexAny(kind, " \t"); i >= 0 {
					w2, r2 = kind[:i], strings.TrimSpace(kind[i:])
				}
				if w2 == "return" {
					after = true
				} else if w2 == "back" { // the end of an iteration of an outermost loop
					hk = &hookDef{name: "loop.back", file: base, in: strings.TrimSpace(strings.TrimPrefix(r2, "in "))}
					if main {
						s.hooks = append(s.hooks, hk)
					}
					continue
				} else if w2 != "call" && w2 != "any" { // any: a call that need not exist, but if it does ...
					fatal("on %s", w2)
				}
				in := ""
				if i := strings.LastIndex(r2, ") in "); i >= 0 {
					in, r2 = strings.TrimSpace(r2[i+5:]), r2[:i+1]
				}
				n, ps, rs := splitSig(r2)
				hk = &hookDef{name: n, after: after, params: ps, results: rs, file: base, in: in, guard: w2 == "any"}
				if main {
					s.hooks = append(s.hooks, hk)
				}
			default:
				fatal("%s: unknown directive %q", base, t)
			}
			continue
		}
		tag := ""
		if strings.HasPrefix(rest, "[") && word != "loop" {
			i := strings.Index(rest, "]")
			tag = rest[1:i]
			rest = strings.TrimSpace(rest[i+1:])
		}
		if hk != nil {
			switch word {
			case "set":
				i := strings.Index(rest, "=")
				lhs := strings.TrimSpace(rest[:i])
				a := hookAct{kind: "set", name: lhs, e: parseE(rest[i+1:]), src: rest}
				if j := strings.Index(lhs, "["); j >= 0 {
					a.name = lhs[:j]
					a.idx = parseE(strings.TrimSuffix(lhs[j+1:], "]"))
				}
				hk.acts = append(hk.acts, a)
			case "havoc":
				for _, m := range splitTop(rest) {
					hk.acts = append(hk.acts, hookAct{kind: word, e: parseE(m), src: m})
				}
			case "check", "assume":
				hk.acts = append(hk.acts, hookAct{kind: word, e: parseE(rest), tag: tag, src: rest})
			case "apply": // apply f(a, b) (r, s): COND
				i := strings.Index(rest, ":")
				n, ps, rs := splitSig(rest[:i])
				hk.acts = append(hk.acts, hookAct{kind: word, name: n, params: ps, results: rs, e: parseE(rest[i+1:]), tag: tag, src: rest})
			default:
				fatal("%s: unknown hook action %q", base, t)
			}
			continue
		}
		switch word {
		case "requires":
			c.requires = append(c.requires, Clause{tag, rest, parseE(rest)})
		case "ensures":
			c.ensures = append(c.ensures, Clause{tag, rest, parseE(rest)})
		case "modifies":
			if rest == "everything" {
				c.modAll = true
				break
			}
			for _, m := range splitTop(rest) {
				c.modifies = append(c.modifies, Clause{tag, m, parseE(m)})
			}
		case "let":
			i := strings.Index(rest, "=")
			c.lets = append(c.lets, letDef{strings.TrimSpace(rest[:i]), parseE(rest[i+1:])})
		case "loop":
			li := &LoopInv{name: fmt.Sprintf("inv%d", len(c.loops)+1)}
			if strings.HasPrefix(rest, "(") {
				d, j := 0, 0
				for j = range rest {
					if rest[j] == '(' {
						d++
					} else if rest[j] == ')' {
						d--
						if d == 0 {
							break
						}
					}
				}
				for _, p := range splitTop(rest[1:j]) {
					p = strings.TrimSpace(p)
					if p == "" {
						continue
					}
					k := strings.IndexAny(p, " ")
					li.vars = append(li.vars, p[:k])
					ts, only := strings.CutPrefix(p[k+1:], "phi ")
					li.phi = append(li.phi, only)
					ts, only = strings.CutPrefix(ts, "new ")
					li.made = append(li.made, only)
					li.texpr = append(li.texpr, parseE(ts))
				}
				rest = rest[j+1:]
			}
			li.expr = parseE(rest)
			for _, te := range li.texpr {
				li.types = append(li.types, s.typ(te))
			}
			c.loops = append(c.loops, li)
		case "uses":
			for _, u := range splitTop(rest) {
				c.lem.uses = append(c.lem.uses, parseE(u))
			}
		case "trig":
			c.lem.trig = rest
		case "claim":
			c.lem.claim = rest
			if c.name == "" {
				break
			}
			q := rest
			if c.lem.by != "" {
				q = "imp(" + c.lem.by + " >= 0, " + q + ")"
			}
			q = "trig(" + q + ", " + c.lem.trig + ")"
			for i := len(c.lem.params) - 1; i >= 0; i-- {
				n, t, _ := strings.Cut(c.lem.params[i], " ")
				q = "all(" + n + ", " + t + ", " + q + ")"
			}
			s.axioms[c.lem.axiom] = Clause{"", q, parseE(q)}
		case "decreases": // a measure that goes down at every recursive call, and is not negative there
			c.decr, c.decrSrc = parseE(rest), rest
		case "nopanic":
			c.nopanic = true
		case "trusted":
			c.trusted = true
		case "joins":
			c.joins = true
		case "nomerge":
			c.nomerge = true
		case "inline":
			for _, f := range strings.Fields(rest) {
				c.inl[f] = true
			}
		default:
			fatal("%s: unknown clause %q", base, t)
		}
	}
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

func (s *Spec) contractFor(fn *ssa.Function) *Contract {
	return s.contracts[fnShort(fn)]
}

// localGhost tells whether memory key k belongs to an activation-local ghost.
func (s *Spec) localGhost(k string) bool {
	n, ok := strings.CutPrefix(k, "G|")
	if !ok {
		if n, ok = strings.CutPrefix(k, "GA|"); !ok {
			return false
		}
	}
	n, _, _ = strings.Cut(n, "#")
	g := s.ghosts[n]
	return g != nil && g.local
}

// saysLocal tells that a clause speaks about a ghost of one activation: it is
// proved for a function, and says nothing to its callers.
func (s *Spec) saysLocal(e ast.Expr, depth int) bool {
	hit := false
	ast.Inspect(e, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || hit || depth > 12 {
			return !hit
		}
		if g := s.ghosts[id.Name]; g != nil && g.local {
			hit = true
		} else if m, ok := s.macros[id.Name]; ok && s.saysLocal(m.body, depth+1) {
			hit = true
		}
		return !hit
	})
	return hit
}

func (s *Spec) extern(name string) *Contract { return s.externs[name] }

func (s *Spec) inlines(c *Contract, name string) bool {
	return c != nil && (c.inl[name] || s.fileInl[c.file][name])
}

// localType finds a type declared inside a function.
func localType(sc *types.Scope, name string) types.Type {
	for i := 0; i < sc.NumChildren(); i++ {
		c := sc.Child(i)
		if tn, ok := c.Lookup(name).(*types.TypeName); ok {
			return tn.Type()
		}
		if t := localType(c, name); t != nil {
			return t
		}
	}
	return nil
}

// typ resolves a type expression.
func (s *Spec) typ(e ast.Expr) types.Type {
	switch x := e.(type) {
	case *ast.Ident:
		switch x.Name {
		case "error":
			return tyError
		case "any":
			return types.Universe.Lookup("any").Type()
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := s.pkgByName[id.Name]; p != nil {
				if o := p.Scope().Lookup(x.Sel.Name); o != nil {
					return o.Type()
				}
				if t := localType(p.Scope(), x.Sel.Name); t != nil {
					return t
				}
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(s.typ(x.X))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(s.typ(x.Elt))
		}
	case *ast.MapType:
		return types.NewMap(s.typ(x.Key), s.typ(x.Value))
	case *ast.ParenExpr:
		return s.typ(x.X)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "content" && len(x.Args) == 1 {
			return contentType(s.typ(x.Args[0]))
		}
	case *ast.IndexExpr: // G[T]
		if t, err := types.Instantiate(nil, s.typ(x.X), []types.Type{s.typ(x.Index)}, false); err == nil {
			return t
		}
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	panic(specErr{fmt.Sprintf("unknown type %s", exprStr(e))})
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

type specErr struct{ msg string }

// ---- evaluation ----

type SpecEnv struct {
	ex        *Exec
	st        *State
	old       *State
	oldEnv    *SpecEnv
	names     map[string]Val
	pkg       *types.Package
	loopEntry *State
	preNames  map[string]Val // loop variables at loop entry
	iter      *iterVal
	depth     int
	cells     map[string]Val // variables that live in memory: their addresses
}

// cell reads a variable that lives in memory (a captured or an escaping local).
func (env *SpecEnv) cell(p Val) Val {
	el := p.T.Underlying().(*types.Pointer).Elem()
	if structOf(el) != nil || strings.HasPrefix(typeName(el), "sync.") {
		return p
	}
	v := env.ex.load(env.st, env.ex.addrOf(p))
	v.T = el
	return v
}

// localCells are the variables of a frame that live in memory, by name (unless the name is ambiguous).
func localCells(fr *Frame) map[string]Val {
	m := map[string]Val{}
	twice := map[string]bool{}
	add := func(n string, v Val) {
		if _, ok := m[n]; ok || twice[n] {
			delete(m, n)
			twice[n] = true
			return
		}
		m[n] = v
	}
	for v, x := range fr.env {
		switch a := v.(type) {
		case *ssa.Alloc:
			if token.IsIdentifier(a.Comment) {
				add(a.Comment, x)
			}
		case *ssa.FreeVar:
			add(a.Name(), x)
		}
	}
	return m
}

func (env *SpecEnv) with(name string, v Val) *SpecEnv {
	n := *env
	n.names = make(map[string]Val, len(env.names)+1)
	for k, x := range env.names {
		n.names[k] = x
	}
	n.names[name] = v
	return &n
}

func (env *SpecEnv) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (ex *Exec) tryEval(env *SpecEnv, e ast.Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", x.msg)
			case unsupported:
				err = fmt.Errorf("%s", x.msg)
			case string:
				if !strings.HasPrefix(x, "Eq sorts") {
					panic(r)
				}
				err = fmt.Errorf("%s", x)
			default:
				panic(r)
			}
		}
	}()
	v := env.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SBool {
		return nil, fmt.Errorf("not a boolean: %s", exprStr(e))
	}
	return v.L[0], nil
}

func (ex *Exec) evalBool(env *SpecEnv, c Clause) *Term {
	t, err := ex.tryEval(env, c.e)
	if err != nil {
		unsup("specification %q: %v", c.src, err)
	}
	return t
}

func bl(t *Term) Val  { return term1(tyBool, t) }
func num(t *Term) Val { return term1(tyInt, t) }

var untypedNil = types.Typ[types.UntypedNil]

func (env *SpecEnv) evalB(e ast.Expr) *Term {
	v := env.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SBool {
		env.fail("not a boolean: %s", exprStr(e))
	}
	return v.L[0]
}

func (env *SpecEnv) eval(e ast.Expr) Val {
	ex := env.ex
	switch x := e.(type) {
	case *ast.ParenExpr:
		return env.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			n, _ := constant.Int64Val(c)
			return num(Int(n))
		case token.CHAR:
			c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			n, _ := constant.Int64Val(c)
			return num(Int(n))
		case token.STRING:
			return term1(tyString, Str(constant.StringVal(constant.MakeFromLiteral(x.Value, x.Kind, 0))))
		}
	case *ast.Ident:
		if v, ok := env.names[x.Name]; ok {
			return v
		}
		if strings.HasPrefix(x.Name, "S_") {
			if v, ok := env.names["$"+x.Name[2:]]; ok {
				return v
			}
		}
		if p, ok := env.cells[x.Name]; ok {
			return env.cell(p)
		}
		switch x.Name {
		case "true":
			return bl(tTrue)
		case "false":
			return bl(tFalse)
		case "nil":
			return Val{T: untypedNil, L: []*Term{Int(0)}}
		}
		if m, ok := ex.spec.macros[x.Name]; ok && len(m.params) == 0 {
			return env.eval(m.body)
		}
		if g, ok := ex.spec.ghosts[x.Name]; ok && !g.arr {
			return env.st.ghostVal(x.Name, g.t)
		}
		if u, ok := ex.spec.funs[x.Name]; ok && len(u.params) == 0 {
			return term1(u.res, NamedSym("f:"+x.Name, leavesOf(u.res)[0].sort))
		}
		if env.pkg != nil {
			if o := env.pkg.Scope().Lookup(x.Name); o != nil {
				return env.object(o)
			}
		}
		env.fail("unknown name %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, bound := env.names[id.Name]; !bound {
				if p := ex.spec.pkgByName[id.Name]; p != nil {
					if o := p.Scope().Lookup(x.Sel.Name); o != nil {
						return env.object(o)
					}
					env.fail("unknown %s.%s", id.Name, x.Sel.Name)
				}
			}
		}
		return env.field(env.eval(x.X), x.Sel.Name)
	case *ast.StarExpr:
		v := env.eval(x.X)
		return ex.load(env.st, ex.addrOf(v))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return bl(Not(env.evalB(x.X)))
		case token.SUB:
			return num(Sub(Int(0), env.eval(x.X).L[0]))
		case token.AND: // &p.f
			if sel, ok := x.X.(*ast.SelectorExpr); ok {
				p := env.eval(sel.X)
				if pt, ok := p.T.Underlying().(*types.Pointer); ok {
					if u, ok := pt.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < u.NumFields(); i++ {
							if u.Field(i).Name() == sel.Sel.Name {
								return ex.fieldAddr(p, i, types.NewPointer(u.Field(i).Type()))
							}
						}
					}
				}
			}
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			return bl(And(env.evalB(x.X), env.evalB(x.Y)))
		case token.LOR:
			return bl(Or(env.evalB(x.X), env.evalB(x.Y)))
		case token.EQL:
			return bl(env.eq(env.eval(x.X), env.eval(x.Y)))
		case token.NEQ:
			return bl(Not(env.eq(env.eval(x.X), env.eval(x.Y))))
		}
		a, b := env.eval(x.X), env.eval(x.Y)
		if len(a.L) != 1 || len(b.L) != 1 {
			env.fail("operator on a composite: %s", exprStr(e))
		}
		p, q := a.L[0], b.L[0]
		switch x.Op {
		case token.ADD:
			if p.sort == SStr {
				return term1(a.T, Concat(p, q))
			}
			return num(Add(p, q))
		case token.SUB:
			return num(Sub(p, q))
		case token.MUL:
			return num(Mul(p, q))
		case token.QUO:
			return num(quo(p, q))
		case token.REM:
			return num(rem(p, q))
		case token.LSS:
			if p.sort == SStr {
				return bl(strLt(p, q))
			}
			return bl(Lt(p, q))
		case token.LEQ:
			if p.sort == SStr {
				return bl(Not(strLt(q, p)))
			}
			return bl(Le(p, q))
		case token.GTR:
			if p.sort == SStr {
				return bl(strLt(q, p))
			}
			return bl(Lt(q, p))
		case token.GEQ:
			if p.sort == SStr {
				return bl(Not(strLt(p, q)))
			}
			return bl(Le(q, p))
		}
	case *ast.IndexExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if g, ok := ex.spec.ghosts[id.Name]; ok && g.arr {
				i := env.eval(x.Index).L[0]
				return term1(g.t, selH(env.st.arr("GA|"+id.Name, arr(i.sort, leavesOf(g.t)[0].sort)), i))
			}
		}
		v := env.eval(x.X)
		i := env.eval(x.Index)
		if mt := contentBase(v.T); mt != nil {
			_, vt := mapKV(mt)
			r := Val{T: vt}
			env.keyOK(mt, i)
			for k := range leavesOf(vt) {
				r.L = append(r.L, Select(v.L[1+k], i.L[0]))
			}
			return r
		}
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			if isByteSlice(v.T) {
				return num(App("byteat", SInt, v.L[0], i.L[0]))
			}
			p := elemPtr(types.NewPointer(u.Elem()), v, i.L[0], u.Elem())
			return ex.load(env.st, p.A)
		case *types.Map:
			env.keyOK(v.T, i)
			r, _ := ex.mapGet(env.st, v.T, v.L[0], i.L[0])
			return r
		case *types.Basic:
			return ex.byteAt(env.st, v.L[0], i.L[0], types.Typ[types.Uint8])
		case *types.Array:
			if i.L[0].op == "int" {
				n := len(leavesOf(u.Elem()))
				k := int(i.L[0].ival)
				return Val{T: u.Elem(), L: v.L[k*n : (k+1)*n]}
			}
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				a := ex.addrOf(v)
				return ex.load(env.st, &Addr{ref: a.ref, owner: at.Elem(), elem: true, idx: i.L[0], t: at.Elem()})
			}
		}
		env.fail("index of %s", v.T)
	case *ast.SliceExpr:
		v := env.eval(x.X)
		lo := Int(0)
		if x.Low != nil {
			lo = env.eval(x.Low).L[0]
		}
		switch v.T.Underlying().(type) {
		case *types.Basic, *types.Slice:
			if _, sl := v.T.Underlying().(*types.Slice); sl && !isByteSlice(v.T) {
				break
			}
			hi := StrLen(v.L[0])
			if x.High != nil {
				hi = env.eval(x.High).L[0]
			}
			r := substr(nil, v.L[0], lo, hi)
			if env.st != nil && !r.qv && r.op == "substr" {
				env.st.assume(Imp(And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, StrLen(v.L[0]))), Eq(StrLen(r), Sub(hi, lo))))
			}
			return Val{T: v.T, L: append([]*Term{r}, v.L[1:]...)}
		}
		switch v.T.Underlying().(type) {
		case *types.Slice:
			hi := v.L[2]
			if x.High != nil {
				hi = env.eval(x.High).L[0]
			}
			return Val{T: v.T, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
		}
	case *ast.CallExpr:
		return env.call(x)
	case *ast.CompositeLit:
		t := ex.spec.typ(x.Type)
		s := structOf(t)
		if s == nil {
			env.fail("composite %s", exprStr(e))
		}
		v := zeroVal(t)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == kv.Key.(*ast.Ident).Name {
					lo, hi := fieldRange(t, i)
					w := env.adapt(env.eval(kv.Value), s.Field(i).Type())
					copy(v.L[lo:hi], w.L)
				}
			}
		}
		return v
	}
	env.fail("unsupported specification expression %s", exprStr(e))
	return Val{}
}

func (env *SpecEnv) keyOK(m types.Type, k Val) {
	if len(k.L) != 1 || k.L[0].sort != mapKeySort(m) {
		env.fail("index of another type than the map's keys")
	}
}

func (env *SpecEnv) adapt(v Val, t types.Type) Val {
	if v.T == untypedNil {
		return zeroVal(t)
	}
	if types.IsInterface(t) && !types.IsInterface(v.T) {
		return env.ex.makeIface(env.st, v, v.T, t)
	}
	v.T = t
	return v
}

func (env *SpecEnv) eq(a, b Val) *Term {
	if a.T == untypedNil {
		a, b = b, a
	}
	if b.T == untypedNil {
		switch a.T.Underlying().(type) {
		case *types.Slice:
			if isByteSlice(a.T) {
				return Eq(a.L[1], Int(0))
			}
		}
		if a.A != nil {
			return tFalse
		}
		return Eq(a.L[0], Int(0))
	}
	if types.IsInterface(a.T) != types.IsInterface(b.T) {
		return env.ex.equal(env.st, a, b)
	}
	if len(a.L) != len(b.L) {
		env.fail("comparison of %s and %s (%v, %v)", a.T, b.T, a, b)
	}
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			env.fail("comparison of %s and %s (%v, %v)", a.T, b.T, a, b)
		}
	}
	return eqVals(a, b)
}

func (env *SpecEnv) object(o types.Object) Val {
	ex := env.ex
	switch x := o.(type) {
	case *types.Func:
		if fn := ex.prog.FuncValue(x); fn != nil {
			return ex.funcVal(fn, nil)
		}
	case *types.Const:
		switch x.Val().Kind() {
		case constant.Bool:
			return term1(x.Type(), Bool(constant.BoolVal(x.Val())))
		case constant.String:
			return term1(x.Type(), Str(constant.StringVal(x.Val())))
		case constant.Int:
			n, _ := constant.Int64Val(x.Val())
			return term1(x.Type(), Int(n))
		}
	case *types.Var:
		p := ex.prog.Package(x.Pkg())
		if p != nil {
			if g, ok := p.Members[x.Name()].(*ssa.Global); ok {
				if v, ok := ex.globalConst(env.st, g); ok {
					return v
				}
				ref := ex.globalRef(g)
				return ex.load(env.st, &Addr{ref: ref, owner: x.Type(), t: x.Type()})
			}
		}
		return ex.extGlobal(x)
	}
	env.fail("object %s", o)
	return Val{}
}

func (env *SpecEnv) field(v Val, name string) Val {
	ex := env.ex
	t := v.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s := structOf(p.Elem())
		if s == nil {
			env.fail("field %s of %s", name, t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				fa := ex.fieldAddr(v, i, types.NewPointer(s.Field(i).Type()))
				return ex.load(env.st, fa.A)
			}
		}
		// promoted through embedded fields
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				fa := ex.fieldAddr(v, i, types.NewPointer(s.Field(i).Type()))
				return env.field(ex.load(env.st, fa.A), name)
			}
		}
		env.fail("no field %s in %s", name, t)
	}
	s := structOf(t)
	if s == nil {
		env.fail("field %s of %s", name, t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			lo, hi := fieldRange(t, i)
			return Val{T: s.Field(i).Type(), L: v.L[lo:hi]}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			lo, hi := fieldRange(t, i)
			return env.field(Val{T: s.Field(i).Type(), L: v.L[lo:hi]}, name)
		}
	}
	env.fail("no field %s in %s", name, t)
	return Val{}
}

// reindex shifts a bound index variable so that memory is read at the variable itself.
func reindex(q *Term, body *Term) []*Term {
	offs := map[*Term]bool{}
	plain := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.qv {
			return
		}
		seen[t] = true
		if t.op == "select" {
			i := t.args[1]
			switch {
			case i == q:
				plain = true
			case i.op == "+" && len(i.args) == 2 && i.args[0] == q && !mentions(i.args[1], q):
				offs[i.args[1]] = true
			case i.op == "+" && len(i.args) == 2 && i.args[1] == q && !mentions(i.args[0], q):
				offs[i.args[0]] = true
			case i.op == "+" && len(i.args) == 2 && i.args[0].op == "+" && !mentions(i.args[1], q):
				a := i.args[0]
				if a.args[0] == q && !mentions(a.args[1], q) {
					offs[Add(a.args[1], i.args[1])] = true
				} else if a.args[1] == q && !mentions(a.args[0], q) {
					offs[Add(a.args[0], i.args[1])] = true
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var os []*Term
	inner := boundIn(body)
	for o := range offs {
		if !mentionsAny(o, inner) {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	if len(os) == 0 {
		return nil
	}
	if len(os) > 3 {
		os = os[:3]
	}
	_ = plain
	return os
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	if x.qv && !t.qv {
		return false
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// boundIn lists the variables of the quantifiers inside t.
func boundIn(t *Term) map[*Term]bool {
	out, seen := map[*Term]bool{}, map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			for _, v := range t.args[:len(t.args)-1] {
				out[v] = true
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func mentionsAny(t *Term, vs map[*Term]bool) bool {
	if len(vs) == 0 || !t.qv {
		return false
	}
	qs := map[*Term]bool{}
	collectQV(t, qs)
	for q := range qs {
		if vs[q] {
			return true
		}
	}
	return false
}

// triggers picks select terms indexed by exactly q.
func triggers(q, body *Term) [][]*Term {
	inner := boundIn(body)
	var out [][]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.qv {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1] == q && !mentions(t.args[0], q) && !hasIte(t) && !mentionsAny(t, inner) {
			out = append(out, []*Term{t})
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

// forall joins nested universal quantifiers and uses a trigger given with trig(...).
func (env *SpecEnv) forall(qs []*Term, body *Term, trig [][]*Term) *Term {
	ex := env.ex
	if len(ex.ownTrig) > 0 {
		trig = [][]*Term{ex.ownTrig}
		ex.ownTrig = nil
		return Forall(qs, body, trig...)
	}
	if body.op == "forall" && len(ex.pendTrig) > 0 {
		n := len(body.args) - 1
		qs = append(append([]*Term{}, qs...), body.args[:n]...)
		body = body.args[n]
	} else if ex.pendUsed {
		// the trigger belongs to a quantifier further in
		ex.pendTrig = nil
	}
	ex.pendUsed = false
	if len(ex.pendTrig) > 0 {
		cov := map[*Term]bool{}
		for _, t := range ex.pendTrig {
			collectQV(t, cov)
		}
		all := true
		for _, q := range qs {
			if !cov[q] {
				all = false
			}
		}
		if all {
			trig = [][]*Term{ex.pendTrig}
			for q := range cov {
				in := false
				for _, p := range qs {
					in = in || p == q
				}
				all = all && in
			}
			if all {
				ex.pendTrig = nil
			} else {
				ex.pendUsed = true
			}
		}
	}
	return Forall(qs, body, trig...)
}

func (env *SpecEnv) quant(x *ast.CallExpr, universal bool) Val {
	id, ok := x.Args[0].(*ast.Ident)
	if !ok {
		env.fail("bound variable")
	}
	mkq := func(q *Term, guard, body *Term, trig [][]*Term) *Term {
		if universal {
			return env.forall([]*Term{q}, Imp(guard, body), trig)
		}
		return Exists([]*Term{q}, And(guard, body))
	}
	if len(x.Args) == 4 {
		lo, hi := env.eval(x.Args[1]).L[0], env.eval(x.Args[2]).L[0]
		// small constant ranges are expanded
		if lo.op == "int" && hi.op == "int" && hi.ival-lo.ival <= 8 {
			var ts []*Term
			for i := lo.ival; i < hi.ival; i++ {
				ts = append(ts, env.with(id.Name, num(Int(i))).evalB(x.Args[3]))
			}
			if universal {
				return bl(And(ts...))
			}
			return bl(Or(ts...))
		}
		q := QVar(id.Name, SInt)
		body := env.with(id.Name, num(q)).evalB(x.Args[3])
		guard := And(Le(lo, q), Lt(q, hi))
		os := reindex(q, body)
		if len(os) == 0 {
			return bl(mkq(q, guard, body, triggers(q, body)))
		}
		var parts []*Term
		if len(os) > 1 {
			env.ex.pendTrig = nil
		}
		for _, o := range os {
			q2 := QVar(id.Name, SInt)
			m := map[*Term]*Term{q: App("-", SInt, q2, o)}
			b2 := substIdx(body, q, q2, o, m)
			g2 := And(Le(Add(lo, o), q2), Lt(q2, Add(hi, o)))
			if len(os) == 1 {
				for i, t := range env.ex.pendTrig {
					env.ex.pendTrig[i] = substIdx(t, q, q2, o, m)
				}
			}
			parts = append(parts, mkq(q2, g2, b2, triggers(q2, b2)))
		}
		if universal {
			return bl(And(parts...))
		}
		return bl(parts[0])
	}
	t := env.ex.spec.typ(x.Args[1])
	ls := leavesOf(t)
	v := Val{T: t}
	var qs []*Term
	for _, l := range ls {
		q := QVar(id.Name, l.sort)
		qs = append(qs, q)
		v.L = append(v.L, q)
	}
	body := env.with(id.Name, v).evalB(x.Args[2])
	var trig [][]*Term
	if len(qs) == 1 {
		trig = triggers(qs[0], body)
	}
	if universal {
		return bl(env.forall(qs, body, trig))
	}
	return bl(Exists(qs, body))
}

// substIdx substitutes q := q2 - o, simplifying o + (q2 - o) to q2.
func substIdx(t, q, q2, o *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == q {
			return m[q]
		}
		if !t.qv {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.op == "+" {
			// collect addends
			var adds []*Term
			var fl func(x *Term)
			fl = func(x *Term) {
				if x.op == "+" {
					fl(x.args[0])
					fl(x.args[1])
					return
				}
				adds = append(adds, x)
			}
			fl(t)
			nq, rest := 0, []*Term{}
			for _, a := range adds {
				if a == q {
					nq++
				} else {
					rest = append(rest, rec(a))
				}
			}
			if nq == 1 {
				sum := Int(0)
				for _, r := range rest {
					sum = Add(sum, r)
				}
				d := Sub(sum, o)
				r := Add(q2, d)
				if sum == o {
					r = q2
				}
				memo[t] = r
				return r
			}
		}
		n := make([]*Term, len(t.args))
		for i, a := range t.args {
			n[i] = rec(a)
		}
		var r *Term
		if len(t.pats) > 0 {
			ps := make([][]*Term, len(t.pats))
			for i, p := range t.pats {
				for _, a := range p {
					ps[i] = append(ps[i], rec(a))
				}
			}
			r = quant(t.op, n[:len(n)-1], n[len(n)-1], ps)
		} else {
			r = rebuild(t, n)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (env *SpecEnv) call(x *ast.CallExpr) Val {
	ex := env.ex
	name := ""
	if id, ok := x.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	arg := func(i int) Val {
		if i >= len(x.Args) {
			env.fail("too few arguments of %s", name)
		}
		return env.eval(x.Args[i])
	}
	switch name {
	case "all":
		return env.quant(x, true)
	case "ex":
		return env.quant(x, false)
	case "rows": // rows(s, []T, P(s)): every array of elements, s[i] counted from its start
		t := env.ex.spec.typ(x.Args[1])
		q := QVar(x.Args[0].(*ast.Ident).Name, SInt)
		v := Val{T: t, L: []*Term{q}}
		for range leavesOf(t)[1:] {
			v.L = append(v.L, Int(0))
		}
		return bl(env.forall([]*Term{q}, env.with(x.Args[0].(*ast.Ident).Name, v).evalB(x.Args[2]), nil))
	case "imp":
		a := env.evalB(x.Args[0])
		if a == tFalse {
			return bl(tTrue)
		}
		return bl(Imp(a, env.evalB(x.Args[1])))
	case "iff":
		return bl(Eq(env.evalB(x.Args[0]), env.evalB(x.Args[1])))
	case "ite":
		c := env.evalB(x.Args[0])
		if c == tTrue {
			return arg(1)
		}
		if c == tFalse {
			return arg(2)
		}
		a, b := arg(1), arg(2)
		if a.T == untypedNil {
			a = zeroVal(b.T)
		}
		if b.T == untypedNil {
			b = zeroVal(a.T)
		}
		v := Val{T: a.T}
		for i := range a.L {
			v.L = append(v.L, Ite(c, a.L[i], b.L[i]))
		}
		return v
	case "old":
		if env.old == nil {
			env.fail("old without an entry state")
		}
		o := *env
		o.st = env.old
		o.names = map[string]Val{}
		for k, v := range env.names {
			o.names[k] = v
		}
		if env.oldEnv != nil {
			for k, v := range env.oldEnv.names {
				o.names[k] = v
			}
		}
		return o.eval(x.Args[0])
	case "pre": // value at loop entry
		if env.loopEntry == nil {
			env.fail("pre outside a loop invariant")
		}
		o := *env
		o.st = env.loopEntry
		if len(env.preNames) > 0 {
			o.names = map[string]Val{}
			for k, v := range env.names {
				o.names[k] = v
			}
			for k, v := range env.preNames {
				o.names[k] = v
			}
		}
		return o.eval(x.Args[0])
	case "len":
		v := arg(0)
		switch v.T.Underlying().(type) {
		case *types.Basic:
			return num(StrLen(v.L[0]))
		case *types.Slice:
			if isByteSlice(v.T) {
				return num(StrLen(v.L[0]))
			}
			return num(v.L[2])
		case *types.Map:
			return num(Ite(Eq(v.L[0], Int(0)), Int(0), env.st.mapLen(v.T, v.L[0])))
		}
		env.fail("len of %s", v.T)
	case "trig": // trig(body, terms...): the enclosing quantifiers are triggered by the terms
		b := env.eval(x.Args[0])
		for i := 1; i < len(x.Args); i++ {
			ex.pendTrig = append(ex.pendTrig, arg(i).L[0])
		}
		return b
	case "by": // by(body, terms...): the directly enclosing quantifier is triggered by the terms
		b := env.eval(x.Args[0])
		for i := 1; i < len(x.Args); i++ {
			ex.ownTrig = append(ex.ownTrig, arg(i).L[0])
		}
		return b
	case "hasprefix":
		return bl(App("prefixof", SBool, arg(1).L[0], arg(0).L[0]))
	case "content":
		return ex.content(env.st, arg(0))
	case "at": // at(m, k): the entry of map m under k, which is there
		m, k := arg(0), arg(1)
		kt, vt := mapKV(m.T)
		r := Val{T: vt}
		for _, l := range env.st.mapVals(m.T, m.L[0]) {
			r.L = append(r.L, Select(l, env.adapt(k, kt).L[0]))
		}
		return r
	case "upd": // the content with one more entry
		m, k, v := arg(0), arg(1), arg(2)
		kt, _ := mapKV(contentBase(m.T))
		r := Val{T: m.T, L: []*Term{Store(m.L[0], env.adapt(k, kt).L[0], tTrue)}}
		for i := range v.L {
			r.L = append(r.L, Store(m.L[1+i], k.L[0], v.L[i]))
		}
		return r
	case "ctxval": // what a context holds under a key
		c, k := arg(0), arg(1)
		if !types.IsInterface(k.T) {
			k = ex.makeIface(env.st, k, k.T, types.Universe.Lookup("any").Type())
		}
		r := Val{T: types.Universe.Lookup("any").Type()}
		for _, w := range []string{"T", "P"} {
			r.L = append(r.L, App("ctxval"+w, SInt, c.L[0], c.L[1], k.L[0], k.L[1]))
		}
		return r
	case "emptymap":
		return ex.content(env.st, Val{T: ex.spec.typ(x.Args[0]), L: []*Term{Int(0)}})
	case "fsexists":
		return bl(App("fs.exists", SBool, arg(0).L[0]))
	case "fsdir":
		return bl(App("fs.dir", SBool, arg(0).L[0]))
	case "joinpath":
		return term1(tyString, App("filepath.Join2", SStr, arg(0).L[0], arg(1).L[0]))
	case "cleanpath":
		return term1(tyString, cleanT(arg(0).L[0]))
	case "regex":
		return ex.regexVal(tyInt, arg(0).L[0].sval)
	case "runeat", "runewidth": // of the character of a string at a byte position
		return num(App(x.Fun.(*ast.Ident).Name, SInt, arg(0).L[0], arg(1).L[0]))
	case "chr":
		return term1(tyString, App("chr", SStr, arg(0).L[0]))
	case "isInt": // strconv.Atoi accepts it
		return bl(App("isInt", SBool, arg(0).L[0]))
	case "atoi":
		return num(App("atoi", SInt, arg(0).L[0]))
	case "revalid": // regexp.Compile accepts it
		return bl(App("re.valid", SBool, arg(0).L[0]))
	case "recompile":
		return num(App("regexp.compile", SInt, arg(0).L[0]))
	case "rematch":
		return bl(App("re.match", SBool, arg(0).L[0], arg(1).L[0]))
	case "rentok":
		return num(App("re.ntok", SInt, arg(0).L[0], arg(1).L[0]))
	case "retok":
		return term1(tyString, App("re.tok", SStr, arg(0).L[0], arg(1).L[0], arg(2).L[0]))
	case "relit":
		return term1(tyString, App("re.lit", SStr, arg(0).L[0], arg(1).L[0], arg(2).L[0]))
	case "regroup": // text of group i of the first match
		return term1(tyString, Select(App("row:re.sub", arr(SInt, SStr), arg(0).L[0], arg(1).L[0]), arg(2).L[0]))
	case "reallgroup": // text of group i of match j
		return term1(tyString, Select(App("re.allsub", arr(SInt, SStr), arg(0).L[0], arg(1).L[0], arg(2).L[0]), arg(3).L[0]))
	case "in":
		k, m := arg(0), arg(1)
		if contentBase(m.T) != nil {
			env.keyOK(contentBase(m.T), k)
			return bl(Select(m.L[0], k.L[0]))
		}
		env.keyOK(m.T, k)
		return bl(ex.mapHas(env.st, m.T, m.L[0], k.L[0]))
	case "seen":
		if env.iter == nil {
			env.fail("seen outside a map loop")
		}
		return bl(Select(env.st.heap[env.iter.key], arg(0).L[0]))
	case "itermap":
		if env.iter == nil || !env.iter.isMap {
			env.fail("itermap outside a map loop")
		}
		return term1(env.iter.t, env.iter.m)
	case "is":
		v := arg(0)
		t := ex.spec.typ(x.Args[1])
		return bl(Eq(v.L[0], Int(typeID(t))))
	case "as":
		v := arg(0)
		t := ex.spec.typ(x.Args[1])
		if pt, isP := t.Underlying().(*types.Pointer); isP && v.A != nil && types.Identical(pt.Elem(), v.A.t) {
			return Val{T: t, L: v.L[1:2], A: v.A}
		}
		return ex.unbox(env.st, v.L[1], t)
	case "fresh":
		v := arg(0)
		if env.old == nil {
			env.fail("fresh without an entry state")
		}
		return bl(Gt(v.L[0], env.old.top))
	case "live": // an object that exists now
		v := arg(0)
		return bl(Le(v.L[0], env.st.top))
	case "same":
		a, b := arg(0), arg(1)
		return bl(env.eq(a, b))
	case "within": // within(a, b): every key of map a is a key of map b (and then a has at most as many)
		a, b := arg(0), arg(1)
		q := QVar("k", mapKeySort(a.T))
		da, db := ex.mapHas(env.st, a.T, a.L[0], q), ex.mapHas(env.st, b.T, b.L[0], q)
		t := env.forall([]*Term{q}, Imp(da, db), [][]*Term{{da}})
		env.st.assume(Imp(t, Le(env.st.mapLen(a.T, a.L[0]), env.st.mapLen(b.T, b.L[0]))))
		return bl(t)
	case "eqs": // slices with equal elements
		a, b := arg(0), arg(1)
		q := QVar("i", SInt)
		el := a.T.Underlying().(*types.Slice).Elem()
		pa, pb := elemPtr(types.NewPointer(el), a, q, el), elemPtr(types.NewPointer(el), b, q, el)
		body := eqVals(ex.load(env.st, pa.A), ex.load(env.st, pb.A))
		cj := []*Term{Eq(a.L[2], b.L[2])}
		os := reindex(q, body)
		if len(os) == 0 {
			cj = append(cj, Forall([]*Term{q}, Imp(And(Ge(q, Int(0)), Lt(q, a.L[2])), body), triggers(q, body)...))
		}
		for _, o := range os {
			q2 := QVar("i", SInt)
			b2 := substIdx(body, q, q2, o, map[*Term]*Term{q: App("-", SInt, q2, o)})
			cj = append(cj, Forall([]*Term{q2}, Imp(And(Le(o, q2), Lt(q2, Add(a.L[2], o))), b2), triggers(q2, b2)...))
		}
		return bl(And(cj...))
	case "ref":
		return num(arg(0).L[0])
	case "str": // bytes as a string
		return term1(tyString, arg(0).L[0])
	case "errIs":
		a, b := arg(0), arg(1)
		return bl(errIsT(a, b))
	case "errstr":
		a := arg(0)
		return term1(tyString, App("errstr", SStr, a.L[0], a.L[1]))
	case "iface":
		v := arg(0)
		return ex.makeIface(env.st, v, v.T, types.Universe.Lookup("any").Type())
	case "res":
		v := arg(1)
		lit := env.eval(x.Args[0]).L[0]
		tt := v.T.(*types.Tuple)
		lo, hi := tupleRange(tt, int(lit.ival))
		return Val{T: tt.At(int(lit.ival)).Type(), L: v.L[lo:hi]}
	}
	if name != "" {
		if m, ok := ex.spec.macros[name]; ok {
			if env.depth > 20 {
				env.fail("macro recursion")
			}
			n := *env
			n.depth++
			n.names = map[string]Val{}
			for k, v := range env.names {
				n.names[k] = v
			}
			if len(m.params) != len(x.Args) {
				env.fail("arguments of %s", name)
			}
			for i, p := range m.params {
				n.names[p] = arg(i)
			}
			return n.eval(m.body)
		}
		if u, ok := ex.spec.funs[name]; ok {
			var as []*Term
			if len(x.Args) != len(u.params) {
				env.fail("arguments of %s", name)
			}
			for i := range x.Args {
				as = append(as, env.adapt(arg(i), u.params[i]).L...)
			}
			rl := leavesOf(u.res)
			v := Val{T: u.res}
			for _, l := range rl {
				fn := "f:" + name
				if l.path != "" {
					fn += "." + l.path
				}
				v.L = append(v.L, App(fn, l.sort, as...))
			}
			return v
		}
		if env.pkg != nil {
			if o, ok := env.pkg.Scope().Lookup(name).(*types.Func); ok {
				return env.runFn(ex.prog.FuncValue(o), nil, x.Args)
			}
			if _, ok := env.pkg.Scope().Lookup(name).(*types.TypeName); ok {
				v := arg(0)
				v.T = env.pkg.Scope().Lookup(name).Type()
				return v
			}
		}
		if name == "string" || name == "int" {
			v := arg(0)
			if name == "string" {
				if isByteSlice(v.T) {
					v.L = v.L[:1]
				}
				v.T = tyString
			} else {
				v.T = tyInt
			}
			return v
		}
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, bound := env.names[id.Name]; !bound {
				if p := ex.spec.pkgByName[id.Name]; p != nil {
					switch o := p.Scope().Lookup(sel.Sel.Name).(type) {
					case *types.Func:
						return env.runFn(ex.prog.FuncValue(o), o, x.Args)
					case *types.TypeName:
						v := arg(0)
						v.T = o.Type()
						return v
					}
					env.fail("unknown function %s.%s", id.Name, sel.Sel.Name)
				}
			}
		}
		// a method
		recv := env.eval(sel.X)
		var ms *ssa.Function
		mset := ex.prog.MethodSets.MethodSet(recv.T)
		for i := 0; i < mset.Len(); i++ {
			if mset.At(i).Obj().Name() == sel.Sel.Name {
				ms = ex.prog.MethodValue(mset.At(i))
			}
		}
		if ms == nil {
			env.fail("no method %s on %s", sel.Sel.Name, recv.T)
		}
		args := []Val{recv}
		for i := range x.Args {
			args = append(args, env.adapt(arg(i), ms.Signature.Params().At(i).Type()))
		}
		return env.runVals(ms, args)
	}
	env.fail("unknown function in %s", exprStr(x))
	return Val{}
}

func (env *SpecEnv) runFn(fn *ssa.Function, obj *types.Func, as []ast.Expr) Val {
	var args []Val
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = obj.Type().(*types.Signature)
	}
	for i, a := range as {
		args = append(args, env.adapt(env.eval(a), sig.Params().At(i).Type()))
	}
	if fn == nil {
		name := obj.FullName()
		m := models[name]
		if m == nil {
			env.fail("no model of %s", name)
		}
		s := env.st.clone()
		outs := m(&callCtx{ex: env.ex, st: s, name: name, res: sig.Results(), sig: sig}, args)
		outs = env.ex.merge(env.st.clone(), outs)
		if len(outs) != 1 {
			env.fail("%s is not a function in specifications", name)
		}
		env.keepFacts(outs[0].st)
		return outs[0].ret
	}
	return env.runVals(fn, args)
}

func (env *SpecEnv) keepFacts(s *State) {
	bn := 0
	if env.st.pc != nil {
		bn = env.st.pc.n
	}
	var ts []*Term
	for p := s.pc; p != nil && p.n > bn; p = p.prev {
		ts = append(ts, p.t)
	}
	for i := len(ts) - 1; i >= 0; i-- {
		env.st.assume(ts[i])
	}
	if s.top != env.st.top {
		env.st.top = s.top
	}
	for k, v := range s.heap {
		// memory of objects the call allocated
		if env.st.heap[k] != v {
			if _, ok := env.st.heap[k]; !ok || strings.HasPrefix(k, "E|") || strings.HasPrefix(k, "H|") || strings.HasPrefix(k, "M") {
				env.st.heap[k] = v
			}
		}
	}
}

// runVals evaluates a real function inside a specification.
func (env *SpecEnv) runVals(fn *ssa.Function, args []Val) Val {
	ex := env.ex
	for _, a := range args {
		for _, l := range a.L {
			if l.qv && models[fnKey(fn)] == nil {
				env.fail("call of %s on a bound variable", fn)
			}
		}
	}
	ex.dry++
	defer func() { ex.dry-- }()
	s := env.st.clone()
	base := s.clone()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	outs := ex.callFn(fr, s, nil, fn, args, nil)
	outs = ex.merge(base, outs)
	if len(outs) != 1 {
		env.fail("%s is not a function in specifications (%d outcomes)", fn, len(outs))
	}
	env.keepFacts(outs[0].st)
	return outs[0].ret
}

// ---- contract calls ----

func bindNames(env *SpecEnv, names []string, vals []Val) {
	for i, n := range names {
		if i < len(vals) && n != "_" {
			env.names[n] = vals[i]
		}
	}
}

func tupleVals(v Val, res *types.Tuple) []Val {
	if res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		return []Val{v}
	}
	var out []Val
	for i := 0; i < res.Len(); i++ {
		lo, hi := tupleRange(res, i)
		out = append(out, Val{T: res.At(i).Type(), L: v.L[lo:hi]})
	}
	return out
}

// callPre obliges the precondition of a contract that is called or started with these arguments.
func (ex *Exec) callPre(st *State, in ssa.Instruction, c *Contract, env *SpecEnv, args []Val) {
	bindNames(env, c.params, args)
	if c.fn != nil && len(c.fn.FreeVars) > 0 && len(args) == len(c.fn.Params)+len(c.fn.FreeVars) {
		env.cells = freeCells(c.fn, args[len(c.fn.Params):])
	}
	where := "?"
	if in != nil {
		where = ex.pos(in)
	}
	for _, l := range c.lets {
		env.names[l.name] = env.eval(l.e)
	}
	for i, r := range c.requires {
		if ex.spec.saysLocal(r.e, 0) {
			continue
		}
		t := ex.evalBool(env, r)
		nm := r.tag
		if nm == "" {
			nm = fmt.Sprintf("%d", i+1)
		}
		ex.oblige(st, "precondition "+nm+" of "+c.name, t, where)
		st.assume(t)
	}
}

func (ex *Exec) contractCall(fr *Frame, st *State, in ssa.Instruction, c *Contract, args []Val, res *types.Tuple) []Outcome {
	c.used = true
	ex.usedContracts[c.name] = true
	env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}}
	if c.fn != nil && c.fn.Pkg != nil {
		env.pkg = c.fn.Pkg.Pkg
	} else if c.fn != nil && c.fn.Parent() != nil {
		env.pkg = c.fn.Parent().Pkg.Pkg
	}
	ex.callPre(st, in, c, env, args)
	if c.decr != nil && ex.target != nil && ex.target.decr != nil {
		// (mutual) recursion: every call between functions that have a measure goes down
		now, was := ex.evalBoolOrInt(env, c), ex.evalBoolOrInt(ex.topEnv, ex.target)
		ex.oblige(st, "termination of "+c.name, And(Ge(now, Int(0)), Lt(now, was)), ex.pos(in))
	}
	old := st.clone()
	oldEnv := *env
	oldEnv.st = old
	// effects
	st.top = freshTop(st)
	if c.modAll {
		for _, k := range sortedKeys(st.heap) {
			if strings.HasPrefix(k, "I|") || isIterKey(k) || ex.spec.localGhost(k) {
				continue
			}
			ex.havocArr(st, k)
		}
	}
	for _, m := range c.modifies {
		ex.havocTarget(&SpecEnv{ex: ex, st: st, names: oldEnv.names, pkg: env.pkg, old: old, cells: env.cells}, m)
	}
	rv := Val{T: res}
	if res.Len() == 1 {
		rv = ex.freshVal(st, c.name, res.At(0).Type())
	} else {
		for i := 0; i < res.Len(); i++ {
			rv.L = append(rv.L, ex.freshVal(st, fmt.Sprintf("%s.%d", c.name, i), res.At(i).Type()).L...)
		}
	}
	post := &SpecEnv{ex: ex, st: st, old: old, oldEnv: &oldEnv, names: map[string]Val{}, pkg: env.pkg, cells: env.cells}
	for k, v := range env.names {
		post.names[k] = v
	}
	bindNames(post, c.results, tupleVals(rv, res))
	for _, e := range c.ensures {
		if !ex.spec.saysLocal(e.e, 0) {
			st.assume(ex.evalBool(post, e))
		}
	}
	return one(st, rv)
}

// modTargets lists the memory a modifies clause denotes.
type modTarget struct {
	arr string
	ref *Term // nil: whole array
}

func (ex *Exec) modTargets(env *SpecEnv, m Clause) []modTarget {
	var out []modTarget
	var e ast.Expr = m.e
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(specErr); ok {
				unsup("modifies %s: %s", m.src, x.msg)
			}
			panic(r)
		}
	}()
	leafT := func(a *Addr) {
		ol := leavesOf(a.owner)
		for i := range leavesOf(a.t) {
			if a.elem {
				out = append(out, modTarget{elemKey(a.owner, ol[a.lo+i].path), a.ref})
			} else {
				k := heapKey(a.owner, ol[a.lo+i].path)
				env.st.arr(k, heapSort(ol[a.lo+i].sort))
				out = append(out, modTarget{k, a.ref})
			}
			if a.elem {
				env.st.arr(elemKey(a.owner, ol[a.lo+i].path), arr(SInt, arr(SInt, ol[a.lo+i].sort)))
			}
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if g, ok := ex.spec.ghosts[x.Name]; ok {
			if g.arr {
				k := "GA|" + x.Name
				env.st.arr(k, arr(g.ksort, leavesOf(g.t)[0].sort))
				return []modTarget{{k, nil}}
			}
			for i := range leavesOf(g.t) {
				out = append(out, modTarget{ghostKey(x.Name, i), nil})
			}
			return out
		}
		if p, ok := env.cells[x.Name]; ok {
			leafT(ex.addrOf(p))
			return out
		}
	case *ast.StarExpr:
		v := env.eval(x.X)
		leafT(ex.addrOf(v))
		return out
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "elems":
				v := env.eval(x.Args[0])
				switch u := v.T.Underlying().(type) {
				case *types.Slice:
					for _, l := range leavesOf(u.Elem()) {
						k := elemKey(u.Elem(), l.path)
						env.st.arr(k, arr(SInt, arr(SInt, l.sort)))
						out = append(out, modTarget{k, v.L[0]})
					}
				case *types.Map:
					ks := mapKeySort(v.T)
					env.st.arr(mdKey(v.T), arr(SInt, arr(ks, SBool)))
					env.st.arr(mlKey(v.T), arr(SInt, SInt))
					out = append(out, modTarget{mdKey(v.T), v.L[0]}, modTarget{mlKey(v.T), v.L[0]})
					for _, l := range leavesOf(u.Elem()) {
						env.st.arr(mvKey(v.T, l.path), arr(SInt, arr(ks, l.sort)))
						out = append(out, modTarget{mvKey(v.T, l.path), v.L[0]})
					}
				}
				return out
			case "allof": // every object of a type
				t := ex.spec.typ(x.Args[0])
				for _, l := range leavesOf(t) {
					k := heapKey(t, l.path)
					env.st.arr(k, heapSort(l.sort))
					out = append(out, modTarget{k, nil})
				}
				return out
			case "allelems": // every slice with that element type
				t := ex.spec.typ(x.Args[0])
				for _, l := range leavesOf(t) {
					k := elemKey(t, l.path)
					env.st.arr(k, arr(SInt, arr(SInt, l.sort)))
					out = append(out, modTarget{k, nil})
				}
				return out
			case "allmaps":
				t := ex.spec.typ(x.Args[0])
				ks := mapKeySort(t)
				env.st.arr(mdKey(t), arr(SInt, arr(ks, SBool)))
				env.st.arr(mlKey(t), arr(SInt, SInt))
				out = append(out, modTarget{mdKey(t), nil}, modTarget{mlKey(t), nil})
				_, vt := mapKV(t)
				for _, l := range leavesOf(vt) {
					env.st.arr(mvKey(t, l.path), arr(SInt, arr(ks, l.sort)))
					out = append(out, modTarget{mvKey(t, l.path), nil})
				}
				return out
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, bound := env.names[id.Name]; !bound {
				if p := ex.spec.pkgByName[id.Name]; p != nil {
					if o, ok := p.Scope().Lookup(x.Sel.Name).(*types.Var); ok {
						g := ex.prog.Package(p).Members[o.Name()].(*ssa.Global)
						leafT(&Addr{ref: ex.globalRef(g), owner: o.Type(), t: o.Type()})
						return out
					}
				}
			}
		}
		v := env.eval(x.X)
		if p, ok := v.T.Underlying().(*types.Pointer); ok {
			s := structOf(p.Elem())
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == x.Sel.Name {
					fa := ex.fieldAddr(v, i, types.NewPointer(s.Field(i).Type()))
					leafT(fa.A)
					return out
				}
			}
		}
	}
	unsup("modifies %s", m.src)
	return nil
}

func (ex *Exec) havocTarget(env *SpecEnv, m Clause) {
	for _, t := range ex.modTargets(env, m) {
		if t.ref == nil {
			if _, ok := env.st.heap[t.arr]; ok {
				ex.havocArr(env.st, t.arr)
			}
			continue
		}
		ex.havocLoc(env.st, t.arr, t.ref)
	}
}

// ---- hooks ----

func (ex *Exec) hasAfter(name string) bool {
	for _, h := range ex.spec.hooks {
		if h.after && h.name == name {
			return true
		}
	}
	return false
}

// never tells that the event is one that must not happen at all.
func (h *hookDef) never() bool {
	if h.guard {
		return true
	}
	for _, a := range h.acts {
		if id, ok := a.e.(*ast.Ident); a.kind != "check" || !ok || id.Name != "false" {
			return false
		}
	}
	return true
}

func (h *hookDef) id() string { return h.name + "|" + h.in }

func (ex *Exec) hook(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, ret *Val) {
	for _, h := range ex.spec.hooks {
		if h.name != name || h.after != (ret != nil) || h.in != "" && ex.target != nil && h.in != ex.target.name {
			continue
		}
		ex.fired[h.id()] = true
		env := &SpecEnv{ex: ex, st: st, names: map[string]Val{}}
		if ex.topEnv != nil {
			for k, v := range ex.topEnv.names {
				env.names[k] = v
			}
			env.pkg = ex.topEnv.pkg
			env.old = ex.topEnv.st
			env.oldEnv = ex.topEnv
			env.cells = ex.topEnv.cells
			if h.in != "" && ex.targetFr != nil {
				env.cells = localCells(ex.targetFr)
			}
		}
		if t := st.heap["G|$i"]; t != nil {
			env.names["$i"] = term1(tyInt, t)
		}
		bindNames(env, h.params, args)
		if ret != nil {
			if tt, ok := ret.T.(*types.Tuple); ok {
				bindNames(env, h.results, tupleVals(*ret, tt))
			} else {
				bindNames(env, h.results, []Val{*ret})
			}
		}
		where := "?"
		if in != nil {
			where = ex.pos(in)
		}
		for _, a := range h.acts {
			switch a.kind {
			case "check":
				t := ex.evalBool(env, Clause{a.tag, a.src, a.e})
				at := " at call of " + name
				if name == "loop.back" {
					at = " at the end of a round"
				}
				ex.oblige(st, a.tag+at, t, where)
				st.assume(t)
			case "assume":
				st.assume(ex.evalBool(env, Clause{a.tag, a.src, a.e}))
			case "apply": // what a call of this function value does, on any arguments
				f := env.names[a.name]
				sig, ok := f.T.Underlying().(*types.Signature)
				if !ok || f.L == nil {
					unsup("apply %s: not a function value", a.src)
				}
				s := st.clone()
				var as []Val
				for i := 0; i < sig.Params().Len(); i++ {
					as = append(as, ex.freshVal(s, "arg", sig.Params().At(i).Type()))
				}
				for _, o := range ex.callValue(fr, s, in, f, as, sig) {
					e2 := *env
					e2.st = o.st
					e2.names = map[string]Val{}
					for k, v := range env.names {
						e2.names[k] = v
					}
					bindNames(&e2, a.params, as)
					bindNames(&e2, a.results, tupleVals(o.ret, sig.Results()))
					ex.oblige(o.st, a.tag+" of the function given to "+name, ex.evalBool(&e2, Clause{a.tag, a.src, a.e}), where)
				}
			case "havoc": // what others may have changed meanwhile
				ex.havocTarget(env, Clause{a.tag, a.src, a.e})
			case "set":
				var v Val
				func() {
					defer func() {
						if r := recover(); r != nil {
							if x, ok := r.(specErr); ok {
								unsup("hook %s: %s", a.src, x.msg)
							}
							panic(r)
						}
					}()
					v = env.eval(a.e)
				}()
				g := ex.spec.ghosts[a.name]
				if g == nil {
					unsup("unknown ghost %s", a.name)
				}
				if v.T == untypedNil {
					v = zeroVal(g.t)
				}
				if a.idx != nil {
					i := env.eval(a.idx).L[0]
					k := "GA|" + a.name
					m := st.arr(k, arr(i.sort, leavesOf(g.t)[0].sort))
					st.heap[k] = Store(m, i, v.L[0])
					st.write(k, i)
				} else {
					v = env.adapt(v, g.t)
					if len(v.L) != len(leavesOf(g.t)) {
						unsup("hook %s: not a value of the ghost's type", a.src)
					}
					for i, l := range v.L {
						st.heap[ghostKey(a.name, i)] = l
						st.write(ghostKey(a.name, i), nil)
					}
				}
			}
		}
	}
}

func (ex *Exec) evalBoolOrInt(env *SpecEnv, c *Contract) *Term {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(specErr); ok {
				unsup("decreases %s: %s", c.decrSrc, x.msg)
			}
			panic(r)
		}
	}()
	return env.eval(c.decr).L[0]
}
