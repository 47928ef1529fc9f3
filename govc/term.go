package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term. Sorts are SMT sort strings.
type Term struct {
	op   string // "int","true","false","str","var","qvar", or an SMT operator / function name
	args []*Term
	sort string
	sval string // for const/var/str
	ival int64  // for int
	id   int
	seq  int // highest creation sequence of a free symbol inside
	qv   bool
	// quantifiers: op "forall"/"exists": args[0..n-2] bound vars, args[n-1] body; pats
	pats [][]*Term
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s string) (string, string) {
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("arrParts " + s)
}

var (
	consTab = map[string]*Term{}
	termSeq = 0
	symSeq  = 0
	strTab  = map[string]*Term{}
	symTab  = map[string]*Term{} // declared symbols by name
)

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.sort)
	b.WriteByte('|')
	b.WriteString(t.sval)
	b.WriteByte('|')
	if t.op == "int" {
		b.WriteString(strconv.FormatInt(t.ival, 10))
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.pats {
		b.WriteByte(';')
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if r, ok := consTab[k]; ok {
		return r
	}
	termSeq++
	t.id = termSeq
	for _, a := range t.args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		if a.qv {
			t.qv = true
		}
	}
	if t.op == "qvar" {
		t.qv = true
	}
	if (t.op == "forall" || t.op == "exists") && t.qv {
		bound := map[*Term]bool{}
		for _, v := range t.args[:len(t.args)-1] {
			bound[v] = true
		}
		t.qv = freeQV(t.args[len(t.args)-1], bound)
	}
	r := &t
	consTab[k] = r
	return r
}

var (
	tTrue  = mk(Term{op: "true", sort: SBool})
	tFalse = mk(Term{op: "false", sort: SBool})
)

func Int(n int64) *Term { return mk(Term{op: "int", sort: SInt, ival: n}) }
func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Str(s string) *Term { return mk(Term{op: "str", sort: SStr, sval: s}) }

// Sym makes a fresh symbol.
func Sym(hint, sort string) *Term {
	symSeq++
	hint = sanitize(hint)
	t := mk(Term{op: "var", sort: sort, sval: fmt.Sprintf("%s!%d", hint, symSeq)})
	t.seq = symSeq
	return t
}

// NamedSym returns the fixed global symbol of that name.
func NamedSym(name, sort string) *Term {
	name = sanitize(name)
	if t, ok := symTab[name]; ok {
		return t
	}
	t := mk(Term{op: "var", sort: sort, sval: name})
	symTab[name] = t
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', strings.ContainsRune("_.!$%&*+-/<=>?@^~", r):
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

var qSeq int

func QVar(hint, sort string) *Term {
	qSeq++
	return mk(Term{op: "qvar", sort: sort, sval: fmt.Sprintf("q_%s%d", sanitize(hint), qSeq)})
}

func App(fn, sort string, args ...*Term) *Term {
	return mk(Term{op: fn, sort: sort, args: args})
}

// freeQV: t mentions a quantified variable outside bound.
func freeQV(t *Term, bound map[*Term]bool) bool {
	if !t.qv {
		return false
	}
	switch t.op {
	case "qvar":
		return !bound[t]
	case "forall", "exists":
		n := map[*Term]bool{}
		for k := range bound {
			n[k] = true
		}
		for _, v := range t.args[:len(t.args)-1] {
			n[v] = true
		}
		return freeQV(t.args[len(t.args)-1], n)
	}
	for _, a := range t.args {
		if freeQV(a, bound) {
			return true
		}
	}
	return false
}

func isInt(t *Term) bool   { return t.op == "int" }
func isBoolC(t *Term) bool { return t == tTrue || t == tFalse }
func isStrC(t *Term) bool  { return t.op == "str" }

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return App("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse || seen[Not(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	n := make([]*Term, len(as))
	for i, a := range as {
		n[i] = Not(a)
	}
	r := And(n...)
	if r.op == "and" {
		o := make([]*Term, len(r.args))
		for i, a := range r.args {
			o[i] = Not(a)
		}
		return App("or", SBool, o...)
	}
	return Not(r)
}

func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return App("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	return App("ite", a.sort, c, a, b)
}

// base+offset view of an Int term
func linView(t *Term) (*Term, int64) {
	if t.op == "int" {
		return nil, t.ival
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].ival
	}
	return t, 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SInt:
		ab, ao := linView(a)
		bb, bo := linView(b)
		if ab == bb {
			return Bool(ao == bo)
		}
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
		if a == Not(b) {
			return tFalse
		}
	case SStr:
		if isStrC(a) && isStrC(b) {
			return tFalse
		}
	}
	if b.op == "ite" && a.op != "ite" {
		a, b = b, a
	}
	if a.op == "ite" && (isInt(b) || isStrC(b)) {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if isBoolC(x) || isBoolC(y) {
			return Ite(a.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}

func Add(a, b *Term) *Term {
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.ival == 0 {
			return a
		}
		base, off := linView(a)
		if base == nil {
			return Int(off + b.ival)
		}
		if off+b.ival == 0 {
			return base
		}
		return App("+", SInt, base, Int(off+b.ival))
	}
	ab, ao := linView(a)
	bb, bo := linView(b)
	if ao != 0 || bo != 0 {
		return Add(App("+", SInt, ab, bb), Int(ao+bo))
	}
	return App("+", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if b.op == "int" {
		return Add(a, Int(-b.ival))
	}
	ab, ao := linView(a)
	bb, bo := linView(b)
	if ab == bb {
		return Int(ao - bo)
	}
	if ab != nil && ab.op == "+" && len(ab.args) == 2 {
		if ab.args[0] == bb {
			return Add(ab.args[1], Int(ao-bo))
		}
		if ab.args[1] == bb {
			return Add(ab.args[0], Int(ao-bo))
		}
	}
	return App("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return Int(a.ival * b.ival)
	}
	return App("*", SInt, a, b)
}

func Lt(a, b *Term) *Term {
	ab, ao := linView(a)
	bb, bo := linView(b)
	if ab == bb {
		return Bool(ao < bo)
	}
	return App("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	ab, ao := linView(a)
	bb, bo := linView(b)
	if ab == bb {
		return Bool(ao <= bo)
	}
	return App("<=", SBool, a, b)
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

// distinctRefs: definitely different Int terms, by syntax.
func distinctT(a, b *Term) bool {
	e := Eq(a, b)
	return e == tFalse
}

func Select(a, i *Term) *Term {
	_, vs := arrParts(a.sort)
	for {
		if a.op == "store" {
			e := Eq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" {
			x, y := Select(a.args[1], i), Select(a.args[2], i)
			if x == y {
				return x
			}
		}
		break
	}
	return App("select", vs, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return App("store", a.sort, a, i, v)
}

func ConstArr(sort string, v *Term) *Term { return App("constarr", sort, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }
func quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if isBoolC(body) {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		ok := true
		cov := map[*Term]bool{}
		for _, x := range p {
			switch x.op {
			case "and", "or", "not", "=>", "ite", "=", "+", "-", "<", "<=", "int", "true", "false", "str", "var", "qvar", "forall", "exists":
				ok = false
			}
			if !x.qv || hasIte(x) {
				ok = false
			}
			collectQV(x, cov)
		}
		for _, v := range vars {
			if !cov[v] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	t := mk(Term{op: q, sort: SBool, args: append(append([]*Term{}, vars...), body), pats: ps})
	return t
}

// --- strings ---

func Concat(as ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "concat" {
			add(t.args[0])
			add(t.args[1])
			return
		}
		if isStrC(t) {
			if t.sval == "" {
				return
			}
			if n := len(out); n > 0 && isStrC(out[n-1]) {
				out[n-1] = Str(out[n-1].sval + t.sval)
				return
			}
		}
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 0 {
		return Str("")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = App("concat", SStr, out[i], r)
	}
	return r
}

func StrLen(a *Term) *Term {
	if isStrC(a) {
		return Int(int64(len(a.sval)))
	}
	if a.op == "concat" {
		return Add(StrLen(a.args[0]), StrLen(a.args[1]))
	}
	return App("strlen", SInt, a)
}

func (t *Term) String() string {
	var b strings.Builder
	t.pr(&b, 0)
	return b.String()
}

func (t *Term) pr(b *strings.Builder, d int) {
	if d > 12 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case "int":
		fmt.Fprint(b, t.ival)
	case "true", "false":
		b.WriteString(t.op)
	case "str":
		fmt.Fprintf(b, "%q", t.sval)
	case "var", "qvar":
		b.WriteString(t.sval)
	default:
		b.WriteString("(" + t.op)
		for _, a := range t.args {
			b.WriteByte(' ')
			a.pr(b, d+1)
		}
		b.WriteByte(')')
	}
}

// substitute replaces symbols.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	n := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		n[i] = subst(a, m, memo)
		if n[i] != a {
			ch = true
		}
	}
	r := t
	if len(t.pats) > 0 {
		ps := make([][]*Term, len(t.pats))
		for i, p := range t.pats {
			ps[i] = make([]*Term, len(p))
			for j, a := range p {
				ps[i][j] = subst(a, m, memo)
				ch = ch || ps[i][j] != a
			}
		}
		if ch {
			r = quant(t.op, n[:len(n)-1], n[len(n)-1], ps)
		}
	} else if ch {
		r = rebuild(t, n)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, n []*Term) *Term {
	switch t.op {
	case "and":
		return And(n...)
	case "or":
		return Or(n...)
	case "not":
		return Not(n[0])
	case "=>":
		return Imp(n[0], n[1])
	case "ite":
		return Ite(n[0], n[1], n[2])
	case "=":
		return Eq(n[0], n[1])
	case "+":
		return Add(n[0], n[1])
	case "-":
		return Sub(n[0], n[1])
	case "<":
		return Lt(n[0], n[1])
	case "<=":
		return Le(n[0], n[1])
	case "select":
		return Select(n[0], n[1])
	case "store":
		return Store(n[0], n[1], n[2])
	case "concat":
		return Concat(n...)
	case "strlen":
		return StrLen(n[0])
	}
	return mk(Term{op: t.op, sort: t.sort, args: n, sval: t.sval, ival: t.ival})
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func collectQV(t *Term, out map[*Term]bool) {
	if !t.qv {
		return
	}
	if t.op == "qvar" {
		out[t] = true
	}
	for _, a := range t.args {
		collectQV(a, out)
	}
}

// hasIte: an if-then-else or connective over quantified variables (not allowed in patterns).
func hasIte(t *Term) bool {
	if !t.qv {
		return false
	}
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		return true
	}
	for _, a := range t.args {
		if hasIte(a) {
			return true
		}
	}
	return false
}
