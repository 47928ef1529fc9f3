package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	ex   *Exec
	fr   *Frame
	st   *State
	in   ssa.Instruction
	name string
	res  *types.Tuple
	sig  *types.Signature
}

type model func(c *callCtx, a []Val) []Outcome

var models map[string]model

func (c *callCtx) ret(ts ...*Term) []Outcome {
	var t types.Type = c.res
	if c.res.Len() == 1 {
		t = c.res.At(0).Type()
	}
	return []Outcome{{c.st, Val{T: t, L: ts}}}
}

func (c *callCtx) none() []Outcome { return []Outcome{{c.st, Val{T: c.res}}} }

func (c *callCtx) noop() []Outcome { return []Outcome{{c.st, c.ex.freshRes(c.st, c.name, c.res)}} }

// pure: results are uninterpreted functions of the argument leaves.
func pureModel(c *callCtx, a []Val) []Outcome {
	var as []*Term
	for _, x := range a {
		as = append(as, x.L...)
	}
	var out []*Term
	for i := 0; i < c.res.Len(); i++ {
		for _, l := range leavesOf(c.res.At(i).Type()) {
			n := c.name
			if c.res.Len() > 1 {
				n += fmt.Sprintf("#%d", i)
			}
			if l.path != "" {
				n += "." + l.path
			}
			out = append(out, App(n, l.sort, as...))
		}
	}
	v := c.ret(out...)
	if c.res.Len() == 1 {
		c.ex.wf(c.st, v[0].ret)
	}
	return v
}

func allStr(a []Val) ([]string, bool) {
	var out []string
	for _, v := range a {
		if len(v.L) != 1 || !isStrC(v.L[0]) {
			return nil, false
		}
		out = append(out, v.L[0].sval)
	}
	return out, true
}

// strFn1 models a pure string function that also folds constants.
func strFn1(f func(string) string) model {
	return func(c *callCtx, a []Val) []Outcome {
		if isStrC(a[0].L[0]) {
			return c.ret(Str(f(a[0].L[0].sval)))
		}
		t := a[0].L[0]
		// idempotent
		if t.op == c.name {
			return c.ret(t)
		}
		return c.ret(App(c.name, SStr, t))
	}
}

func strFn2(f func(a, b string) string) model {
	return func(c *callCtx, a []Val) []Outcome {
		if isStrC(a[0].L[0]) && isStrC(a[1].L[0]) {
			return c.ret(Str(f(a[0].L[0].sval, a[1].L[0].sval)))
		}
		return c.ret(App(c.name, SStr, a[0].L[0], a[1].L[0]))
	}
}

func strPred(op string, swap bool, f func(a, b string) bool) model {
	return func(c *callCtx, a []Val) []Outcome {
		x, y := a[0].L[0], a[1].L[0]
		if isStrC(x) && isStrC(y) {
			return c.ret(Bool(f(x.sval, y.sval)))
		}
		return c.ret(strPredT(c.st, op, x, y))
	}
}

// strPredT: prefixof/suffixof/contains in SMT argument order for (s, part).
func strPredT(st *State, op string, s, part *Term) *Term {
	if isStrC(part) && part.sval == "" {
		return tTrue
	}
	if op == "contains" {
		return App(op, SBool, s, part)
	}
	// a constant prefix of a concatenation with constant head
	if op == "prefixof" && s.op == "concat" && isStrC(s.args[0]) && isStrC(part) {
		h := s.args[0].sval
		if len(h) >= len(part.sval) {
			return Bool(strings.HasPrefix(h, part.sval))
		}
		if !strings.HasPrefix(part.sval, h) {
			return tFalse
		}
	}
	r := App(op, SBool, part, s)
	st.assume(Imp(r, Le(StrLen(part), StrLen(s))))
	return r
}

// genSlice is a new slice whose contents are a function of the arguments.
func (c *callCtx) genSlice(el types.Type, n *Term, tag string, args ...*Term) Val {
	ref := c.st.newRef()
	for _, l := range leavesOf(el) {
		k := elemKey(el, l.path)
		m := c.st.arr(k, arr(SInt, arr(SInt, l.sort)))
		row := App("row:"+tag+l.path, arr(SInt, l.sort), args...)
		c.st.heap[k] = Store(m, ref, row)
		c.st.write(k, ref)
	}
	return Val{T: types.NewSlice(el), L: []*Term{ref, Int(0), n, n}}
}

// regular expressions
var (
	regexIDs  = map[string]int64{}
	regexByID = map[int64]string{}
)

func (ex *Exec) regexVal(t types.Type, pat string) Val {
	src := pat
	pat = normRegex(pat)
	id, ok := regexIDs[pat]
	if !ok {
		id = int64(-2000000 - len(regexIDs))
		regexIDs[pat] = id
		regexByID[id] = src
	}
	return Val{T: t, L: []*Term{Int(id)}}
}

func regexOf(t *Term) (string, bool) {
	if t.op == "int" {
		p, ok := regexByID[t.ival]
		return p, ok
	}
	return "", false
}

func retag(name string, re *Term) string { return name + ":" + fmt.Sprint(re.ival) }

// ---- errors ----

func errIsT(a, b Val) *Term {
	if a.L[0].op == "int" && a.L[0].ival == 0 {
		return And(Eq(b.L[0], Int(0)))
	}
	if eq := And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1])); eq == tTrue {
		return tTrue
	}
	return App("errIs", SBool, a.L[0], a.L[1], b.L[0], b.L[1])
}

// newErr makes a new error value with a message and an optional wrapped error.
func (ex *Exec) newErr(st *State, msg *Term, wrapped []Val) Val {
	ref := st.newRef()
	tag := Int(typeID(errStringT()))
	if len(wrapped) > 0 {
		tag = Int(typeID(wrapErrT()))
	}
	st.assume(Eq(App("errstr", SStr, tag, ref), msg))
	qt, qp := QVar("t", SInt), QVar("p", SInt)
	or := []*Term{And(Eq(qt, tag), mk(Term{op: "=", sort: SBool, args: []*Term{qp, ref}}))}
	for _, w := range wrapped {
		self := And(Eq(w.L[0], qt), mk(Term{op: "=", sort: SBool, args: []*Term{qp, w.L[1]}}))
		or = append(or, And(Not(Eq(w.L[0], Int(0))), Or(self, App("errIs", SBool, w.L[0], w.L[1], qt, qp))))
	}
	is := App("errIs", SBool, tag, ref, qt, qp)
	st.assume(Forall([]*Term{qt, qp}, Eq(is, Or(or...)), []*Term{is}))
	if len(wrapped) == 1 {
		st.assume(Eq(App("wrapsTag", SInt, tag, ref), wrapped[0].L[0]), Eq(App("wrapsPay", SInt, tag, ref), wrapped[0].L[1]))
	}
	return Val{T: tyError, L: []*Term{tag, ref}}
}

var wrapErrType types.Type

func wrapErrT() types.Type {
	if wrapErrType == nil {
		p := types.NewPackage("fmt", "fmt")
		wrapErrType = types.NewPointer(types.NewNamed(types.NewTypeName(0, p, "wrapError", nil), types.NewStruct(nil, nil), nil))
	}
	return wrapErrType
}

// errIsFull decides errors.Is for values with a known dynamic type.
func (ex *Exec) errIsFull(c *callCtx, a, b Val, depth int) []Outcome {
	st := c.st
	one := func(t *Term) []Outcome { return []Outcome{{st, term1(tyBool, t)}} }
	tag := a.L[0]
	if tag.op == "ite" && depth < 6 {
		var outs []Outcome
		ex.branch(st, tag.args[0], func(s *State, v bool, last bool) {
			x := a
			pick := func(t *Term) *Term {
				if t.op == "ite" && t.args[0] == tag.args[0] {
					if v {
						return t.args[1]
					}
					return t.args[2]
				}
				return t
			}
			x.L = []*Term{pick(a.L[0]), pick(a.L[1])}
			c2 := *c
			c2.st = s
			outs = append(outs, ex.errIsFull(&c2, x, b, depth+1)...)
		})
		return outs
	}
	if tag.op != "int" {
		st.assume(Imp(And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1])), App("errIs", SBool, a.L[0], a.L[1], b.L[0], b.L[1])))
		st.assume(Imp(Eq(a.L[0], Int(0)), Eq(errIsT(a, b), Eq(b.L[0], Int(0)))))
		return one(errIsT(a, b))
	}
	if tag.ival == 0 {
		return one(Eq(b.L[0], Int(0)))
	}
	dt := typeByID[tag.ival]
	res := And(Eq(a.L[0], b.L[0]), Eq(a.L[1], b.L[1]))
	if n, ok := types.Unalias(derefT(dt)).(*types.Named); ok && isRepoPkg(n.Obj().Pkg()) && depth < 4 {
		recv := ex.unbox(st, a.L[1], dt)
		cur := []Outcome{{st, term1(tyBool, res)}}
		for _, m := range []string{"Is", "Unwrap"} {
			fn := ex.prog.LookupMethod(dt, n.Obj().Pkg(), m)
			if fn == nil {
				continue
			}
			var nxt []Outcome
			for _, o := range cur {
				args := []Val{recv}
				if m == "Is" {
					args = append(args, b)
				}
				for _, r := range ex.callFn(c.fr, o.st, c.in, fn, args, nil) {
					if m == "Is" {
						nxt = append(nxt, Outcome{r.st, term1(tyBool, Or(o.ret.L[0], r.ret.L[0]))})
						continue
					}
					if _, ok := r.ret.T.Underlying().(*types.Slice); ok {
						nxt = append(nxt, Outcome{r.st, term1(tyBool, Or(o.ret.L[0], Sym("errIsMulti", SBool)))})
						continue
					}
					c2 := *c
					c2.st = r.st
					for _, q := range ex.errIsFull(&c2, r.ret, b, depth+1) {
						w := And(Not(Eq(r.ret.L[0], Int(0))), q.ret.L[0])
						nxt = append(nxt, Outcome{q.st, term1(tyBool, Or(o.ret.L[0], w))})
					}
				}
			}
			cur = nxt
		}
		for i := range cur {
			// tie the relation to its definition
			cur[i].st.assume(mk(Term{op: "=", sort: SBool, args: []*Term{App("errIs", SBool, a.L[0], a.L[1], b.L[0], b.L[1]), cur[i].ret.L[0]}}))
		}
		return cur
	}
	if res == tTrue {
		return one(tTrue)
	}
	if tag.ival == typeID(errStringT()) {
		return one(res)
	}
	st.assume(Imp(res, errIsT(a, b)))
	return one(errIsT(a, b))
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// sprintf builds the formatted text.
func (ex *Exec) sprintf(c *callCtx, f Val, args Val) (*Term, []Val) {
	st := c.st
	n := constLen(args)
	anyT := types.Universe.Lookup("any").Type()
	var vals []Val
	if n < 0 {
		return Sym("sprintf", SStr), nil
	}
	for i := 0; i < n; i++ {
		p := elemPtr(types.NewPointer(anyT), args, Int(int64(i)), anyT)
		vals = append(vals, ex.load(st, p.A))
	}
	if !isStrC(f.L[0]) {
		return Sym("sprintf", SStr), vals
	}
	var parts []*Term
	fs := f.L[0].sval
	ai := 0
	var wrapped []Val
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, Str(fs[i:]))
			break
		}
		parts = append(parts, Str(fs[i:i+j]))
		i += j + 1
		k := i
		for k < len(fs) && strings.IndexByte("+-# 0123456789.*", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			break
		}
		verb := fs[k]
		flags := fs[i:k]
		i = k + 1
		if verb == '%' {
			parts = append(parts, Str("%"))
			continue
		}
		if strings.Contains(flags, "*") {
			ai++
		}
		if ai >= len(vals) {
			parts = append(parts, Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		v := vals[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, v)
			parts = append(parts, App("errstr", SStr, v.L[0], v.L[1]))
			continue
		}
		parts = append(parts, ex.fmtArg(st, v, verb, flags))
	}
	return Concat(parts...), wrapped
}

func (ex *Exec) fmtArg(st *State, v Val, verb byte, flags string) *Term {
	tag, pay := v.L[0], v.L[1]
	if tag.op == "int" && tag.ival != 0 && flags == "" {
		dt := typeByID[tag.ival]
		if b, ok := dt.Underlying().(*types.Basic); ok {
			u := ex.unbox(st, pay, dt)
			switch {
			case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				if types.NewMethodSet(dt).Lookup(nil, "String") == nil && types.NewMethodSet(dt).Lookup(nil, "Error") == nil {
					return u.L[0]
				}
			case b.Info()&types.IsString != 0 && verb == 'q':
				if isStrC(u.L[0]) {
					return Str(strconv.Quote(u.L[0].sval))
				}
				return App("strconv.Quote", SStr, u.L[0])
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				if u.L[0].op == "int" {
					return Str(fmt.Sprint(u.L[0].ival))
				}
				return App("strconv.Itoa", SStr, u.L[0])
			case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
				return Ite(u.L[0], Str("true"), Str("false"))
			}
		}
		if (verb == 's' || verb == 'v') && types.Implements(dt, tyError.Underlying().(*types.Interface)) {
			return App("errstr", SStr, tag, pay)
		}
	}
	if tag.op != "int" && (verb == 's' || verb == 'v') && flags == "" {
		return App("fmtany", SStr, tag, pay)
	}
	return App("fmt"+flags+string(verb), SStr, tag, pay)
}

// cleanT: Clean is idempotent and Join cleans.
func cleanT(t *Term) *Term {
	switch {
	case isStrC(t):
		return Str(filepath.Clean(t.sval))
	case strings.HasPrefix(t.op, "filepath.Join"), t.op == "path/filepath.Clean", t.op == "path/filepath.Dir":
		return t
	case t.op == "ite":
		return Ite(t.args[0], cleanT(t.args[1]), cleanT(t.args[2]))
	}
	return App("path/filepath.Clean", SStr, t)
}

func (ex *Exec) pathModel(c *callCtx, a []Val) []Outcome {
	if c.name == "path/filepath.Clean" {
		return c.ret(cleanT(a[0].L[0]))
	}
	if ss, ok := allStr(a); ok {
		switch c.name {
		case "path/filepath.Dir":
			return c.ret(Str(filepath.Dir(ss[0])))
		case "path/filepath.Base":
			return c.ret(Str(filepath.Base(ss[0])))
		case "path/filepath.Clean":
			return c.ret(Str(filepath.Clean(ss[0])))
		case "path/filepath.IsAbs":
			return c.ret(Bool(filepath.IsAbs(ss[0])))
		}
	}
	return pureModel(c, a)
}

// keys returns the slice of keys of a map in some order.
func (c *callCtx) freshErr() Val {
	return c.ex.freshVal(c.st, "err", tyError)
}

// errOr returns (zero,err) or (v,nil).
func (c *callCtx) okOrErr(mk func(st *State) []*Term) []Outcome {
	s2 := c.st.clone()
	fail := Sym("fails", SBool)
	c.st.assume(Not(fail))
	s2.assume(fail)
	v := mk(c.st)
	o1 := c.ret(append(v, Int(0), Int(0))...)
	c2 := *c
	c2.st = s2
	e := c2.freshErr()
	s2.assume(Not(Eq(e.L[0], Int(0))))
	var z []*Term
	for i := 0; i < c.res.Len()-1; i++ {
		z = append(z, zeroVal(c.res.At(i).Type()).L...)
	}
	o2 := c2.ret(append(z, e.L...)...)
	return append(o1, o2...)
}

func builderAddr(ex *Exec, v Val) *Addr { return ex.addrOf(v) }

func init() {
	m := map[string]model{}
	models = m
	// ---- strings ----
	m["strings.TrimSpace"] = strFn1(strings.TrimSpace)
	m["strings.ToLower"] = strFn1(strings.ToLower)
	m["strings.ToUpper"] = strFn1(strings.ToUpper)
	// a constant set of characters to cut is a set: order and repetition do not matter
	cutset := func(f func(a, b string) string) model {
		g := strFn2(f)
		return func(c *callCtx, a []Val) []Outcome {
			if isStrC(a[1].L[0]) {
				rs := []rune(a[1].L[0].sval)
				slices.Sort(rs)
				a = []Val{a[0], {T: a[1].T, L: []*Term{Str(string(slices.Compact(rs)))}}}
			}
			out := g(c, a)
			if k := a[1].L[0]; isStrC(k) && len(k.sval) == 1 && c.name == "strings.TrimRight" {
				s, ch := a[0].L[0], Int(int64(k.sval[0]))
				r := out[0].ret.L[0]
				n := StrLen(r)
				c.st.assume(Ge(n, Int(0)), Le(n, StrLen(s)), Eq(r, App("substr", SStr, s, Int(0), n)))
				c.st.assume(Imp(Not(App("hasbyte", SBool, s, ch)), Eq(r, s)))
				c.st.assume(Imp(Gt(n, Int(0)), Not(Eq(App("byteat", SInt, r, Sub(n, Int(1))), ch))))
			}
			return out
		}
	}
	m["strings.Trim"] = cutset(strings.Trim)
	m["strings.TrimRight"] = cutset(strings.TrimRight)
	m["strings.TrimLeft"] = cutset(strings.TrimLeft)
	m["strings.HasPrefix"] = strPred("prefixof", true, strings.HasPrefix)
	m["strings.HasSuffix"] = strPred("suffixof", true, strings.HasSuffix)
	m["strings.Contains"] = strPred("contains", false, strings.Contains)
	m["strings.EqualFold"] = func(c *callCtx, a []Val) []Outcome {
		x, y := a[0].L[0], a[1].L[0]
		if isStrC(x) && isStrC(y) {
			return c.ret(Bool(strings.EqualFold(x.sval, y.sval)))
		}
		c.st.assume(Imp(Eq(x, y), App(c.name, SBool, x, y)))
		return c.ret(App(c.name, SBool, x, y))
	}
	trimFix := func(op string) model {
		return func(c *callCtx, a []Val) []Outcome {
			s, p := a[0].L[0], a[1].L[0]
			has := strPredT(c.st, op, s, p)
			if isStrC(s) && isStrC(p) {
				if op == "prefixof" {
					return c.ret(Str(strings.TrimPrefix(s.sval, p.sval)))
				}
				return c.ret(Str(strings.TrimSuffix(s.sval, p.sval)))
			}
			var cut *Term
			if op == "prefixof" {
				cut = substr(c.st, s, StrLen(p), StrLen(s))
				c.st.assume(Imp(has, Eq(s, Concat(p, cut))))
			} else {
				cut = substr(c.st, s, Int(0), Sub(StrLen(s), StrLen(p)))
				c.st.assume(Imp(has, Eq(s, Concat(cut, p))))
			}
			if strings.Contains(c.name, "Cut") {
				return c.ret(Ite(has, cut, s), has)
			}
			return c.ret(Ite(has, cut, s))
		}
	}
	m["strings.TrimPrefix"] = trimFix("prefixof")
	m["strings.TrimSuffix"] = trimFix("suffixof")
	m["strings.CutPrefix"] = trimFix("prefixof")
	m["strings.CutSuffix"] = trimFix("suffixof")
	m["strings.ReplaceAll"] = func(c *callCtx, a []Val) []Outcome {
		if ss, ok := allStr(a); ok {
			return c.ret(Str(strings.ReplaceAll(ss[0], ss[1], ss[2])))
		}
		return c.ret(App("replaceall", SStr, a[0].L[0], a[1].L[0], a[2].L[0]))
	}
	m["strings.Repeat"] = func(c *callCtx, a []Val) []Outcome {
		r := App(c.name, SStr, a[0].L[0], a[1].L[0])
		return c.ret(r)
	}
	idx := func(c *callCtx, a []Val) []Outcome {
		s, p := a[0].L[0], a[1].L[0]
		var r *Term
		if p.sort == SStr {
			if c.name == "strings.Index" {
				r = App("indexof", SInt, s, p, Int(0))
			} else {
				r = App(c.name, SInt, s, p)
			}
			c.st.assume(Ge(r, Int(-1)), Imp(Ge(r, Int(0)), Le(Add(r, StrLen(p)), StrLen(s))))
			c.st.assume(Eq(Ge(r, Int(0)), App("contains", SBool, s, p)))
			return c.ret(r)
		}
		r = App(c.name, SInt, s, p)
		c.st.assume(Ge(r, Int(-1)), Lt(r, Ite(Eq(s, Str("")), Int(0), StrLen(s))), Le(r, StrLen(s)))
		c.st.assume(Imp(Ge(r, Int(0)), Eq(App("byteat", SInt, s, r), p)))
		c.st.assume(Eq(Ge(r, Int(0)), App("hasbyte", SBool, s, p)))
		q := QVar("i", SInt)
		ba := App("byteat", SInt, s, q)
		if strings.Contains(c.name, "Last") {
			c.st.assume(Forall([]*Term{q}, Imp(And(Gt(q, r), Lt(q, StrLen(s))), Not(App("=", SBool, ba, p))), []*Term{ba}))
		} else {
			c.st.assume(Forall([]*Term{q}, Imp(And(Ge(q, Int(0)), Or(Lt(q, r), Lt(r, Int(0))), Lt(q, StrLen(s))), Not(App("=", SBool, ba, p))), []*Term{ba}))
		}
		return c.ret(r)
	}
	m["strings.Index"] = idx
	m["strings.IndexByte"] = idx
	m["strings.LastIndexByte"] = idx
	m["bytes.IndexByte"] = idx
	m["strings.Split"] = func(c *callCtx, a []Val) []Outcome {
		n := App("len:"+c.name, SInt, a[0].L[0], a[1].L[0])
		c.st.assume(Ge(n, Int(1)))
		v := c.genSlice(tyString, n, c.name, a[0].L[0], a[1].L[0])
		return c.ret(v.L...)
	}
	m["strings.Join"] = func(c *callCtx, a []Val) []Outcome {
		s := a[0]
		if n := constLen(s); n >= 0 && n <= 6 {
			var parts []*Term
			for i := 0; i < n; i++ {
				if i > 0 {
					parts = append(parts, a[1].L[0])
				}
				parts = append(parts, c.ex.load(c.st, elemPtr(types.NewPointer(tyString), s, Int(int64(i)), tyString).A).L[0])
			}
			return c.ret(Concat(parts...))
		}
		row := selH(c.st.arr(elemKey(tyString, ""), arr(SInt, arr(SInt, SStr))), s.L[0])
		return c.ret(App(c.name, SStr, row, s.L[1], s.L[2], a[1].L[0]))
	}
	m["strings.ContainsFunc"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App(c.name, SBool, a[0].L[0], a[1].L[0]))
	}
	// builders
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		p := "(*" + b + ")."
		wr := func(get func(v Val) *Term) model {
			return func(c *callCtx, a []Val) []Outcome {
				ad := c.ex.addrOf(a[0])
				old := c.ex.load(c.st, ad)
				x := get(a[1])
				c.ex.store(c.st, ad, Val{T: ad.t, L: []*Term{Concat(old.L[0], x)}})
				if c.res.Len() == 1 { // WriteByte
					return c.ret(Int(0), Int(0))
				}
				return c.ret(StrLen(x), Int(0), Int(0))
			}
		}
		m[p+"WriteString"] = wr(func(v Val) *Term { return v.L[0] })
		m[p+"Write"] = wr(func(v Val) *Term { return v.L[0] })
		chr := func(v Val) *Term {
			if v.L[0].op == "int" {
				return Str(string(rune(v.L[0].ival)))
			}
			return App("chr", SStr, v.L[0])
		}
		m[p+"WriteRune"] = wr(chr)
		m[p+"WriteByte"] = wr(func(v Val) *Term {
			if v.L[0].op == "int" {
				return Str(string([]byte{byte(v.L[0].ival)}))
			}
			return App("bytestr", SStr, v.L[0])
		})
		m[p+"Grow"] = func(c *callCtx, a []Val) []Outcome { return c.none() }
		m[p+"String"] = func(c *callCtx, a []Val) []Outcome {
			return c.ret(c.ex.load(c.st, c.ex.addrOf(a[0])).L[0])
		}
		m[p+"Len"] = func(c *callCtx, a []Val) []Outcome {
			return c.ret(StrLen(c.ex.load(c.st, c.ex.addrOf(a[0])).L[0]))
		}
		m[p+"Reset"] = func(c *callCtx, a []Val) []Outcome {
			ad := c.ex.addrOf(a[0])
			c.ex.store(c.st, ad, Val{T: ad.t, L: []*Term{Str("")}})
			return c.none()
		}
	}
	// ---- strconv ----
	m["strconv.Itoa"] = func(c *callCtx, a []Val) []Outcome {
		if a[0].L[0].op == "int" {
			return c.ret(Str(strconv.Itoa(int(a[0].L[0].ival))))
		}
		return c.ret(App(c.name, SStr, a[0].L[0]))
	}
	m["strconv.FormatBool"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(Ite(a[0].L[0], Str("true"), Str("false")))
	}
	m["strconv.Atoi"] = func(c *callCtx, a []Val) []Outcome {
		s := a[0].L[0]
		if isStrC(s) {
			n, err := strconv.Atoi(s.sval)
			if err == nil {
				return c.ret(Int(int64(n)), Int(0), Int(0))
			}
		}
		ok := App("isInt", SBool, s)
		v := App("atoi", SInt, s)
		et := Ite(ok, Int(0), Int(typeID(errStringT())))
		ep := Ite(ok, Int(0), App("atoierr", SInt, s))
		if !isStrC(s) {
			c.st.assume(Imp(Eq(s, Str("")), Not(ok)))
		}
		return c.ret(Ite(ok, v, App("atoibad", SInt, s)), et, ep)
	}
	// ---- fmt / errors ----
	m["fmt.Sprintf"] = func(c *callCtx, a []Val) []Outcome {
		t, _ := c.ex.sprintf(c, a[0], a[1])
		return c.ret(t)
	}
	m["strconv.Quote"] = func(c *callCtx, a []Val) []Outcome {
		if isStrC(a[0].L[0]) {
			return c.ret(Str(strconv.Quote(a[0].L[0].sval)))
		}
		return c.ret(App("strconv.Quote", SStr, a[0].L[0]))
	}
	m["fmt.Errorf"] = func(c *callCtx, a []Val) []Outcome {
		t, w := c.ex.sprintf(c, a[0], a[1])
		return c.ret(c.ex.newErr(c.st, t, w).L...)
	}
	m["errors.New"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(c.ex.newErr(c.st, a[0].L[0], nil).L...)
	}
	m["errors.Is"] = func(c *callCtx, a []Val) []Outcome {
		return c.ex.errIsFull(c, a[0], a[1], 0)
	}
	m["errors.As"] = func(c *callCtx, a []Val) []Outcome {
		// target: a pointer (boxed in an interface) to a variable of type T
		err := a[0]
		tag := a[1].L[0]
		if tag.op != "int" {
			unsup("errors.As with a dynamic target")
		}
		pt, ok := typeByID[tag.ival].Underlying().(*types.Pointer)
		if !ok {
			unsup("errors.As target")
		}
		T := pt.Elem()
		if types.IsInterface(T) {
			unsup("errors.As to an interface")
		}
		tn := typeName(T)
		asOK := func(t, p *Term) *Term {
			if t.op == "int" && t.ival == typeID(T) {
				return tTrue
			}
			if t.op == "int" && (t.ival == 0 || t.ival == typeID(errStringT())) {
				return tFalse
			}
			return App("errAs|"+tn, SBool, t, p)
		}
		asVal := func(t, p *Term) *Term {
			if t.op == "int" && t.ival == typeID(T) {
				return p
			}
			return App("errAsVal|"+tn, SInt, t, p)
		}
		et, ep := err.L[0], err.L[1]
		ok1, v1 := asOK(et, ep), asVal(et, ep)
		st := c.st
		if et.op != "int" {
			st.assume(Imp(Eq(et, Int(typeID(T))), And(ok1, Eq(v1, ep))))
			st.assume(Imp(Eq(et, Int(0)), Not(ok1)))
		}
		wt, wp := App("wrapsTag", SInt, et, ep), App("wrapsPay", SInt, et, ep)
		if et.op != "int" || et.ival == typeID(wrapErrT()) {
			is := Eq(et, Int(typeID(wrapErrT())))
			okw, vw := App("errAs|"+tn, SBool, wt, wp), App("errAsVal|"+tn, SInt, wt, wp)
			st.assume(Imp(is, And(Eq(ok1, okw), Eq(v1, vw))))
			st.assume(Imp(Eq(wt, Int(typeID(T))), And(okw, Eq(vw, wp))))
		}
		var outs []Outcome
		c.ex.branch(st, ok1, func(s *State, v bool, last bool) {
			if v {
				r := c.ex.unbox(s, v1, T)
				tp := Val{T: pt, L: []*Term{a[1].L[1]}}
				c.ex.store(s, c.ex.addrOf(tp), r)
			}
			c2 := *c
			c2.st = s
			outs = append(outs, c2.ret(Bool(v))...)
		})
		return outs
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "fmt.Print"} {
		m[n] = func(c *callCtx, a []Val) []Outcome { return c.noop() }
	}
	for _, n := range []string{"Debug", "Info", "Warn", "Error", "SetLevel", "SetOutput", "SetDefault", "Print"} {
		m["github.com/charmbracelet/log."+n] = func(c *callCtx, a []Val) []Outcome { return c.none() }
	}
	// ---- os, filepath ----
	m["os.Getenv"] = func(c *callCtx, a []Val) []Outcome { return c.ret(App("os.Getenv", SStr, a[0].L[0])) }
	m["os.Environ"] = func(c *callCtx, a []Val) []Outcome {
		n := App("len:environ", SInt)
		c.st.assume(Ge(n, Int(0)))
		v := c.genSlice(tyString, n, "environ")
		return c.ret(v.L...)
	}
	for _, n := range []string{"Dir", "Base", "Clean", "IsAbs", "Ext"} {
		m["path/filepath."+n] = func(c *callCtx, a []Val) []Outcome { return c.ex.pathModel(c, a) }
	}
	m["path/filepath.Join"] = func(c *callCtx, a []Val) []Outcome {
		n := constLen(a[0])
		if n < 0 {
			return c.noop()
		}
		var parts []*Term
		con := true
		var ss []string
		for i := 0; i < n; i++ {
			t := c.ex.load(c.st, elemPtr(types.NewPointer(tyString), a[0], Int(int64(i)), tyString).A).L[0]
			parts = append(parts, t)
			if isStrC(t) {
				ss = append(ss, t.sval)
			} else {
				con = false
			}
		}
		if con {
			return c.ret(Str(filepath.Join(ss...)))
		}
		return c.ret(App(fmt.Sprintf("filepath.Join%d", n), SStr, parts...))
	}
	m["path/filepath.Abs"] = func(c *callCtx, a []Val) []Outcome {
		return c.okOrErr(func(st *State) []*Term { return []*Term{App("filepath.Abs", SStr, a[0].L[0])} })
	}
	m["path/filepath.Rel"] = func(c *callCtx, a []Val) []Outcome {
		return c.okOrErr(func(st *State) []*Term { return []*Term{App("filepath.Rel", SStr, a[0].L[0], a[1].L[0])} })
	}
	m["os.Getwd"] = func(c *callCtx, a []Val) []Outcome {
		return c.okOrErr(func(st *State) []*Term { return []*Term{App("os.Getwd", SStr)} })
	}
	m["os.Stat"] = func(c *callCtx, a []Val) []Outcome {
		p := a[0].L[0]
		c.ex.noteAssume("the file system does not change between two looks at the same path")
		ok := App("fs.exists", SBool, p)
		notex := App("fs.notexist", SBool, p)
		c.st.assume(Imp(ok, Not(notex)))
		et := Ite(ok, Int(0), Int(typeID(errStringT())))
		ep := Ite(ok, Int(0), App("fs.staterr", SInt, p))
		c.st.assume(Eq(App("os.IsNotExist", SBool, Int(typeID(errStringT())), App("fs.staterr", SInt, p)), notex))
		ft := Ite(ok, Int(typeID(tyFileStat())), Int(0))
		fp := Ite(ok, App("fs.stat", SInt, p), Int(0))
		c.st.assume(Eq(App("fs.isdir", SBool, App("fs.stat", SInt, p)), App("fs.dir", SBool, p)))
		return c.ret(ft, fp, et, ep)
	}
	m["(io/fs.FileInfo).IsDir"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App("fs.isdir", SBool, a[0].L[1]))
	}
	m["os.IsNotExist"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App("os.IsNotExist", SBool, a[0].L[0], a[0].L[1]))
	}
	m["os.ReadFile"] = func(c *callCtx, a []Val) []Outcome {
		p := a[0].L[0]
		return c.okOrErr(func(st *State) []*Term { return []*Term{App("fs.content", SStr, p), st.newRef()} })
	}
	// ---- regexp ----
	m["regexp.MustCompile"] = func(c *callCtx, a []Val) []Outcome {
		if isStrC(a[0].L[0]) {
			return c.ret(c.ex.regexVal(c.res.At(0).Type(), a[0].L[0].sval).L...)
		}
		c.ex.need(c.st, c.in, App("re.valid", SBool, a[0].L[0]), "regexp.MustCompile of a pattern that may not compile")
		r := App("regexp.compile", SInt, a[0].L[0])
		c.st.assume(Gt(r, Int(0)))
		return c.ret(r)
	}
	m["regexp.Compile"] = func(c *callCtx, a []Val) []Outcome {
		ok := App("re.valid", SBool, a[0].L[0])
		r := App("regexp.compile", SInt, a[0].L[0])
		c.st.assume(Gt(r, Int(0)))
		e := c.freshErr()
		c.st.assume(Or(ok, Not(Eq(e.L[0], Int(0)))))
		return c.ret(Ite(ok, r, Int(0)), Ite(ok, Int(0), e.L[0]), Ite(ok, Int(0), e.L[1]))
	}
	m["(*regexp.Regexp).MatchString"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App("re.match", SBool, a[0].L[0], a[1].L[0]))
	}
	m["(*regexp.Regexp).String"] = func(c *callCtx, a []Val) []Outcome {
		if p, ok := regexOf(a[0].L[0]); ok {
			return c.ret(Str(p))
		}
		return c.ret(App("re.string", SStr, a[0].L[0]))
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = func(c *callCtx, a []Val) []Outcome {
		re, s := a[0].L[0], a[1].L[0]
		ng := regexGroups(re)
		mt := App("re.match", SBool, re, s)
		v := c.genSlice(tyString, ng, "re.sub", re, s)
		if re.op == "int" && isStrC(s) {
			unsupConst()
		}
		return c.ret(Ite(mt, v.L[0], Int(0)), Int(0), Ite(mt, v.L[2], Int(0)), Ite(mt, v.L[3], Int(0)))
	}
	m["(*regexp.Regexp).FindAllStringSubmatch"] = func(c *callCtx, a []Val) []Outcome {
		// a slice of slices: element j is a slice whose row is re.allsub(re,s,j)
		re, s := a[0].L[0], a[1].L[0]
		n := App("re.ntok", SInt, re, s)
		c.st.assume(Ge(n, Int(0)), Eq(Eq(n, Int(0)), Not(App("re.match", SBool, re, s))))
		sl := types.NewSlice(tyString)
		base := freshTop(c.st)
		old := c.st.top
		c.st.top = base
		outer := c.st.newRef()
		// rows of the matches live in objects above the old frontier
		ek := elemKey(tyString, "")
		em := c.st.arr(ek, arr(SInt, arr(SInt, SStr)))
		f := Sym("matches", em.sort)
		refBounds[f], _ = asTop(c.st.top)
		frameOf[f] = frameInfo{bound: old, base: em}
		q := QVar("r", SInt)
		c.st.assume(Forall([]*Term{q}, Imp(Le(q, old), mk(Term{op: "=", sort: SBool, args: []*Term{App("select", elemSort(em.sort), f, q), App("select", elemSort(em.sort), em, q)}})), []*Term{App("select", elemSort(em.sort), f, q)}))
		c.st.heap[ek] = f
		c.st.writeSince(ek, old)
		for _, l := range leavesOf(sl) {
			k := elemKey(sl, l.path)
			mm := c.st.arr(k, arr(SInt, arr(SInt, l.sort)))
			row := Sym("mrow"+l.path, arr(SInt, l.sort))
			refBounds[row], _ = asTop(c.st.top)
			j := QVar("j", SInt)
			var body *Term
			switch l.path {
			case "#arr":
				body = And(Gt(Select(row, j), old), Lt(Select(row, j), outer), App("=", SBool, Select(f, Select(row, j)), App("re.allsub", arr(SInt, SStr), re, s, j)))
			case "#off":
				body = Eq(Select(row, j), Int(0))
			default:
				body = Eq(Select(row, j), regexGroups(re))
			}
			c.st.assume(Forall([]*Term{j}, Imp(And(Ge(j, Int(0)), Lt(j, n)), body), []*Term{Select(row, j)}))
			c.st.heap[k] = Store(mm, outer, row)
			c.st.write(k, outer)
		}
		return c.ret(Ite(Eq(n, Int(0)), Int(0), outer), Int(0), n, n)
	}
	pm := repoPrefix + "/" + stdModelDir + "."
	m[pm+"reCount"] = func(c *callCtx, a []Val) []Outcome {
		n := App("re.ntok", SInt, a[0].L[0], a[1].L[0])
		c.st.assume(Ge(n, Int(0)), Eq(Eq(n, Int(0)), Not(App("re.match", SBool, a[0].L[0], a[1].L[0]))))
		return c.ret(n)
	}
	m[pm+"reTok"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App("re.tok", SStr, a[0].L[0], a[1].L[0], a[2].L[0]))
	}
	m[pm+"reLit"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App("re.lit", SStr, a[0].L[0], a[1].L[0], a[2].L[0]))
	}
	m["(*regexp.Regexp).ReplaceAllString"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(App("re.replace", SStr, a[0].L[0], a[1].L[0], a[2].L[0]))
	}
	// ---- slices, maps, sort ----
	m["slices.Clone"] = func(c *callCtx, a []Val) []Outcome {
		z := zeroVal(a[0].T)
		if isByteSlice(a[0].T) {
			return c.ret(a[0].L[0], c.st.newRef())
		}
		// the copy shares nothing
		el := a[0].T.Underlying().(*types.Slice).Elem()
		ref := c.st.newRef()
		for _, l := range leavesOf(el) {
			k := elemKey(el, l.path)
			mm := c.st.arr(k, arr(SInt, arr(SInt, l.sort)))
			c.st.heap[k] = Store(mm, ref, selH(mm, a[0].L[0]))
			c.st.write(k, ref)
		}
		_ = z
		isnil := Eq(a[0].L[0], Int(0))
		cp := Sym("cap", SInt)
		c.st.assume(Ge(cp, a[0].L[2]), Imp(isnil, Eq(cp, Int(0))))
		return c.ret(Ite(isnil, Int(0), ref), Ite(isnil, Int(0), a[0].L[1]), a[0].L[2], cp)
	}
	m["slices.Contains"] = func(c *callCtx, a []Val) []Outcome {
		s, v := a[0], a[1]
		el := s.T.Underlying().(*types.Slice).Elem()
		at := func(i *Term) *Term {
			return eqVals(c.ex.load(c.st, elemPtr(types.NewPointer(el), s, i, el).A), v)
		}
		if n := constLen(s); n >= 0 && n <= 8 {
			var or []*Term
			for i := 0; i < n; i++ {
				or = append(or, at(Int(int64(i))))
			}
			return c.ret(Or(or...))
		}
		b := Sym("contains", SBool)
		w := Sym("at", SInt)
		c.st.assume(Imp(b, And(Ge(w, Int(0)), Lt(w, s.L[2]), at(w))))
		q := QVar("i", SInt)
		pe := c.ex.load(c.st, elemPtr(types.NewPointer(el), s, Sub(q, s.L[1]), el).A)
		_ = pe
		abs := &Addr{ref: s.L[0], owner: el, elem: true, idx: q, t: el}
		lv := c.ex.load(c.st, abs)
		c.st.assume(Imp(Not(b), Forall([]*Term{q}, Imp(And(Ge(q, s.L[1]), Lt(q, Add(s.L[1], s.L[2]))), Not(eqVals(lv, v))), []*Term{lv.L[0]})))
		return c.ret(b)
	}
	sortM := func(c *callCtx, a []Val) []Outcome {
		// a permutation in ascending order
		s := a[0]
		if s.T == nil || !isStrSlice(s.T) {
			return c.ex.unknownCall(c.fr, c.st, c.in, c.name, a, c.res)
		}
		k := elemKey(tyString, "")
		mm := c.st.arr(k, arr(SInt, arr(SInt, SStr)))
		old := selH(mm, s.L[0])
		nr := Sym("sorted", old.sort)
		lo, hi := s.L[1], Add(s.L[1], s.L[2])
		pf, pb := Sym("permF", arr(SInt, SInt)), Sym("permB", arr(SInt, SInt))
		q := QVar("i", SInt)
		in := func(x *Term) *Term { return And(Ge(x, lo), Lt(x, hi)) }
		c.st.assume(Forall([]*Term{q}, Imp(in(q), And(in(Select(pf, q)), App("=", SBool, Select(nr, q), Select(old, Select(pf, q))), App("=", SBool, Select(pb, Select(pf, q)), q))), []*Term{Select(nr, q)}))
		c.st.assume(Forall([]*Term{q}, Imp(in(q), And(in(Select(pb, q)), App("=", SBool, Select(old, q), Select(nr, Select(pb, q))), App("=", SBool, Select(pf, Select(pb, q)), q))), []*Term{Select(old, q)}))
		c.st.assume(Forall([]*Term{q}, Imp(Not(in(q)), App("=", SBool, Select(nr, q), Select(old, q))), []*Term{Select(nr, q)}))
		r := QVar("j", SInt)
		c.st.assume(Forall([]*Term{q, r}, Imp(And(Ge(q, lo), Lt(q, r), Lt(r, hi)), Not(strLt(Select(nr, r), Select(nr, q)))), []*Term{Select(nr, q), Select(nr, r)}))
		c.st.heap[k] = Store(mm, s.L[0], nr)
		c.st.write(k, s.L[0])
		return c.none()
	}
	// sorting by a given order: some permutation of the elements
	permM := func(c *callCtx, a []Val) []Outcome {
		s := a[0]
		if len(s.L) == 2 && s.L[0].op == "int" && s.L[0].ival != 0 {
			s = c.ex.unbox(c.st, s.L[1], typeByID[s.L[0].ival])
		}
		sl, ok := s.T.Underlying().(*types.Slice)
		if !ok || isByteSlice(s.T) {
			unsup("%s of %s", c.name, s.T)
		}
		el := sl.Elem()
		lo, hi := s.L[1], Add(s.L[1], s.L[2])
		pf, pb := Sym("permF", arr(SInt, SInt)), Sym("permB", arr(SInt, SInt))
		q := QVar("i", SInt)
		in := func(x *Term) *Term { return And(Ge(x, lo), Lt(x, hi)) }
		for _, l := range leavesOf(el) {
			k := elemKey(el, l.path)
			mm := c.st.arr(k, arr(SInt, arr(SInt, l.sort)))
			old := selH(mm, s.L[0])
			nr := Sym("sorted", old.sort)
			if b, ok := rowBound(old); ok {
				refBounds[nr] = b
			}
			c.st.assume(Forall([]*Term{q}, Imp(in(q), And(in(Select(pf, q)), App("=", SBool, Select(nr, q), Select(old, Select(pf, q))), App("=", SBool, Select(pb, Select(pf, q)), q))), []*Term{Select(nr, q)}))
			c.st.assume(Forall([]*Term{q}, Imp(in(q), And(in(Select(pb, q)), App("=", SBool, Select(old, q), Select(nr, Select(pb, q))), App("=", SBool, Select(pf, Select(pb, q)), q))), []*Term{Select(old, q)}))
			c.st.assume(Forall([]*Term{q}, Imp(Not(in(q)), App("=", SBool, Select(nr, q), Select(old, q))), []*Term{Select(nr, q)}))
			c.st.heap[k] = Store(mm, s.L[0], nr)
			c.st.write(k, s.L[0])
		}
		return c.none()
	}
	m["sort.Slice"] = permM
	m["sort.SliceStable"] = permM
	m["slices.SortFunc"] = permM
	m["slices.SortStableFunc"] = permM
	m["sort.Strings"] = sortM
	m["slices.Sort"] = sortM
	// ---- sync: exclusion itself is not modelled; the lock state is ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done"} {
		m[n] = func(c *callCtx, a []Val) []Outcome { return c.none() }
	}
	m["(*sync.WaitGroup).Wait"] = func(c *callCtx, a []Val) []Outcome {
		c.ex.joinAll(c.fr, c.st)
		return c.none()
	}
	m["(*sync.Once).Do"] = func(c *callCtx, a []Val) []Outcome {
		var outs []Outcome
		done := c.ex.getGhostArr(c.st, "oncedone", SBool, a[0].L[0])
		sig := a[1].T.Underlying().(*types.Signature)
		c.ex.branch(c.st, done, func(s *State, v bool, last bool) {
			if v {
				outs = append(outs, Outcome{s, Val{T: c.res}})
				return
			}
			for _, o := range c.ex.callValue(c.fr, s, c.in, a[1], nil, sig) {
				c.ex.setGhostArr(o.st, "oncedone", a[0].L[0], tTrue)
				outs = append(outs, Outcome{o.st, Val{T: c.res}})
			}
		})
		return outs
	}
	// ---- context ----
	m["context.Background"] = func(c *callCtx, a []Val) []Outcome {
		return c.ret(Int(typeID(tyCtx())), Int(globalErrID("context.Background")))
	}
	m["context.WithCancel"] = func(c *callCtx, a []Val) []Outcome {
		ref := c.st.newRef()
		f := Sym("cancel", SInt)
		refBounds[f], _ = asTop(c.st.top)
		c.st.assume(Gt(f, Int(0)))
		qt, qp := QVar("t", SInt), QVar("p", SInt)
		for _, w := range []string{"T", "P"} { // the values are the parent's
			n := App("ctxval"+w, SInt, Int(typeID(tyCtx())), ref, qt, qp)
			c.st.assume(Forall([]*Term{qt, qp}, App("=", SBool, n, App("ctxval"+w, SInt, a[0].L[0], a[0].L[1], qt, qp)), []*Term{n}))
		}
		return c.ret(Int(typeID(tyCtx())), ref, f)
	}
	m["context.WithValue"] = func(c *callCtx, a []Val) []Outcome {
		ref := c.st.newRef()
		tag := Int(typeID(tyCtx()))
		kt, kp := a[1].L[0], a[1].L[1]
		v := func(which string, ct, cp, t, p *Term) *Term { return App("ctxval"+which, SInt, ct, cp, t, p) }
		qt, qp := QVar("t", SInt), QVar("p", SInt)
		same := And(App("=", SBool, qt, kt), App("=", SBool, qp, kp))
		for i, w := range []string{"T", "P"} {
			n := v(w, tag, ref, qt, qp)
			c.st.assume(Forall([]*Term{qt, qp}, App("=", SBool, n, Ite(same, a[2].L[i], v(w, a[0].L[0], a[0].L[1], qt, qp))), []*Term{n}))
			c.st.assume(Eq(v(w, tag, ref, kt, kp), a[2].L[i]))
		}
		return c.ret(tag, ref)
	}
	m["(context.Context).Value"] = func(c *callCtx, a []Val) []Outcome {
		t := App("ctxvalT", SInt, a[0].L[0], a[0].L[1], a[1].L[0], a[1].L[1])
		p := App("ctxvalP", SInt, a[0].L[0], a[0].L[1], a[1].L[0], a[1].L[1])
		return c.ret(t, p)
	}
	m["(context.Context).Done"] = func(c *callCtx, a []Val) []Outcome {
		r := App("ctxdone", SInt, a[0].L[0], a[0].L[1])
		c.st.assume(Gt(r, Int(0)))
		return c.ret(r)
	}
	m["(context.Context).Err"] = func(c *callCtx, a []Val) []Outcome {
		// once it is an error it stays that error
		t, p := App("ctxerrT", SInt, a[0].L[0], a[0].L[1]), App("ctxerrP", SInt, a[0].L[0], a[0].L[1])
		c.st.assume(Gt(t, Int(0)))
		d := Sym("ctxover", SBool)
		k := fmt.Sprintf("I|ctx|%s|%s", a[0].L[0], a[0].L[1])
		if was := c.st.heap[k]; was != nil {
			c.st.assume(Imp(was, d))
		}
		c.st.heap[k] = d
		return c.ret(Ite(d, t, Int(0)), Ite(d, p, Int(0)))
	}
	m["time.Now"] = func(c *callCtx, a []Val) []Outcome { return c.noop() }
}

func unsupConst() {}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var fileStatT, ctxT types.Type

func tyFileStat() types.Type {
	if fileStatT == nil {
		fileStatT = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("os", "os"), "fileStat", nil), types.NewStruct(nil, nil), nil))
	}
	return fileStatT
}

func tyCtx() types.Type {
	if ctxT == nil {
		ctxT = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("context", "context"), "valueCtx", nil), types.NewStruct(nil, nil), nil))
	}
	return ctxT
}

func regexGroups(re *Term) *Term {
	if p, ok := regexOf(re); ok {
		n := 1
		for i := 0; i < len(p); i++ {
			switch p[i] {
			case '\\':
				i++
			case '[':
				for i++; i < len(p) && p[i] != ']'; i++ {
					if p[i] == '\\' {
						i++
					}
				}
			case '(':
				if i+1 >= len(p) || p[i+1] != '?' || strings.HasPrefix(p[i:], "(?P<") {
					n++
				}
			}
		}
		return Int(int64(n))
	}
	return App("re.groups", SInt, re)
}
