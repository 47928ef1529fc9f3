// C02: variable resolution is a fixpoint, independent of order.
import C01

// the meaning of substitution (see C01)
axiom local all(s, string, all(v, content(map[string]string), trig(acc(s, v, 0) == "", acc(s, v, 0))))
axiom local all(s, string, all(v, content(map[string]string), all(j, int, trig(
   imp(0 <= j && j < rentok(TOK, s), acc(s, v, j+1) == acc(s, v, j) + (relit(TOK, s, j) + rep(retok(TOK, s, j), v))), acc(s, v, j), retok(TOK, s, j)))))
axiom local all(s, string, all(v, content(map[string]string), trig(
   interp(s, v) == acc(s, v, rentok(TOK, s)) + relit(TOK, s, rentok(TOK, s)), interp(s, v))))
axiom local all(s, string, all(v, content(map[string]string), trig(
   interpOK(s, v) == all(j, 0, rentok(TOK, s), by(!bad(retok(TOK, s, j), v), retok(TOK, s, j))), interpOK(s, v))))
// a text the token pattern matched as a whole is an escape or a reference
axiom local all(s, string, all(j, int, trig(imp(0 <= j && j < rentok(TOK, s), rematch(ESC, retok(TOK, s, j)) || rematch(REF, retok(TOK, s, j))), retok(TOK, s, j))))

axiom local all(s, string, trig(rentok(TOK, s) >= 0, rentok(TOK, s)))

// what a text refers to
def tk(s, j) = retok(TOK, s, j)
def refAt(s, j) = !rematch(ESC, tk(s, j)) && !isEnv(vname(tk(s, j)))
// two tables that agree on what a text refers to give it the same value
def agreeAt(s, j, v, w) = imp(refAt(s, j), iff(in(vname(tk(s, j)), v), in(vname(tk(s, j)), w)) && v[vname(tk(s, j))] == w[vname(tk(s, j))])
def agree(s, v, w) = all(j, 0, rentok(TOK, s), by(agreeAt(s, j, v, w), retok(TOK, s, j)))
lemma agreeAcc(s string, v content(map[string]string), w content(map[string]string), j int) by j
  uses retok(TOK, s, j)
  trig acc(s, v, j), acc(s, w, j)
  claim imp(agree(s, v, w) && j <= rentok(TOK, s), acc(s, v, j) == acc(s, w, j))
lemma agreeInterp(s string, v content(map[string]string), w content(map[string]string))
  trig interp(s, v), interp(s, w)
  claim imp(agree(s, v, w), interp(s, v) == interp(s, w) && iff(interpOK(s, v), interpOK(s, w)))

// s refers to the variable k
fun refers(string, string) bool
axiom local all(s, string, all(k, string, trig(refers(s, k) == ex(j, 0, rentok(TOK, s), refAt(s, j) && vname(tk(s, j)) == k), refers(s, k))))
axiom local all(s, string, all(j, int, trig(imp(0 <= j && j < rentok(TOK, s) && refAt(s, j), refers(s, vname(tk(s, j)))), retok(TOK, s, j))))

func interpolate.ExtractVarRefs(s) (r)
  ensures [all] all(j, 0, rentok(TOK, s), imp(!rematch(ESC, tk(s, j)), ex(i, 0, len(r), r[i] == vname(tk(s, j)))))
  ensures [only] all(i, 0, len(r), ex(j, 0, rentok(TOK, s), !rematch(ESC, tk(s, j)) && r[i] == vname(tk(s, j))))
  ensures fresh(r) || len(r) == 0
  loop (x []string) all(j, 0, $i, imp(!rematch(ESC, tk(s, j)), ex(i, 0, len(x), x[i] == vname(tk(s, j)))))
  loop (x []string) all(i, 0, len(x), ex(j, 0, $i, !rematch(ESC, tk(s, j)) && x[i] == vname(tk(s, j))))
  nopanic
// the pattern's first group is the name of a reference, and empty for an escape
axiom all(s, string, all(j, int, trig(imp(0 <= j && j < rentok(TOK, s), reallgroup(TOK, s, j, 1) == ite(rematch(ESC, retok(TOK, s, j)), "", vname(retok(TOK, s, j))) && imp(!rematch(ESC, retok(TOK, s, j)), vname(retok(TOK, s, j)) != "")), retok(TOK, s, j))))

// resolving: S the names already final, G those being resolved, stack the way to here
ghost rank per string to int
ghost clock int
def D() = content(vars)
def P() = content(parentVars)
def R() = content(resolved)
def S(k) = in(k, resolvedSet) && resolvedSet[k]
def G(k) = in(k, resolving) && resolving[k]
def noted(k) = all(j, 0, rentok(TOK, vars[k]), by(imp(refAt(vars[k], j) && in(vname(tk(vars[k], j)), vars), S(vname(tk(vars[k], j))) && rank[vname(tk(vars[k], j))] < rank[k]), retok(TOK, vars[k], j)))
// a name is final: it has its definition's value, and all it refers to is final and was so before it
def final(k) = in(k, vars) && in(k, resolved) && interpOK(vars[k], R()) && resolved[k] == interp(vars[k], R()) && rank[k] < clock && noted(k)
def keeps() = all(k, string, in(k, resolved) == (in(k, resolved) && (in(k, vars) || in(k, parentVars)))) &&
  all(k, string, imp(!in(k, vars), in(k, resolved) == in(k, parentVars) && imp(in(k, parentVars), resolved[k] == parentVars[k])))
// the names being resolved are those on the stack, each referring to the next
def stk() = content(resolvingStack)
def path0() = all(i, 0, len(resolvingStack), by(in(resolvingStack[i], vars), resolvingStack[i])) && all(i, 0, len(resolvingStack)-1, by(refers(vars[resolvingStack[i]], resolvingStack[i+1]), resolvingStack[i])) &&
  all(k, string, imp(in(k, resolving), ex(i, 0, len(resolvingStack), resolvingStack[i] == k)))
def leads(name) = imp(len(resolvingStack) > 0, refers(vars[resolvingStack[len(resolvingStack)-1]], name))
// what an error says is so
def cyc(e) = as(e, *errs.VarCycleError)
def isCycle(e) = is(e, *errs.VarCycleError) && len(cyc(e).Chain) >= 2 && cyc(e).Chain[len(cyc(e).Chain)-1] == cyc(e).Name &&
  ex(i, 0, len(cyc(e).Chain)-1, cyc(e).Chain[i] == cyc(e).Name) && all(i, 0, len(cyc(e).Chain)-1, in(cyc(e).Chain[i], vars) && refers(vars[cyc(e).Chain[i]], cyc(e).Chain[i+1]))
def miss(e) = as(e, *errs.VarNotFoundError).Name
def isMissing(e) = is(e, *errs.VarNotFoundError) && !in(miss(e), vars) && !in(miss(e), parentVars) && !isEnv(miss(e)) && ex(k, string, in(k, vars) && refers(vars[k], miss(e)))
def inv() = keeps() && all(k, string, imp(S(k), final(k))) && all(k, string, imp(in(k, resolving), G(k) && in(k, vars) && !S(k)))

func interpolate.NewContextWithLocation(v, p, l) (c)
  ensures fresh(c) && imp(v != nil, c.Vars == v)
on return interpolate.Interpolate(t, c) (v, e) in interpolate.ResolveVarsWithLocation$2
  check [A] imp(e == nil, agree(vars[name], R(), upd(R(), name, v)))
  check [B] imp(e == nil, all(k, string, imp(S(k), agree(vars[k], R(), upd(R(), name, v)))))
  check [E1] all(j, 0, rentok(TOK, vars[name]), by(imp(refAt(vars[name], j) && in(vname(tk(vars[name], j)), vars), S(vname(tk(vars[name], j)))), retok(TOK, vars[name], j)))
  check [E] imp(e == nil, all(j, 0, rentok(TOK, vars[name]), by(imp(refAt(vars[name], j) && in(vname(tk(vars[name], j)), vars), S(vname(tk(vars[name], j))) && rank[vname(tk(vars[name], j))] < clock && vname(tk(vars[name], j)) != name), retok(TOK, vars[name], j))))
  set rank[name] = clock
  set clock = clock + 1
def apart() = resolved != parentVars && resolved != vars && resolvedSet != resolving
func interpolate.ResolveVarsWithLocation$2(name) (value, err)
  requires vars != nil && resolved != nil && resolvedSet != nil && resolving != nil && in(name, vars)
  requires inv() && apart()
  requires path0() && leads(name) && within(resolving, vars)
  decreases len(vars) - len(resolving)
  ensures [error] imp(err != nil, isCycle(err) || isMissing(err))
  ensures [value] imp(err == nil, in(name, resolved) && value == resolved[name] && S(name))
  ensures [final] imp(err == nil, inv())
  ensures [more] imp(err == nil, all(k, string, imp(old(S(k)), S(k))))
  ensures [back] imp(err == nil, all(k, string, in(k, resolving) == old(in(k, resolving))))
  ensures [back2] imp(err == nil, len(resolving) == old(len(resolving)))
  ensures [path] imp(err == nil, len(resolvingStack) == old(len(resolvingStack)) && all(i, 0, len(resolvingStack), resolvingStack[i] == old(resolvingStack[i])))
  ensures [stack] ref(resolvingStack) == old(ref(resolvingStack)) || fresh(resolvingStack)
  modifies elems(resolved), elems(resolvedSet), elems(resolving), resolvingStack, elems(resolvingStack), rank, clock
  loop path0()
  loop inv() && len(resolving) == old(len(resolving)) + 1
  loop all(k, string, imp(old(S(k)), S(k)))
  loop all(k, string, in(k, resolving) == (old(in(k, resolving)) || k == name))
  loop len(resolvingStack) == old(len(resolvingStack)) + 1 && resolvingStack[len(resolvingStack)-1] == name && all(i, 0, len(resolvingStack)-1, resolvingStack[i] == old(resolvingStack[i]))
  loop ref(resolvingStack) == old(ref(resolvingStack)) || fresh(resolvingStack)
  loop (x []string) all(i, 0, $i, imp(!isEnv(x[i]) && in(x[i], vars), S(x[i])))

// the outcome: a fixpoint of the definitions over the parent scope, with an order in which
// every definition refers to earlier ones only
def keysOf(d, p, r) = all(k, string, by(iff(in(k, r), in(k, d) || in(k, p)) && imp(!in(k, d) && in(k, p), r[k] == p[k]), r[k]))
def fixOf(d, r) = all(k, string, by(imp(in(k, d), interpOK(d[k], r) && r[k] == interp(d[k], r)), r[k]))
def ordered(d) = all(k, string, by(imp(in(k, d), all(j, 0, rentok(TOK, d[k]), by(imp(refAt(d[k], j) && in(vname(tk(d[k], j)), d), rank[vname(tk(d[k], j))] < rank[k]), retok(TOK, d[k], j)))), d[k]))

func interpolate.ResolveVarsWithLocation(vars, parentVars, path, line) (r, err)
  ensures [fresh] imp(err == nil, fresh(r))
  ensures [none] imp(err != nil, r == nil)
  ensures [keys] imp(err == nil, keysOf(old(content(vars)), old(content(parentVars)), content(r)))
  ensures [fix] imp(err == nil, fixOf(old(content(vars)), content(r)))
  ensures [ordered] imp(err == nil, ordered(old(content(vars))))
  ensures [error] imp(err != nil, isCycle(err) || isMissing(err))
  modifies rank, clock
  loop (r new map[string]string) all(k, string, iff(in(k, r), seen(k))) && all(k, string, imp(seen(k), in(k, parentVars) && r[k] == parentVars[k]))
  loop inv() && path0()
  loop len(resolvingStack) == 0 && len(resolving) == 0 && all(k, string, !in(k, resolving))
  loop all(k, string, imp(seen(k), S(k)))
  loop all(k, string, imp(S(k), in(k, vars)))

func interpolate.ResolveVars(vars, parentVars) (r, err)
  ensures [fresh] imp(err == nil, fresh(r))
  ensures [none] imp(err != nil, r == nil)
  ensures [keys] imp(err == nil, keysOf(old(content(vars)), old(content(parentVars)), content(r)))
  ensures [fix] imp(err == nil, fixOf(old(content(vars)), content(r)))
  ensures [ordered] imp(err == nil, ordered(old(content(vars))))
  ensures [error] imp(err != nil, isCycle(err) || isMissing(err))
  modifies rank, clock

// the outcome does not depend on the order: there is one such fixpoint
def orderBy(d, rk) = all(k, string, by(imp(in(k, d), all(j, 0, rentok(TOK, d[k]), by(imp(refAt(d[k], j) && in(vname(tk(d[k], j)), d), rk[vname(tk(d[k], j))] < rk[k]), retok(TOK, d[k], j)))), d[k]))
def outside(d, r, t) = all(k, string, by(imp(!in(k, d), iff(in(k, r), in(k, t)) && r[k] == t[k]) && imp(in(k, d), in(k, r) && in(k, t)), r[k]))
lemma below(d content(map[string]string), r content(map[string]string), t content(map[string]string), rk content(map[string]int), k string)
  trig interp(d[k], r), interp(d[k], t), rk[k]
  claim imp(outside(d, r, t) && orderBy(d, rk) && in(k, d) && all(q, string, by(imp(in(q, d) && rk[q] < rk[k], r[q] == t[q]), r[q])), agree(d[k], r, t))
lemma one(d content(map[string]string), r content(map[string]string), t content(map[string]string), rk content(map[string]int), k string)
  uses rk[k]
  uses interp(d[k], r)
  uses interp(d[k], t)
  trig d[k], r[k], t[k], rk[k]
  claim imp(outside(d, r, t) && fixOf(d, r) && fixOf(d, t) && orderBy(d, rk) && in(k, d) && all(q, string, by(imp(in(q, d) && rk[q] < rk[k], r[q] == t[q]), r[q])), r[k] == t[k])
lemma unique(d content(map[string]string), r content(map[string]string), t content(map[string]string), rk content(map[string]int), n int) by n
  claim imp(outside(d, r, t) && fixOf(d, r) && fixOf(d, t) && orderBy(d, rk) && all(k, string, by(0 <= rk[k], rk[k])), all(k, string, by(imp(in(k, d) && rk[k] < n, r[k] == t[k]), r[k])))
