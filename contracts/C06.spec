// C06: validation accepts exactly the well-formed task graphs.
// What an item or a task refers to; tasks and their items are not changed while
// they are validated, so this is a matter of the entry state.
fun itemRefs(babfile.RunItem, string) bool
fun itemRefs0(babfile.RunItem, string) bool
axiom all(x, babfile.RunItem, all(n, string, trig(itemRefs(x, n) == itemRefs0(x, n), itemRefs(x, n))))
axiom all(x, babfile.RunItem, all(n, string, trig(itemRefs(x, n) == (is(x, babfile.TaskRun) && as(x, babfile.TaskRun).Task == n ||
   is(x, babfile.ParallelRun) && ex(i, 0, len(as(x, babfile.ParallelRun).Items), itemRefs0(as(x, babfile.ParallelRun).Items[i], n))), itemRefs(x, n))))
fun runRefs(*babfile.Task, string) bool
axiom all(t, *babfile.Task, all(n, string, trig(runRefs(t, n) == ex(i, 0, len(t.Run), itemRefs(t.Run[i], n)), runRefs(t, n))))
fun depRefs(*babfile.Task, string) bool
axiom all(t, *babfile.Task, all(n, string, trig(depRefs(t, n) == ex(i, 0, len(t.Deps), t.Deps[i] == n), depRefs(t, n))))
def wf() = all(k, string, by(imp(in(k, tasks), tasks[k] != nil), tasks[k]))
def T(k) = in(k, tasks)
def grew() = len(verrs.Errors) > old(len(verrs.Errors))
def kept() = len(verrs.Errors) == old(len(verrs.Errors))

// an item whose references all exist, in a table of tasks
fun itemOK(babfile.RunItem, content(babfile.TaskMap)) bool
fun itemOK0(babfile.RunItem, content(babfile.TaskMap)) bool
axiom all(x, babfile.RunItem, all(v, content(babfile.TaskMap), trig(itemOK(x, v) == itemOK0(x, v), itemOK(x, v))))
axiom all(x, babfile.RunItem, all(v, content(babfile.TaskMap), trig(itemOK(x, v) == (imp(is(x, babfile.TaskRun), in(as(x, babfile.TaskRun).Task, v)) &&
   imp(is(x, babfile.ParallelRun), all(i, 0, len(as(x, babfile.ParallelRun).Items), itemOK0(as(x, babfile.ParallelRun).Items[i], v)))), itemOK(x, v))))
def TV() = content(tasks)
fun depsOK(*babfile.Task, content(babfile.TaskMap)) bool
axiom all(t, *babfile.Task, all(v, content(babfile.TaskMap), trig(depsOK(t, v) == all(i, 0, len(t.Deps), in(t.Deps[i], v)), depsOK(t, v))))
fun runOK(*babfile.Task, content(babfile.TaskMap)) bool
axiom all(t, *babfile.Task, all(v, content(babfile.TaskMap), trig(runOK(t, v) == all(i, 0, len(t.Run), itemOK(t.Run[i], v)), runOK(t, v))))
func babfile.TaskMap.Names(tm) (r)
  ensures fresh(r)
def goodDeps() = all(k, string, imp(T(k), depsOK(tasks[k], TV())))
func parser.validateDependencies(path, tasks, verrs)
  requires verrs != nil && wf()
  ensures [exist] ite(goodDeps(), kept(), grew())
  modifies verrs.Errors, allelems(error)
  loop len(verrs.Errors) >= old(len(verrs.Errors))
  loop iff(kept(), all(k, string, imp(seen(k), depsOK(tasks[k], TV()))))
  loop (n string, j int) iff(kept(), all(k, string, imp(seen(k) && k != n, depsOK(tasks[k], TV()))) && all(i, 0, j, T(tasks[n].Deps[i])))
  nopanic

def goodItems(l) = all(i, 0, len(l), by(itemOK(l[i], TV()), l[i]))
func parser.validateRunItemTaskRefs(path, referencedBy, items, tasks, verrs)
  requires verrs != nil && wf()
  ensures [exist] ite(goodItems(items), kept(), grew())
  modifies verrs.Errors, allelems(error)
  loop len(verrs.Errors) >= old(len(verrs.Errors)) && iff(kept(), goodItems(items[:$i]))
  nopanic
def goodRuns() = all(k, string, imp(T(k), runOK(tasks[k], TV())))
func parser.validateRunTaskRefs(path, tasks, verrs)
  requires verrs != nil && wf()
  ensures [exist] ite(goodRuns(), kept(), grew())
  modifies verrs.Errors, allelems(error)
  loop len(verrs.Errors) >= old(len(verrs.Errors))
  loop iff(kept(), all(k, string, imp(seen(k), runOK(tasks[k], TV()))))
  nopanic

// every alias is unique and no task's name
fun nAl(*babfile.Task) int
axiom all(t, *babfile.Task, trig(nAl(t) == len(t.Aliases) + ite(t.Alias != "", 1, 0), nAl(t)))
fun alAt(*babfile.Task, int) string
axiom all(t, *babfile.Task, all(i, int, trig(alAt(t, i) == ite(t.Alias == "", t.Aliases[i], ite(i == 0, t.Alias, t.Aliases[i-1])), alAt(t, i))))
func babfile.Task.GetAllAliases(t) (r)
  ensures [all] imp(t != nil, len(r) == nAl(t) && all(i, 0, len(r), r[i] == alAt(t, i)))
  nopanic
def A(k, i) = alAt(tasks[k], i)
def aliasOK(k, i) = A(k, i) == "" || !T(A(k, i)) && all(q, string, all(j, int, imp(T(q) && 0 <= j && j < nAl(tasks[q]) && !(q == k && j == i), A(q, j) != A(k, i))))
def goodAliases() = all(k, string, all(i, int, imp(T(k) && 0 <= i && i < nAl(tasks[k]), aliasOK(k, i))))
def taken(m, k, i) = imp(A(k, i) != "", !T(A(k, i)) && in(A(k, i), m) && m[A(k, i)].taskName == k)
def apart(k, n) = all(i, int, all(j, int, imp(0 <= i && i < j && j < n && A(k, i) != "", A(k, i) != A(k, j))))
func parser.validateAliases(path, tasks, verrs)
  requires verrs != nil && wf()
  ensures [rejected] imp(kept(), goodAliases())
  ensures [accepted] imp(goodAliases(), kept())
  ensures [reported] kept() || grew()
  modifies verrs.Errors, allelems(error)
  loop len(verrs.Errors) >= old(len(verrs.Errors)) && imp(goodAliases(), kept())
  loop (m new map[string]parser.aliasInfo) all(a, string, imp(in(a, m), T(m[a].taskName) && seen(m[a].taskName) && ex(i, 0, nAl(tasks[m[a].taskName]), A(m[a].taskName, i) == a)))
  loop (m new map[string]parser.aliasInfo) imp(kept(), all(k, string, imp(seen(k), all(i, 0, nAl(tasks[k]), taken(m, k, i)) && apart(k, nAl(tasks[k])))))
  loop (m new map[string]parser.aliasInfo, n string, j int) all(a, string, imp(in(a, m), T(m[a].taskName) && seen(m[a].taskName) && ex(i, 0, ite(m[a].taskName == n, j, nAl(tasks[m[a].taskName])), A(m[a].taskName, i) == a)))
  loop (m new map[string]parser.aliasInfo, n string, j int) imp(kept(), all(k, string, imp(seen(k) && k != n, all(i, 0, nAl(tasks[k]), taken(m, k, i)) && apart(k, nAl(tasks[k])))) && all(i, 0, j, taken(m, n, i)) && apart(n, j))
  nopanic

// the graph: who refers to whom. base is the number of errors before the search;
// as long as no error was added, every finished task refers to tasks finished before it
ghost base int
ghost cyc bool
ghost rank per string to int
ghost clock int
fun refersTo(*babfile.Task, string) bool
axiom all(t, *babfile.Task, all(n, string, trig(refersTo(t, n) == (depRefs(t, n) || runRefs(t, n)), refersTo(t, n))))
def E(a, b) = T(a) && refersTo(tasks[a], b)
def clean() = len(verrs.Errors) == base
def V(k) = in(k, visited) && visited[k]
def K(k) = in(k, recStack) && recStack[k]
def F(k) = V(k) && !K(k)
def low(k) = all(m, string, imp(refersTo(tasks[k], m) && T(m), F(m) && rank[m] < rank[k]))
def inv() = len(verrs.Errors) >= base && imp(!clean(), cyc) && all(k, string, imp(K(k), V(k))) && all(k, string, imp(V(k), T(k))) &&
  imp(clean(), all(k, string, imp(F(k), rank[k] < clock && low(k))))
def onpath(c) = all(i, 0, len(c)-1, by(E(c[i], c[i+1]), c[i])) && imp(clean(), all(k, string, imp(K(k), ex(i, 0, len(c), c[i] == k))))
def cycle(c) = len(c) >= 2 && all(i, 0, len(c)-1, by(E(c[i], c[i+1]), c[i])) && ex(i, 0, len(c)-1, c[i] == c[len(c)-1])
on call errs.ValidationErrors.Add(v, e) in parser.validateRunCycles$1
  check [cycle] imp(clean(), is(e, *errs.CircularDepError) && cycle(as(e, *errs.CircularDepError).Chain))
  set cyc = true
on call errs.ValidationErrors.Add(v, e) in parser.validateRunCycles$2
  check [cycle] imp(clean(), is(e, *errs.CircularDepError) && cycle(as(e, *errs.CircularDepError).Chain))
  set cyc = true
on return parser.validateRunCycles$1(i, c) in parser.validateRunCycles$2
  set rank[name] = clock
  set clock = clock + 1
// memory refers only to what exists
axiom all(t, *babfile.Task, trig(live(t.Deps), t.Deps))
// the path is a list of its own
def own(c) = all(k, string, imp(T(k), ref(tasks[k].Deps) != ref(c) || ref(c) == 0))
def scene() = verrs != nil && visited != nil && recStack != nil && visited != recStack && wf()
def goOn() = imp(clean(), all(k, string, imp(old(V(k)), V(k))))
func parser.validateRunCycles$1(items, chain)
  requires scene() && inv() && onpath(chain) && own(chain) && len(chain) > 0
  requires all(i, 0, len(items), by(all(m, string, imp(itemRefs(items[i], m), E(chain[len(chain)-1], m))), items[i]))
  ensures [more] len(verrs.Errors) >= old(len(verrs.Errors))
  ensures [inv] inv()
  ensures [done] imp(clean(), all(i, 0, len(items), by(all(m, string, imp(itemRefs(items[i], m) && T(m), F(m))), items[i])))
  ensures [path] imp(clean(), all(k, string, K(k) == old(K(k)))) && goOn()
  ensures [chain] all(i, 0, len(chain), chain[i] == old(chain[i]))
  modifies verrs.Errors, allelems(error), elems(chain), elems(visited), elems(recStack), rank, clock, cyc
  loop len(verrs.Errors) >= old(len(verrs.Errors)) && inv()
  loop all(i, 0, len(chain), chain[i] == old(chain[i])) && onpath(chain)
  loop imp(clean(), all(i, 0, $i, by(all(m, string, imp(itemRefs(items[i], m) && T(m), F(m))), items[i])))
  loop imp(clean(), all(k, string, K(k) == old(K(k)))) && goOn()

func parser.validateRunCycles$2(name, chain)
  requires scene() && inv() && onpath(chain) && own(chain)
  requires T(name) && !V(name) && imp(len(chain) > 0, E(chain[len(chain)-1], name))
  ensures [more] len(verrs.Errors) >= old(len(verrs.Errors))
  ensures [inv] inv()
  ensures [done] imp(clean(), F(name))
  ensures [path] imp(clean(), all(k, string, K(k) == old(K(k)))) && goOn()
  ensures [chain] all(i, 0, len(chain), chain[i] == old(chain[i]))
  modifies verrs.Errors, allelems(error), elems(chain), elems(visited), elems(recStack), rank, clock, cyc
  loop len(verrs.Errors) >= old(len(verrs.Errors)) && inv()
  loop imp(clean(), all(k, string, K(k) == (old(K(k)) || k == name))) && goOn() && imp(clean(), V(name))
  loop all(i, 0, len(chain), chain[i] == old(chain[i]))
  loop (c []string) len(c) == len(chain)+1 && c[len(c)-1] == name && all(i, 0, len(chain), c[i] == chain[i])
  loop (c []string) own(c)
  loop (c []string) all(i, 0, len(c)-1, by(E(c[i], c[i+1]), c[i]))
  loop (c []string) imp(clean(), all(k, string, imp(K(k), ex(i, 0, len(c), c[i] == k))))
  loop imp(clean(), all(i, 0, $i, imp(T(tasks[name].Deps[i]), F(tasks[name].Deps[i]))))

def ordered() = all(k, string, by(imp(T(k), all(m, string, imp(refersTo(tasks[k], m) && T(m), rank[m] < rank[k]))), tasks[k]))
func parser.validateRunCycles(path, tasks, verrs)
  requires verrs != nil && wf() && len(verrs.Errors) == base && !cyc
  ensures [acyclic] imp(kept(), ordered())
  ensures [cycle] imp(!kept(), cyc && grew())
  modifies verrs.Errors, allelems(error), rank, clock, cyc
  loop inv() && imp(clean(), all(k, string, imp(seen(k), V(k)) && !K(k)))

def good() = goodDeps() && goodRuns() && goodAliases() && ordered()
on call parser.validateRunCycles(p, t, v) in parser.validateAll
  set base = len(v.Errors)
  set cyc = false
func parser.validateAll(path, tasks) (err)
  requires wf()
  ensures [accepted] imp(err == nil, goodDeps() && goodRuns() && goodAliases() && ordered())
  ensures [rejected] imp(err != nil, !goodDeps() || !goodRuns() || !goodAliases() || cyc)
  modifies rank, clock, cyc, base, allelems(error)

// what Parse returns went through validateAll, as it is returned
ghost local checked babfile.TaskMap = nil
ghost local valid bool = false
func parser.parseFile(absPath, visited) (r, err)
  trusted
  ensures imp(err == nil, r != nil && r.Tasks != nil && all(k, string, by(imp(in(k, r.Tasks), r.Tasks[k] != nil), r.Tasks[k])))
  modifies elems(visited)
on return parser.validateAll(p, t) (e) in parser.Parse
  set checked = t
  set valid = e == nil
func parser.Parse(path) (r, err)
  ensures [validated] imp(err == nil, r != nil && valid && r.Tasks == checked)
  ensures [rejected] imp(err != nil, r == nil)
  modifies rank, clock, cyc, base, allelems(error)
