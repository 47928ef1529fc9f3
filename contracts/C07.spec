// C07: included tasks are namespaced and otherwise unchanged.
import inc
verify parser.prefixTaskRuns parser.prefixAlias parser.prefixAliases parser.prefixDeps babfile.MergeVarMaps babfile.MergeEnvMaps
// what follows a prefix is determined by the whole text
fun after(string, string) string
axiom all(x, string, all(y, string, trig(after(x, x + y) == y, after(x, x + y))))
// what is loaded is not changed afterwards; memory refers only to what exists
func babfile.TaskMap.Has(tm, n) (r)
  ensures r == in(n, tm)
// what the included file was read as
ghost local res *parser.ParseResult = nil
ghost local perr error = nil
on call parser.parseFile(p, v) in parser.resolveInclude
  check [path] p == filepath.Clean(ite(filepath.IsAbs(babfilePath), babfilePath, joinpath(baseDir, babfilePath))) && v == visited
on return parser.parseFile(p, v) (r, e) in parser.resolveInclude
  set res = r
  set perr = e
func parser.parseFile(absPath, visited) (r, err)
  trusted
  ensures iff(r == nil, err != nil)
  ensures imp(err == nil, r.Tasks != nil && fresh(r.Tasks) && fresh(r) && all(k, string, by(imp(in(k, r.Tasks), at(r.Tasks, k) != nil && live(at(r.Tasks, k))), at(r.Tasks, k))))
  modifies elems(visited)
// x was given to prefixAliases, prefixDeps or prefixTaskRuns, and y came back: what that
// means is their contract (no list that exists is changed while a file is included)
fun aliasesOf([]string, []string, string) bool
fun depsOf([]string, []string, string) bool
fun runOf([]babfile.RunItem, []babfile.RunItem, string) bool
on return parser.prefixAliases(x, ns) (y) in parser.resolveInclude
  assume aliasesOf(x, y, ns)
on return parser.prefixDeps(x, ns) (y) in parser.resolveInclude
  assume depsOf(x, y, ns)
on return parser.prefixTaskRuns(x, ns) (y) in parser.resolveInclude
  assume runOf(x, y, ns)
def N(k) = namespace + ":" + k
def R(k) = in(k, res.Tasks)
def had(k) = at(res.Tasks, k)
def got(k) = at(tasks, N(k))
def named(k) = got(k) != nil && got(k).Name == N(k) && got(k).Line == had(k).Line && got(k).DepsLine == had(k).DepsLine && got(k).SourcePath == had(k).SourcePath && got(k).Desc == had(k).Desc && got(k).When == had(k).When
def settings(k) = got(k).Silent == ite(had(k).Silent != nil, had(k).Silent, res.GlobalSilent) && got(k).Output == ite(had(k).Output != nil, had(k).Output, res.GlobalOutput) &&
  got(k).Dir == ite(had(k).Dir != "", had(k).Dir, ite(res.GlobalDir != "", res.GlobalDir, "."))
def sameAliases(k) = got(k).Alias == ite(had(k).Alias == "", "", pre1(namespace, had(k).Alias)) && aliasesOf(had(k).Aliases, got(k).Aliases, namespace)
def src(n) = after(":", after(namespace, n))
def merged(m, g, t) = all(n, string, (in(n, m) == (in(n, g) || in(n, t))) && imp(in(n, m), m[n] == ite(in(n, t), t[n], g[n])))
def sameVars(k) = merged(got(k).Vars, res.GlobalVars, had(k).Vars)
def sameEnv(k) = merged(got(k).Env, res.GlobalEnv, had(k).Env)
def was(n) = old(in(n, tasks))
func parser.resolveInclude(namespace, babfilePath, baseDir, tasks, visited) (err)
  requires visited != nil && tasks != nil
  ensures [error] imp(perr != nil, err != nil)
  ensures [clash] imp(perr == nil, iff(err != nil, ex(k, string, R(k) && was(N(k)))))
  ensures [all] imp(err == nil, all(k, string, by(imp(R(k), in(N(k), tasks)), had(k))))
  ensures [named] imp(err == nil, all(k, string, by(imp(R(k), named(k)), had(k))))
  ensures [settings] imp(err == nil, all(k, string, by(imp(R(k), settings(k)), had(k))))
  ensures [aliases] imp(err == nil, all(k, string, by(imp(R(k), sameAliases(k)), had(k))))
  ensures [deps] imp(err == nil, all(k, string, by(imp(R(k), depsOf(had(k).Deps, got(k).Deps, namespace)), had(k))))
  ensures [run] imp(err == nil, all(k, string, by(imp(R(k), runOf(had(k).Run, got(k).Run, namespace)), had(k))))
  ensures [vars] imp(err == nil, all(k, string, by(imp(R(k), sameVars(k)), had(k))))
  ensures [env] imp(err == nil, all(k, string, by(imp(R(k), sameEnv(k)), had(k))))
  ensures [others] all(n, string, by(imp(was(n), in(n, tasks) && tasks[n] == old(tasks[n])), tasks[n]))
  ensures [only] all(n, string, imp(in(n, tasks) && !was(n), R(src(n)) && n == N(src(n))))
  modifies elems(visited), elems(tasks)
  loop perr == nil && res != nil
  loop all(k, string, by(imp(seen(k), R(k) && !was(N(k))), seen(k)))
  loop all(k, string, by(imp(seen(k), in(N(k), tasks) && got(k) != nil && live(got(k))), seen(k)))
  loop all(k, string, by(imp(seen(k), named(k)), seen(k)))
  loop all(k, string, by(imp(seen(k), settings(k)), seen(k)))
  loop all(k, string, by(imp(seen(k), sameAliases(k)), seen(k)))
  loop all(k, string, by(imp(seen(k), depsOf(had(k).Deps, got(k).Deps, namespace)), seen(k)))
  loop all(k, string, by(imp(seen(k), runOf(had(k).Run, got(k).Run, namespace)), seen(k)))
  loop all(k, string, by(imp(seen(k), sameVars(k)), seen(k)))
  loop all(k, string, by(imp(seen(k), sameEnv(k)), seen(k)))
  loop all(n, string, imp(was(n), in(n, tasks) && at(tasks, n) == old(at(tasks, n))))
  loop all(n, string, imp(in(n, tasks) && !was(n), seen(src(n)) && n == N(src(n))))
