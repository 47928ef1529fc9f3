// contracts of the helpers that rewrite an included task
import C09m
// memory refers only to what exists
axiom rows(s, []babfile.RunItem, all(i, int, trig(imp(live(s), live(as(s[i], babfile.ParallelRun).Items)), as(s[i], babfile.ParallelRun).Items)))
def pre1(ns, x) = ns + ":" + x
// a run item that is no parallel block: rewritten only where it names a task
def plain(a, b, ns) = imp(is(a, babfile.CommandRun) || is(a, babfile.LogRun) || is(a, babfile.PromptRun), b == a) &&
  imp(is(a, babfile.TaskRun), is(b, babfile.TaskRun) && as(b, babfile.TaskRun).Task == pre1(ns, as(a, babfile.TaskRun).Task) &&
    as(b, babfile.TaskRun).Line == as(a, babfile.TaskRun).Line && as(b, babfile.TaskRun).Silent == as(a, babfile.TaskRun).Silent &&
    as(b, babfile.TaskRun).Output == as(a, babfile.TaskRun).Output && as(b, babfile.TaskRun).Platforms == as(a, babfile.TaskRun).Platforms &&
    as(b, babfile.TaskRun).When == as(a, babfile.TaskRun).When)
def block(a, b) = as(b, babfile.ParallelRun).Line == as(a, babfile.ParallelRun).Line && as(b, babfile.ParallelRun).Labels == as(a, babfile.ParallelRun).Labels &&
  as(b, babfile.ParallelRun).Mode == as(a, babfile.ParallelRun).Mode && as(b, babfile.ParallelRun).Limit == as(a, babfile.ParallelRun).Limit &&
  as(b, babfile.ParallelRun).Color == as(a, babfile.ParallelRun).Color && as(b, babfile.ParallelRun).Silent == as(a, babfile.ParallelRun).Silent &&
  as(b, babfile.ParallelRun).Output == as(a, babfile.ParallelRun).Output && as(b, babfile.ParallelRun).Platforms == as(a, babfile.ParallelRun).Platforms &&
  as(b, babfile.ParallelRun).When == as(a, babfile.ParallelRun).When && len(as(b, babfile.ParallelRun).Items) == len(as(a, babfile.ParallelRun).Items)
def item(a, b, ns) = plain(a, b, ns) && imp(is(a, babfile.ParallelRun), is(b, babfile.ParallelRun) && block(a, b) &&
  all(j, 0, len(as(a, babfile.ParallelRun).Items), plain(as(a, babfile.ParallelRun).Items[j], as(b, babfile.ParallelRun).Items[j], ns)))
func parser.prefixTaskRuns(items, namespace) (r)
  ensures [new] fresh(r) && len(r) == len(items)
  ensures [exist] all(i, 0, len(items), imp(is(items[i], babfile.ParallelRun), live(as(r[i], babfile.ParallelRun).Items)))
  ensures [items] all(i, 0, len(items), item(items[i], r[i], namespace))
  loop (p new []babfile.RunItem) len(p) == len(items) && fresh(p)
  loop (p new []babfile.RunItem) all(i, 0, $i, plain(items[i], p[i], namespace))
  loop (p new []babfile.RunItem) all(i, 0, $i, imp(is(items[i], babfile.ParallelRun), is(p[i], babfile.ParallelRun) && block(items[i], p[i])))
  loop (p new []babfile.RunItem) all(i, 0, $i, imp(is(items[i], babfile.ParallelRun), live(as(p[i], babfile.ParallelRun).Items) && ref(as(p[i], babfile.ParallelRun).Items) != ref(p)))
  loop (p new []babfile.RunItem) all(i, 0, $i, item(items[i], p[i], namespace))
  nopanic
func parser.prefixAlias(alias, namespace) (r)
  ensures [alias] r == ite(alias == "", "", pre1(namespace, alias))
  nopanic
func parser.prefixAliases(aliases, namespace) (r)
  ensures [new] imp(len(aliases) > 0, fresh(r)) && len(r) == len(aliases)
  ensures [each] all(i, 0, len(aliases), r[i] == pre1(namespace, aliases[i]))
  loop (p new []string) len(p) == len(aliases) && all(i, 0, $i, p[i] == pre1(namespace, aliases[i]))
  nopanic
func parser.prefixDeps(deps, namespace) (r)
  ensures [new] imp(len(deps) > 0, fresh(r)) && len(r) == len(deps)
  ensures [each] all(i, 0, len(deps), r[i] == pre1(namespace, deps[i]))
  loop (p new []string) len(p) == len(deps) && all(i, 0, $i, p[i] == pre1(namespace, deps[i]))
  nopanic
func babfile.MergeVarMaps(varMaps) (r)
  ensures [fresh] fresh(r)
  ensures [last] all(k, string, inMerge(k, varMaps, len(varMaps), r))
  ensures [none] all(k, string, outMerge(k, varMaps, len(varMaps), r))
  loop (i int, r babfile.VarMap) all(k, string, inMerge(k, varMaps, i, r))
  loop (i int, r babfile.VarMap) all(k, string, outMerge(k, varMaps, i, r))
  loop (r babfile.VarMap) all(k, string, imp(seen(k), in(k, r) && r[k] == itermap()[k]))
  loop (r babfile.VarMap) all(k, string, imp(!seen(k), iff(in(k, r), pre(in(k, r))) && r[k] == pre(r[k])))
  nopanic
