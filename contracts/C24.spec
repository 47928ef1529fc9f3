// C24: completion and listing offer exactly the loadable tasks.
budget 40s
func runner.Runner.resolveTaskName(r, name) (n)
  requires r != nil
  ensures [alias] imp(in(name, r.Aliases), n == r.Aliases[name])
  ensures [name] imp(!in(name, r.Aliases), n == name)
  nopanic

// loading: a result or an error (checked by the harness of C18, C08)
func runner.LoadTasks(customPath) (res, err)
  trusted
  ensures imp(err == nil, res != nil)

ghost loaded bool = false
ghost lres *parser.ParseResult
on return runner.LoadTasks(p) (r, e)
  set loaded = e == nil
  set lres = r

// the text of an offer
fun offer(string, string, string, bool) string
axiom all(k, string, all(d, string, trig(offer(k, "", d, true) == ite(d != "", k + "\t" + d, k), offer(k, "", d, true))))
axiom all(k, string, all(n, string, all(d, string, trig(offer(k, n, d, false) == ite(d != "", k + "\t" + d + " (alias)", k + "\talias for " + n), offer(k, n, d, false)))))
def nameEntry(n, t) = offer(n, "", t.Desc, true)
def aliasEntry(a, n, t) = offer(a, n, ite(t != nil, t.Desc, ""), false)

func cmd.completeTaskNames(cmd, args, toComplete) (out, d)
  requires cmd != nil && !loaded
  ensures [nothing] imp(len(args) > 0 || !loaded, len(out) == 0)
  ensures [names] imp(loaded, all(k, string, imp(in(k, lres.Tasks) && lres.Tasks[k] != nil && hasprefix(k, toComplete), ex(i, 0, len(out), out[i] == nameEntry(k, lres.Tasks[k])))))
  ensures [aliases] imp(loaded, all(a, string, imp(in(a, lres.Aliases) && hasprefix(a, toComplete), ex(i, 0, len(out), out[i] == aliasEntry(a, lres.Aliases[a], lres.Tasks[lres.Aliases[a]])))))
  ensures [only] all(i, 0, len(out), ex(k, string, hasprefix(k, toComplete) && (in(k, lres.Tasks) && out[i] == nameEntry(k, lres.Tasks[k]) || in(k, lres.Aliases) && out[i] == aliasEntry(k, lres.Aliases[k], lres.Tasks[lres.Aliases[k]]))))
  ensures [sorted] all(i, 0, len(out), all(j, 0, len(out), imp(i < j, out[i] <= out[j])))
  loop (cs phi []string) ref(cs) == 0 || fresh(cs)
  loop (cs phi []string) all(k, string, imp(seen(k) && itermap()[k] != nil && hasprefix(k, toComplete), ex(i, 0, len(cs), cs[i] == nameEntry(k, itermap()[k]))))
  loop (cs phi []string) all(i, 0, len(cs), ex(k, string, hasprefix(k, toComplete) && in(k, lres.Tasks) && cs[i] == nameEntry(k, lres.Tasks[k])))
  loop (cs phi []string) pre(len(cs)) <= len(cs) && all(i, 0, pre(len(cs)), cs[i] == pre(cs[i]))
  loop (cs phi []string) all(a, string, imp(seen(a) && hasprefix(a, toComplete), ex(i, 0, len(cs), cs[i] == aliasEntry(a, itermap()[a], lres.Tasks[itermap()[a]]))))
  loop (cs phi []string) all(i, pre(len(cs)), len(cs), ex(a, string, hasprefix(a, toComplete) && in(a, lres.Aliases) && cs[i] == aliasEntry(a, lres.Aliases[a], lres.Tasks[lres.Aliases[a]])))
  modifies loaded, lres
