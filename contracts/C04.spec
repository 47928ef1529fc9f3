// C04: run items run in order, gated by platform and condition.
import run
verify babfile.matchesPlatform

// vars: the variables at this moment; ran: the last item executed; rounds: items dealt with
ghost local vars content(map[string]string)
ghost local cur map[string]string
ghost local ran int = 0 - 1
ghost local bad bool = false
ghost local rounds int = 0

def here() = task.Run[$i]

func interpolate.ResolveVarsWithLocation(a, b, c, d) (m, err)
  trusted
  ensures imp(err == nil, m != nil && fresh(m))
on return interpolate.ResolveVarsWithLocation(a, b, c, d) (m, e) in runner.Runner.executeTask
  set vars = content(m)
  set cur = m
func runner.Runner.interpolateEnv(r, e, c) (m, err)
  trusted
func babfile.MergeEnvMaps(m) (r)
  trusted
func runner.interpolatePrompt(p, c) (q, err)
  trusted
  ensures imp(err == nil, q.Prompt == p.Prompt)

// one item: executed in its round, when it is due, with the variables of the moment
on call runner.Runner.executeRunItem(rr, cx, it, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeTask
  check [stopped] !bad
  check [once] ran < $i
  check [item] it == here() && tk == task
  check [due] due(here(), vars)
  check [vars] content(tv) == vars
  set ran = $i
on return runner.Runner.executeRunItem(rr, cx, it, tk, ts, s, tv, te, a, b, o, e2, nc, p) (e) in runner.Runner.executeTask
  set bad = bad || e != nil
on call tui.RunPrompt(c, p, m) in runner.Runner.executeTask
  check [stopped] !bad
  check [once] ran < $i
  check [item] is(here(), babfile.PromptRun) && p.Prompt == as(here(), babfile.PromptRun).Prompt
  check [due] due(here(), vars)
  set ran = $i
on return tui.RunPrompt(c, p, m) (q, e) in runner.Runner.executeTask
  set bad = bad || e != nil
  set vars = ite(e == nil, upd(vars, as(here(), babfile.PromptRun).Prompt, q), vars)
func tui.RunPrompt(c, p, m) (q, err)
  trusted
on call runner.Runner.executeParallel(rr, c, v, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeTask
  check [stopped] !bad
  check [once] ran < $i
  check [item] is(here(), babfile.ParallelRun) && v == as(here(), babfile.ParallelRun) && tk == task
  check [due] due(here(), vars)
  check [vars] all(k, string, iff(in(k, tv), in(k, vars)) && imp(in(k, tv), tv[k] == vars[k]))
  set ran = $i
on return runner.Runner.executeParallel(rr, c, v, tk, ts, s, tv, te, a, b, o, e2, nc, p) (e) in runner.Runner.executeTask
  set bad = bad || e != nil
on back in runner.Runner.executeTask
  check [stopped] !bad
  check [none left out] imp(!r.DryRun, ran == $i || !due(here(), vars))
  check [decided] ran == $i || decided(here(), vars)
  set rounds = rounds + 1

func runner.Runner.executeTask(r, ctx, task, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil && wfTasks(tasks)
  ensures [every item] imp(err == nil, rounds >= len(task.Run))
  ensures [failure kept] imp(bad, err != nil)
  loop !bad
  loop ran < $i
  loop rounds == $i
  loop content(cur) == vars
  loop (m new map[string]string) all(k, string, imp(seen(k), in(k, m) && m[k] == itermap()[k]))
  loop (m new map[string]string) all(k, string, imp(!seen(k), !in(k, m)))
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  joins

// Inside a parallel block: cnt[i] of the first i items are due; the items handed
// on are exactly the due ones, in the order written.
ghost local cnt per int
ghost local isDue per bool
ghost local chosen bool = false
on back in runner.Runner.executeParallel
  check [decided] chosen || decided(pr.Items[$i], content(taskVars))
  set isDue[$i] = ite(chosen, isDue[$i], due(pr.Items[$i], content(taskVars)))
  set cnt[$i+1] = ite(chosen, cnt[$i+1], cnt[$i] + ite(isDue[$i], 1, 0))
on call runner.Runner.preResolveDeps(rr, cx, items, ts, st, a, b, o, e2, nc, p)
  set chosen = true
on call runner.Runner.executeParallelInterleaved(rr, cx, p2, tk, ts, s, l, ml, tv, te, a, b, nc, o, pe)
  check [only due items] len(p2.Items) == cnt[len(pr.Items)]
  check [all due items] all(i, 0, len(pr.Items), imp(isDue[i], p2.Items[cnt[i]] == pr.Items[i]))
  check [vars] tv == taskVars && tk == task
on call runner.Runner.executeParallelTUI(rr, cx, p2, tk, ts, s, l, tv, te, a, b, nc, p)
  check [only due items] len(p2.Items) == cnt[len(pr.Items)]
  check [all due items] all(i, 0, len(pr.Items), imp(isDue[i], p2.Items[cnt[i]] == pr.Items[i]))
  check [vars] tv == taskVars && tk == task
func runner.Runner.executeParallel(r, ctx, pr, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, pnc, pctx) (err)
  requires r != nil && state != nil && task != nil && cnt[0] == 0 && wfTasks(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  joins
  loop all(i, 0, $i + 1, 0 <= cnt[i] && cnt[i] <= cnt[$i])
  loop all(i, 0, $i, imp(isDue[i], cnt[i] < cnt[$i]))
  loop (xs phi []babfile.RunItem) len(xs) == cnt[$i]
  loop (xs phi []babfile.RunItem) all(i, 0, $i, imp(isDue[i], xs[cnt[i]] == pr.Items[i]))
func babfile.ParallelRun.ItemLabel(p, i) (l)
func babfile.ParallelRun.UseColor(p) (b)
// running changes bab's book-keeping of claimed tasks and nothing else
func runner.Runner.preResolveDeps(r, ctx, items, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && wfTasks(tasks)
  joins
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeParallelTUI(r, ctx, pr, task, tasks, state, labels, taskVars, taskEnv, oS, oO, noColor, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeParallelInterleaved(r, ctx, pr, task, tasks, state, labels, maxl, taskVars, taskEnv, oS, oO, noColor, po, pe) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil && wfTasks(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
// (its frame is proved under C09)
func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, oS, oO, stdout, stderr, noColor) (err)
  trusted
func runner.Runner.resolveDir(r, t, d, c) (p, err)
  trusted
func runner.executeLog(l)
func runner.Runner.runTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && wfTasks(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.runClaimedTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && wfTasks(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.shouldSkipTask(r, n, t) (b, err)
  requires r != nil && t != nil
func runner.syncState.claim(s, n) (st)
  requires s != nil
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.syncState.finish(s, n, e)
  requires s != nil
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.syncState.snapshot(s) (m)
  requires s != nil
func runner.syncState.get(s, n) (m)
  requires s != nil
func runner.buildChainSlice(c, t, s) (l)
func runner.syncState.wait(s, ctx, n) (err)
  requires s != nil
