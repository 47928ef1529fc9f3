// C05: dependencies first, each task at most once, failures stop.
import run

// completed: tasks whose execution ended without an error; it only grows
ghost completed per string to bool
// closed: channels that have been closed
ghost closed per bool
on call chan.close(c)
  set closed[ref(c)] = true
def grows(s) = all(k, string, imp(old(completed[k]), completed[k])) && all(k, string, imp(old(s.state[k]) != 0, s.state[k] != 0))
// what holds whenever nobody is inside syncState (its mutex is free)
def shared(s) = all(c, int, imp(closed[c], live(c))) && s != nil && s.state != nil && s.results != nil &&
  all(k, string, imp(s.state[k] == runner.done, completed[k])) &&
  all(k, string, s.state[k] == 0 || s.state[k] == runner.running || s.state[k] == runner.done) &&
  all(k, string, imp(s.state[k] != 0, in(k, s.results) && s.results[k] != nil)) &&
  all(k, string, imp(in(k, s.results), s.state[k] != 0 && s.results[k] != nil && live(s.results[k]))) &&
  all(k, string, all(j, string, imp(in(k, s.results) && in(j, s.results) && k != j, s.results[k] != s.results[j] && s.results[k].finished != s.results[j].finished))) &&
  all(k, string, imp(in(k, s.results), live(s.results[k].finished) && imp(closed[ref(s.results[k].finished)] && s.results[k].err == nil, completed[k])))
// what anybody's step keeps, whatever runs in between
def stable(s) = all(k, string, imp(old(in(k, s.results)), in(k, s.results) && s.results[k] == old(s.results[k]) && s.results[k].finished == old(s.results[k].finished)))
def rely(s) = shared(s) && grows(s) && stable(s)
def onPath(c, n) = ctxval(c, runner.ancestorKey(n)) != nil

func runner.syncState.claim(s, n) (st)
  requires shared(s)
  ensures [book] shared(s)
  ensures [grows] grows(s)
  ensures [stable] stable(s)
  ensures [once] imp(st == 0, old(s.state[n]) == 0)
  ensures [claimed] s.state[n] != 0
  ensures [done] imp(st == runner.done, completed[n])
  ensures [three] st == 0 || st == runner.running || st == runner.done
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult)
func runner.syncState.finish(s, n, e)
  requires shared(s) && s.state[n] != 0 && imp(e == nil, completed[n])
  ensures [book] shared(s)
  ensures [grows] grows(s)
  ensures [stable] stable(s)
  modifies allmaps(map[string]runner.status), allof(runner.taskResult), closed
func runner.syncState.get(s, n) (st)
  requires shared(s)
  ensures [done] imp(st == runner.done, completed[n])
func runner.syncState.snapshot(s) (m)
  requires shared(s)
// others run while this waits: they keep rely; a receive from a channel nobody
// sends on returns when it has been closed
on call chan.recv(c, v) in runner.syncState.wait
  havoc completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  assume rely(s) && closed[ref(c)]
func runner.syncState.wait(s, ctx, n) (err)
  requires shared(s) && s.state[n] != 0
  ensures [result] imp(err == nil, completed[n])
  ensures [book] rely(s)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone

// what every step of a run keeps
func runner.Runner.runTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && shared(state) && wfTasks(tasks)
  ensures [completed] imp(err == nil, completed[name])
  ensures [circular] imp(mine == runner.running && onPath(ctx, name), is(err, *errs.CircularDepError))
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
ghost local mine runner.status = runner.done
ghost local started bool = false
on return runner.syncState.claim(s, n) (st)
  set mine = st
on call runner.Runner.runClaimedTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p) in runner.Runner.runTask
  check [claimed by me] mine == 0 && n == name && s == state && ts == tasks
  check [path] all(k, string, iff(onPath(c, k), onPath(ctx, k) || k == name))
on return runner.Runner.runClaimedTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p) (e) in runner.Runner.runTask
  set completed[n] = completed[n] || e == nil
  set mine = runner.done
on call runner.syncState.wait(s, c, n)
  check [not my own] !onPath(ctx, name) && n == name && s == state
// the run items of a task: only when every dependency has completed
on call runner.Runner.runTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p) in runner.Runner.runClaimedTask
  check [dependency] s == state && ts == tasks && c == ctx
on call runner.Runner.executeTask(rr, c, t, ts, s, a, b, o, e2, nc, p) in runner.Runner.runClaimedTask
  check [dependencies first] all(i, 0, len(t.Deps), completed[t.Deps[i]])
  check [once] !started
  set started = true
  check [task] t == tasks[name] && s == state && ts == tasks && c == ctx
on call runner.Runner.runClaimedTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p)
  check [only by the one that claimed it] mine == 0
on call runner.Runner.executeTask(rr, c, t, ts, s, a, b, o, e2, nc, p)
  check [dependencies first] all(i, 0, len(t.Deps), completed[t.Deps[i]])
func runner.Runner.runClaimedTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && shared(state) && wfTasks(tasks)
  ensures [keeps] rely(state)
  ensures [exists] imp(err == nil, in(name, tasks))
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
  loop all(i, 0, $i, completed[tasks[name].Deps[i]])
  loop !started
  loop shared(state)
  loop grows(state)
  loop stable(state)
func runner.buildChainSlice(c, t, s) (l)
func runner.Runner.shouldSkipTask(r, n, t) (b, err)
  requires r != nil && t != nil
func interpolate.ResolveVarsWithLocation(a, b, c, d) (m, err)
  trusted
  ensures imp(err == nil, m != nil && fresh(m))
func runner.Runner.interpolateEnv(r, e, c) (m, err)
  trusted
func babfile.MergeEnvMaps(m) (r)
  trusted
func runner.interpolatePrompt(p, c) (q, err)
  trusted
func tui.RunPrompt(c, p, m) (q, err)
  trusted
func runner.Runner.executeTask(r, ctx, task, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
  joins
  loop shared(state)
  loop grows(state)
  loop stable(state)
on call runner.Runner.executeRunItem(rr, c, it, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeTask
  check [same run] s == state && ts == tasks && c == ctx
on call runner.Runner.executeParallel(rr, c, v, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeTask
  check [same run] s == state && ts == tasks && c == ctx
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
on call runner.Runner.runTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p) in runner.Runner.executeRunItem
  check [same run] s == state && ts == tasks && c == ctx && is(item, babfile.TaskRun) && n == as(item, babfile.TaskRun).Task
// (proved to keep its frame under C09)
func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, oS, oO, stdout, stderr, noColor) (err)
  trusted
func runner.executeLog(l)
func runner.Runner.executeParallel(r, ctx, pr, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, pnc, pctx) (err)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
  joins
func babfile.ParallelRun.ItemLabel(p, i) (l)
  trusted
func babfile.ParallelRun.UseColor(p) (b)
  trusted
func runner.Runner.preResolveDeps(r, ctx, items, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && shared(state) && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
  joins
  loop shared(state)
  loop grows(state)
  loop stable(state)
on call runner.Runner.runTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p) in runner.Runner.preResolveDeps
  check [same run] s == state && ts == tasks && c == ctx
func runner.Runner.executeParallelTUI$1(idx, runItem)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), firstErr, oncedone, elems(itemErrs)
on call sync.Once.Do(o, f) in runner.Runner.executeParallelTUI$1
  havoc firstErr, oncedone
// the items have ended; each of them kept the protocol
on return sync.WaitGroup.Wait(w) in runner.Runner.executeParallelTUI
  assume rely(state)
on call runner.Runner.executeRunItem(rr, c, it, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeParallelTUI$1
  check [same run] s == state && ts == tasks && c == ctx
func runner.Runner.executeParallelTUI(r, ctx, pr, task, tasks, state, labels, taskVars, taskEnv, oS, oO, noColor, pctx) (err)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
func runner.Runner.executeParallelInterleaved$1(idx, runItem)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), firstErr, oncedone
on call sync.Once.Do(o, f) in runner.Runner.executeParallelInterleaved$1
  havoc firstErr, oncedone
// the items have ended; each of them kept the protocol
on return sync.WaitGroup.Wait(w) in runner.Runner.executeParallelInterleaved
  assume rely(state)
on call runner.Runner.executeRunItem(rr, c, it, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeParallelInterleaved$1
  check [same run] s == state && ts == tasks && c == ctx
func runner.Runner.executeParallelInterleaved(r, ctx, pr, task, tasks, state, labels, maxl, taskVars, taskEnv, oS, oO, noColor, po, pe) (err)
  requires r != nil && shared(state) && task != nil && wfTasks(tasks)
  ensures [keeps] rely(state)
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
// a run starts with nothing claimed
func runner.Runner.RunWithTasks(r, ctx, name, tasks) (err)
  requires r != nil && wfTasks(tasks) && all(c, int, !closed[c])
  ensures [completed] imp(err == nil, completed[name])
  modifies completed, closed, allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone
// the display itself (C23)
func tui.RunParallel(m) (p, err)
  trusted
func tui.NewTabsModel(a, b) (m)
  trusted
func tui.NewGroupedModel(a, b) (m)
  trusted
func output.ParallelDone(a, b)
  trusted
func output.RenderParallelDone(a, b) (s)
  trusted
func runner.pathToKey(p) (s)
  trusted
func runner.NewKeyLineWriter(a, b, c) (w)
  trusted
  ensures w != nil && fresh(w)
func runner.KeyLineWriter.Flush(w)
  trusted
func runner.isSilent(v) (b)
  trusted

func runner.NewPrefixWriter(a, b, c, d, e, f) (w)
  trusted
func runner.PrefixWriter.Flush(w) (e)
  trusted
func runner.colorForPath(p) (c)
  trusted
ghost oncedone per bool
