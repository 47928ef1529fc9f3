// C13: a parallel block runs every item and reports failure.
import run

ghost oncedone per bool
ghost chancap per int
// how the items of a block ended (true: it failed or was cancelled before it started)
ghost failed per bool
def named(e, l) = strings.Contains(errstr(e), l) || strings.Contains(errstr(e), strconv.Quote(l))

// one item, in its own goroutine
ghost local ran int = 0
ghost local slot bool = false
ghost local bad bool = false
ghost local mine bool = false
ghost local over int = 0
def told = iff(oncedone[ref(firstErrOnce)], firstErr != nil)
func runner.Runner.executeParallelInterleaved$1(idx, runItem)
  requires r != nil && task != nil && state != nil && wfTasks(tasks) && 0 <= idx && idx < len(labels)
  requires told
  ensures [every item] ran == 1 || ran == 0 && bad
  ensures [released] !slot
  ensures [reported] imp(bad, firstErr != nil)
  ensures [only failures] imp(!bad, firstErr == old(firstErr))
  ensures [named] imp(mine, bad && named(firstErr, labels[idx]))
  ensures [told] told
  ensures [ended] over == 1
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), firstErr, oncedone
on call chan.send(c, v) in runner.Runner.executeParallelInterleaved$1
  check [slot] ref(c) == ref(sem) && !slot && ran == 0
  set slot = true
on call chan.recv(c, v) in runner.Runner.executeParallelInterleaved$1
  set bad = bad || !slot
  set slot = false
on call runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeParallelInterleaved$1
  check [once] ran == 0 && !bad && rr == r && i == runItem && c == ctx && t == task && ts == tasks && s == state && tv == taskVars
  check [limit] imp(sem != nil, slot)
  set ran = 1
on return runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) (e) in runner.Runner.executeParallelInterleaved$1
  set bad = bad || e != nil
// others may have reported first
on call sync.Once.Do(o, f) in runner.Runner.executeParallelInterleaved$1
  havoc firstErr, oncedone
  assume told && imp(old(firstErr) != nil, firstErr != nil)
  set mine = firstErr == nil
on call sync.WaitGroup.Done(w) in runner.Runner.executeParallelInterleaved$1
  set over = over + 1
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  trusted
  requires r != nil && state != nil && task != nil && wfTasks(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.NewPrefixWriter(a, b, c, d, e, f) (w)
  trusted
func runner.PrefixWriter.Flush(w) (e)
  trusted
func runner.colorForPath(p) (c)
  trusted

func runner.Runner.executeParallelTUI$1(idx, runItem)
  requires r != nil && task != nil && state != nil && wfTasks(tasks) && 0 <= idx && idx < len(labels) && len(labels) == len(itemErrs)
  requires told
  ensures [every item] ran == 1 || ran == 0 && bad
  ensures [released] !slot
  ensures [reported] imp(bad, firstErr != nil)
  ensures [only failures] imp(!bad, firstErr == old(firstErr))
  ensures [named] imp(mine, bad && named(firstErr, labels[idx]))
  ensures [told] told
  ensures [ended] over == 1
  ensures [summary] iff(itemErrs[idx] != nil, bad)
  ensures [display] sent == 1
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), firstErr, oncedone, elems(itemErrs)
on call chan.send(c, v) in runner.Runner.executeParallelTUI$1
  check [slot] ref(c) == ref(sem) && !slot && ran == 0
  set slot = true
on call chan.recv(c, v) in runner.Runner.executeParallelTUI$1
  set bad = bad || !slot
  set slot = false
on call runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeParallelTUI$1
  check [once] ran == 0 && !bad && rr == r && i == runItem && c == ctx && t == task && ts == tasks && s == state && tv == taskVars
  check [limit] imp(sem != nil, slot)
  set ran = 1
on return runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) (e) in runner.Runner.executeParallelTUI$1
  set bad = bad || e != nil
// others may have reported first
on call sync.Once.Do(o, f) in runner.Runner.executeParallelTUI$1
  havoc firstErr, oncedone
  assume told && imp(old(firstErr) != nil, firstErr != nil)
  set mine = firstErr == nil
on call sync.WaitGroup.Done(w) in runner.Runner.executeParallelTUI$1
  set over = over + 1
// what the display is told about this item
ghost local sent int = 0
on call tea.Program.Send(p, m) in runner.Runner.executeParallelTUI$1
  check [end] imp(is(m, tui.ItemDoneMsg), sent == 0 && iff(as(m, tui.ItemDoneMsg).Err != nil, bad))
  set sent = sent + ite(is(m, tui.ItemDoneMsg), 1, 0)
// the block: every item in a goroutine of its own, in order; the end of the
// block is the end of all of them
ghost local spawned int = 0
ghost local added int = 0
ghost local waited bool = false
on call sync.WaitGroup.Add(w, n) in runner.Runner.executeParallelInterleaved
  set added = added + n
on call go(idx, item) in runner.Runner.executeParallelInterleaved
  check [counted] added > spawned && !waited
  check [each item once] spawned < len(pr.Items) && idx == spawned && item == pr.Items[spawned]
  check [limit] iff(pr.Limit > 0, sem != nil) && imp(sem != nil, chancap[ref(sem)] == pr.Limit)
  set spawned = spawned + 1
on call sync.WaitGroup.Wait(w) in runner.Runner.executeParallelInterleaved
  check [all started] spawned == len(pr.Items) && added == spawned
// what the items promise holds once all of them have ended
on return sync.WaitGroup.Wait(w) in runner.Runner.executeParallelInterleaved
  set waited = true
  assume imp(firstErr == nil, all(i, 0, len(pr.Items), !failed[i]))
  assume imp(firstErr != nil, ex(i, 0, len(pr.Items), failed[i] && named(firstErr, labels[i])))
func runner.Runner.executeParallelInterleaved(r, ctx, pr, task, tasks, state, labels, maxl, taskVars, taskEnv, oS, oO, noColor, po, pe) (err)
  requires r != nil && task != nil && state != nil && wfTasks(tasks) && len(labels) == len(pr.Items) && len(pr.Items) > 0
  ensures [ended] waited
  ensures [outcome] imp(err == nil, all(i, 0, len(pr.Items), !failed[i])) && imp(err != nil, ex(i, 0, len(pr.Items), failed[i] && named(err, labels[i])))
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone, failed
  loop spawned == $i
  loop added == spawned
  loop !waited

on call sync.WaitGroup.Add(w, n) in runner.Runner.executeParallelTUI
  set added = added + n
on call go(idx, item) in runner.Runner.executeParallelTUI
  check [counted] added > spawned && !waited
  check [each item once] spawned < len(pr.Items) && idx == spawned && item == pr.Items[spawned]
  check [limit] iff(pr.Limit > 0, sem != nil) && imp(sem != nil, chancap[ref(sem)] == pr.Limit)
  set spawned = spawned + 1
on call sync.WaitGroup.Wait(w) in runner.Runner.executeParallelTUI
  check [all started] spawned == len(pr.Items) && added == spawned
// what the items promise holds once all of them have ended
on return sync.WaitGroup.Wait(w) in runner.Runner.executeParallelTUI
  set waited = true
  assume imp(firstErr == nil, all(i, 0, len(pr.Items), !failed[i]))
  assume imp(firstErr != nil, ex(i, 0, len(pr.Items), failed[i] && named(firstErr, labels[i])))
func runner.Runner.executeParallelTUI(r, ctx, pr, task, tasks, state, labels, taskVars, taskEnv, oS, oO, noColor, pctx) (err)
  requires r != nil && task != nil && state != nil && wfTasks(tasks) && len(labels) == len(pr.Items) && len(pr.Items) > 0
  ensures [ended] waited || err != nil && spawned == 0
  ensures [outcome] imp(err == nil, all(i, 0, len(pr.Items), !failed[i])) && imp(err != nil, spawned == 0 || ex(i, 0, len(pr.Items), failed[i] && named(err, labels[i])))
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone, failed
  loop spawned == $i
  loop added == spawned
  loop !waited
// the display itself (C23)
func tui.RunParallel(m) (p, err)
  trusted
func tui.NewTabsModel(a, b) (m)
  trusted
func tui.NewGroupedModel(a, b) (m)
  trusted
func output.ParallelDone(a, b)
  trusted
func output.RenderParallelDone(a, b) (s)
  trusted
func runner.pathToKey(p) (s)
  trusted
func runner.NewKeyLineWriter(a, b, c) (w)
  trusted
  ensures w != nil && fresh(w)
func runner.KeyLineWriter.Flush(w)
  trusted
func runner.isSilent(v) (b)
  trusted

// the items handed on are exactly the ones that are due, in order, each with its label
def wantLabel(p, i) = ite(i < len(p.Labels) && p.Labels[i] != "", p.Labels[i],
  ite(is(p.Items[i], babfile.TaskRun), as(p.Items[i], babfile.TaskRun).Task,
  ite(is(p.Items[i], babfile.CommandRun), short(as(p.Items[i], babfile.CommandRun).Cmd),
  ite(is(p.Items[i], babfile.LogRun), short(as(p.Items[i], babfile.LogRun).Log), ""))))
fun short(string) string
func babfile.truncateRunes(s, n) (t)
  trusted
  ensures t == short(s)
func babfile.ParallelRun.ItemLabel(p, i) (l)
  requires 0 <= i && i < len(p.Items)
  ensures [label] l == wantLabel(p, i)
  nopanic
func babfile.ParallelRun.UseColor(p) (b)
  trusted
ghost local cnt per int
ghost local isDue per bool
ghost local chosen bool = false
on back in runner.Runner.executeParallel
  check [decided] chosen || decided(pr.Items[$i], content(taskVars))
  set isDue[$i] = ite(chosen, isDue[$i], due(pr.Items[$i], content(taskVars)))
  set cnt[$i+1] = ite(chosen, cnt[$i+1], cnt[$i] + ite(isDue[$i], 1, 0))
on call runner.Runner.preResolveDeps(rr, cx, items, ts, st, a, b, o, e2, nc, p)
  set chosen = true
def handed(p2, l) = len(p2.Items) == cnt[len(pr.Items)] && len(l) == len(p2.Items) && p2.Limit == pr.Limit && len(p2.Items) > 0 &&
  all(i, 0, len(pr.Items), imp(isDue[i], p2.Items[cnt[i]] == pr.Items[i] && l[cnt[i]] == wantLabel(pr, i)))
on call runner.Runner.executeParallelInterleaved(rr, cx, p2, tk, ts, s, l, ml, tv, te, a, b, nc, o, pe)
  check [due items] rr == r && cx == ctx && handed(p2, l) && !handedOn
  set handedOn = true
on call runner.Runner.executeParallelTUI(rr, cx, p2, tk, ts, s, l, tv, te, a, b, nc, p)
  check [due items] rr == r && cx == ctx && handed(p2, l) && !handedOn
  set handedOn = true
ghost local handedOn bool = false
ghost local block error = nil
on return runner.Runner.executeParallelInterleaved(rr, cx, p2, tk, ts, s, l, ml, tv, te, a, b, nc, o, pe) (e)
  set block = e
on return runner.Runner.executeParallelTUI(rr, cx, p2, tk, ts, s, l, tv, te, a, b, nc, p) (e)
  set block = e
func runner.Runner.executeParallel(r, ctx, pr, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, pnc, pctx) (err)
  requires r != nil && state != nil && task != nil && cnt[0] == 0 && wfTasks(tasks)
  ensures [result] imp(handedOn, err == block)
  ensures [run] imp(err == nil && !r.DryRun && !handedOn, cnt[len(pr.Items)] == 0)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult), oncedone, failed
  joins
  loop all(i, 0, $i + 1, 0 <= cnt[i] && cnt[i] <= cnt[$i])
  loop all(i, 0, $i, imp(isDue[i], cnt[i] < cnt[$i]))
  loop (xs phi []babfile.RunItem) len(xs) == cnt[$i]
  loop (xs phi []babfile.RunItem) all(i, 0, $i, imp(isDue[i], xs[cnt[i]] == pr.Items[i]))
  loop (ls phi []string) len(ls) == cnt[$i]
  loop (ls phi []string) all(i, 0, $i, imp(isDue[i], ls[cnt[i]] == wantLabel(pr, i)))
func runner.Runner.preResolveDeps(r, ctx, items, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
