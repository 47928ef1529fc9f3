// C12: dry run executes nothing.
// Every place where something would be started, shown or written by a run item.
on call exec.Cmd.Run(c)
  check [no command] !r.DryRun
on any exec.Cmd.Start(c)
  check [no command] !r.DryRun
on any exec.Cmd.Output(c)
  check [no command] !r.DryRun
on any exec.Cmd.CombinedOutput(c)
  check [no command] !r.DryRun
on any os.StartProcess(n, a, t)
  check [no command] !r.DryRun
on call runner.runCommand(a, b, c, d, e, f, g)
  check [no command] !r.DryRun
on call runner.runCommandWithWriters(a, b, c, d, e, f, g, h, i, j)
  check [no command] !r.DryRun
on call tui.RunPrompt(c, p, m)
  check [no prompt] !r.DryRun
on call runner.executeLog(l)
  check [no log item] !r.DryRun
on call fmt.Fprintln(w, a)
  check [no output] !r.DryRun
on call fmt.Fprintf(w, f, a)
  check [no output] !r.DryRun
on any fmt.Fprint(w, a)
  check [no output] !r.DryRun
on call output.Cmd(s)
  check [no echo] !r.DryRun
on call runner.Runner.executeParallelTUI(rr, c, p2, t, ts, s, l, tv, te, a, b, nc, p)
  check [no block] !r.DryRun && rr == r
on call runner.Runner.executeParallelInterleaved(rr, c, p2, t, ts, s, l, ml, tv, te, a, b, nc, o, p)
  check [no block] !r.DryRun && rr == r
on any os.WriteFile(a, b, c)
  check [no file] !r.DryRun
on any os.Remove(a)
  check [no file] !r.DryRun
on any os.RemoveAll(a)
  check [no file] !r.DryRun
on any os.Rename(a, b)
  check [no file] !r.DryRun
on any os.MkdirAll(a, b)
  check [no file] !r.DryRun
on any os.Setenv(a, b)
  check [no change] !r.DryRun
// a task reference is a run item: in a dry run it is only logged
on call runner.Runner.runTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p) in runner.Runner.executeRunItem
  check [no reference] !r.DryRun
// one run is one Runner: the switch cannot get lost on the way down
on call runner.Runner.runTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p)
  check [same run] rr == r
on call runner.Runner.runClaimedTask(rr, c, n, ts, s, im, a, b, o, e2, nc, p)
  check [same run] rr == r
on call runner.Runner.executeTask(rr, c, t, ts, s, a, b, o, e2, nc, p)
  check [same run] rr == r
on call runner.Runner.executeParallel(rr, c, v, t, ts, s, tv, te, a, b, o, e2, nc, p)
  check [same run] rr == r
on call runner.Runner.preResolveDeps(rr, c, i, t, s, a, b, o, e2, nc, p)
  check [same run] rr == r
on call runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p)
  check [same run] rr == r
on call runner.Runner.executeCommand(rr, c, v, t, sh, sa, tv, te, a, b, o, e2, nc)
  check [same run] rr == r
on call runner.Runner.RunWithTasks(rr, c, n, t) in runner.Runner.Run
  check [same run] rr == r && rr.DryRun == old(r.DryRun)
on call runner.Runner.Run(rr, c, n) in cmd.CLI.runTask
  check [as asked] rr.DryRun == cc.dryRun

func cmd.CLI.runTask(cc, n) (err)
  requires cc != nil
  modifies everything
func runner.Runner.Run(r, ctx, name) (err)
  requires r != nil
  modifies everything
func runner.Runner.resolveTaskName(r, n) (m)
  trusted
func runner.LoadTasks(p) (r, err)
  trusted
  ensures imp(err == nil, r != nil && wf(r.Tasks))
def wf(ts) = all(k, string, imp(in(k, ts), ts[k] != nil))
func runner.Runner.RunWithTasks(r, ctx, name, tasks) (err)
  requires r != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.runTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.runClaimedTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeTask(r, ctx, task, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  joins
func runner.Runner.executeParallel(r, ctx, pr, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, pnc, pctx) (err)
  requires r != nil && state != nil && task != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  joins
func runner.Runner.preResolveDeps(r, ctx, items, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  joins
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil && wf(tasks)
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, oS, oO, stdout, stderr, noColor) (err)
  requires r != nil && task != nil
  joins
func runner.Runner.shouldSkipTask(r, n, t) (b, err)
  requires r != nil && t != nil
func runner.Runner.shouldSkipRunItem(r, i, tv, n, x) (b, err)
  requires r != nil
func runner.Runner.interpolateEnv(r, e, c) (m, err)
  requires r != nil
func runner.Runner.resolveDir(r, t, d, c) (p, err)
  requires r != nil && t != nil
func runner.interpolatePrompt(p, c) (q, err)
func runner.buildChainSlice(c, t, s) (l)

// helpers that evaluate text and settings
func interpolate.ResolveVarsWithLocation(a, b, c, d) (m, err)
  trusted
  ensures imp(err == nil, m != nil && fresh(m))
func interpolate.Interpolate(s, c) (t, err)
  trusted
func condition.Evaluate(c, x) (t, err)
  trusted
func babfile.MergeEnvMaps(m) (r)
  trusted
func babfile.MergeEnv(m) (r)
  trusted
func babfile.matchesPlatform(p, o) (r)
  trusted
func babfile.ParallelRun.ItemLabel(p, i) (l)
  trusted
func babfile.ParallelRun.UseColor(p) (b)
  trusted
func runner.isSilent(v) (b)
  trusted
func runner.isOutput(v) (b)
  trusted
func output.RenderCmd(s) (t)
  trusted
func output.Cmd(s)
  trusted
func runner.executeLog(l)
  trusted
func runner.sysProcAttr() (a)
  trusted
func tui.RunPrompt(c, p, m) (q, err)
  trusted
// bab's book-keeping (under contract in C05)
func runner.syncState.claim(s, n) (st)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.syncState.finish(s, n, e)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.syncState.snapshot(s) (m)
  trusted
func runner.syncState.get(s, n) (m)
  trusted
func runner.syncState.wait(s, c, n) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeParallelTUI(r, ctx, pr, task, tasks, state, labels, taskVars, taskEnv, oS, oO, noColor, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeParallelInterleaved(r, ctx, pr, task, tasks, state, labels, maxl, taskVars, taskEnv, oS, oO, noColor, po, pe) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
extern exec.CommandContext(ctx, name, arg) (c)
  ensures fresh(c) && c != nil
