// C25: the exit status tells success from failure.
// bad: a step of this activation returned an error; cause: the first such error.
ghost local bad bool = false
ghost local cause error
ghost local steps int = 0

// main: what the command line returned decides the status
func cmd.ExecuteContext(ctx) (err)
  trusted
  modifies everything
func cmd.SetVersionInfo(v, c, d)
  trusted
func main.handleError(err)
  trusted
on return cmd.ExecuteContext(c) (e)
  set cause = e
  set steps = steps + 1
func main.run() (code)
  ensures [asked] steps == 1
  ensures [ok] imp(cause == nil || errIs(cause, context.Canceled), code == 0)
  ensures [fail] imp(cause != nil && !errIs(cause, context.Canceled), code == 1)
  modifies everything

// the command line
func update.StartBackgroundRefresh(ctx, v)
  trusted
func update.CheckCached(v) (r)
  trusted
on return cobra.Command.Execute(c) (e)
  set cause = e
  set steps = steps + 1
func cmd.CLI.buildCommand(c) (r)
  trusted
  ensures r != nil
func cmd.CLI.execute(c, ctx) (err)
  requires c != nil
  ensures [kept] steps == 1 && err == cause
  modifies everything

ghost local did string = ""
on return cmd.CLI.runCompletion(c, k) (e)
  set cause = e
  set steps = steps + 1
  set did = "completion"
on return cmd.CLI.runValidate(c) (e)
  set cause = e
  set steps = steps + 1
  set did = "validate"
on return cmd.CLI.runList(c) (e)
  set cause = e
  set steps = steps + 1
  set did = "list"
on return cmd.CLI.runTask(c, n) (e)
  set cause = e
  set steps = steps + 1
  set did = "task"
  set bad = bad || e != nil
on return cmd.CLI.runInteractive(c) (e)
  set cause = e
  set steps = steps + 1
  set did = "pick"
func cmd.CLI.runCompletion(c, k) (err)
  requires c != nil
  ensures [kept] imp(bad, err != nil)
  ensures [shells] imp(err == nil, steps == 1)
  modifies everything
func cmd.CLI.runValidate(c) (err)
  requires c != nil
  ensures [kept] iff(err != nil, bad)
  modifies everything
func cmd.CLI.runList(c) (err)
  requires c != nil
  ensures [kept] iff(err != nil, bad)
  modifies everything
func cmd.CLI.runInteractive(c) (err)
  requires c != nil
  ensures [kept] iff(err != nil, bad)
  ensures [ran] imp(!bad && picked != nil, steps == 1)
  modifies everything
func cmd.CLI.runTask(c, n) (err)
  requires c != nil
  ensures [kept] err == cause && steps == 1
  modifies everything
func cmd.CLI.run(c, k, args) (err)
  requires c != nil
  ensures [kept] steps == 1 && err == cause
  ensures [what] did == ite(old(c.completion) != "", "completion", ite(old(c.validate), "validate", ite(old(c.listTasks), "list", ite(len(args) > 0, "task", "pick"))))
  modifies everything

ghost local picked *babfile.Task
on return tui.PickTask(c, t) (s, e)
  set bad = bad || e != nil
  set picked = s
func tui.PickTask(ctx, tasks) (s, err)
  trusted
  modifies everything
on return runner.LoadTasks(p) (r, e)
  set bad = bad || e != nil
func runner.LoadTasks(p) (r, err)
  trusted
  ensures imp(err == nil, r != nil)

on return runner.Runner.Run(r, c, n) (e)
  set cause = e
  set steps = steps + 1
on return cobra.Command.GenBashCompletion(c, w) (e)
  set bad = bad || e != nil
  set steps = steps + 1
on return cobra.Command.GenZshCompletion(c, w) (e)
  set bad = bad || e != nil
  set steps = steps + 1
on return cobra.Command.GenFishCompletion(c, w, d) (e)
  set bad = bad || e != nil
  set steps = steps + 1
on return cobra.Command.GenPowerShellCompletionWithDesc(c, w) (e)
  set bad = bad || e != nil
  set steps = steps + 1

// running
func runner.Runner.Run(r, ctx, name) (err)
  requires r != nil
  ensures [kept] imp(bad, err != nil)
  ensures [ran] imp(err == nil, steps == 1)
  modifies everything
on return interpolate.ResolveVarsWithLocation(a, b, c, d) (m, e)
  set bad = bad || e != nil
func interpolate.ResolveVarsWithLocation(a, b, c, d) (m, err)
  trusted
on return runner.Runner.RunWithTasks(r, c, n, t) (e)
  set bad = bad || e != nil
  set steps = steps + 1
func runner.Runner.RunWithTasks(r, ctx, name, tasks) (err)
  requires r != nil
  ensures [kept] imp(bad, err != nil)
  ensures [ran] imp(err == nil, steps == 1)
  modifies everything
func cmd.CLI.runList$1(n, name) (t)
  trusted

// every step of a task's execution: an error of a step is an error of the task
on return runner.Runner.runTask(r, c, n, t, s, m, a, b, o, e2, nc, p) (e)
  set bad = bad || e != nil
  set steps = steps + 1
func runner.Runner.runTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
func runner.syncState.claim(s, n) (st)
  trusted
  modifies everything
func runner.syncState.finish(s, n, e)
  trusted
  modifies everything
func runner.syncState.snapshot(s) (m)
  trusted
func runner.syncState.get(s, n) (m)
  trusted
func runner.buildChainSlice(c, t, s) (l)
  trusted
on return runner.syncState.wait(s, c, n) (e)
  set bad = bad || e != nil
func runner.syncState.wait(s, ctx, n) (err)
  trusted
  modifies everything
on return runner.Runner.runClaimedTask(r, c, n, t, s, m, a, b, o, e2, nc, p) (e)
  set bad = bad || e != nil
func runner.Runner.runClaimedTask(r, ctx, name, tasks, state, isMain, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
  loop !bad
on return runner.Runner.shouldSkipTask(r, n, t) (b, e)
  set bad = bad || e != nil
func runner.Runner.shouldSkipTask(r, n, t) (b, err)
  trusted
on return runner.Runner.executeTask(r, c, t, ts, s, a, b, o, e2, nc, p) (e)
  set bad = bad || e != nil
func runner.Runner.executeTask(r, ctx, task, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
  joins
  loop !bad
func babfile.MergeEnvMaps(m) (r)
  trusted
on return runner.Runner.interpolateEnv(r, e1, c) (m, e)
  set bad = bad || e != nil
func runner.Runner.interpolateEnv(r, e, c) (m, err)
  trusted
on return runner.Runner.shouldSkipRunItem(r, i, tv, n, x) (b, e)
  set bad = bad || e != nil
func runner.Runner.shouldSkipRunItem(r, i, tv, n, x) (b, err)
  trusted
on return runner.interpolatePrompt(p, c) (q, e)
  set bad = bad || e != nil
func runner.interpolatePrompt(p, c) (q, err)
  trusted
on return tui.RunPrompt(c, p, m) (q, e)
  set bad = bad || e != nil
func tui.RunPrompt(c, p, m) (q, err)
  trusted
on return runner.Runner.executeParallel(r, c, v, t, ts, s, tv, te, a, b, o, e2, nc, p) (e)
  set bad = bad || e != nil
func runner.Runner.executeParallel(r, ctx, pr, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, pnc, pctx) (err)
  requires r != nil && state != nil && task != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
  joins
  loop !bad
on return runner.Runner.preResolveDeps(r, c, i, t, s, a, b, o, e2, nc, p) (e)
  set bad = bad || e != nil
func runner.Runner.preResolveDeps(r, ctx, items, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
  joins
  loop !bad
on return runner.Runner.executeParallelTUI(r, c, pr, t, ts, s, l, tv, te, a, b, nc, p) (e)
  set bad = bad || e != nil
func runner.Runner.executeParallelTUI(r, ctx, pr, task, tasks, state, labels, taskVars, taskEnv, oS, oO, noColor, pctx) (err)
  trusted
  modifies everything
on return runner.Runner.executeParallelInterleaved(r, c, pr, t, ts, s, l, ml, tv, te, a, b, nc, o, p) (e)
  set bad = bad || e != nil
func runner.Runner.executeParallelInterleaved(r, ctx, pr, task, tasks, state, labels, maxl, taskVars, taskEnv, oS, oO, noColor, po, pe) (err)
  trusted
  modifies everything
func babfile.ParallelRun.ItemLabel(p, i) (l)
  trusted
func babfile.ParallelRun.UseColor(p) (b)
  trusted
on return runner.Runner.executeRunItem(r, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) (e)
  set bad = bad || e != nil
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
func babfile.matchesPlatform(p, o) (r)
  trusted
on return runner.Runner.executeCommand(r, c, v, t, sh, sa, tv, te, a, b, o, e2, nc) (e)
  set bad = bad || e != nil
func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, oS, oO, stdout, stderr, noColor) (err)
  requires r != nil && task != nil
  ensures [kept] imp(bad, err != nil)
  modifies everything
  joins
on return exec.Cmd.Run(c) (e)
  set bad = bad || e != nil
  set steps = steps + 1
func babfile.MergeEnv(m) (l)
  trusted
func runner.isSilent(v) (b)
  trusted
func runner.isOutput(v) (b)
  trusted
func output.Cmd(s)
  trusted
func output.RenderCmd(s) (t)
  trusted
func runner.sysProcAttr() (a)
  trusted
on return runner.Runner.resolveDir(r, t, d, c) (p, e)
  set bad = bad || e != nil
func runner.Runner.resolveDir(r, t, d, c) (p, err)
  trusted
on return interpolate.Interpolate(s, c) (t, e)
  set bad = bad || e != nil
func interpolate.Interpolate(s, c) (t, err)
  trusted
func runner.executeLog(l)
  trusted
