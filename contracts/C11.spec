// C11: silent and output: the most specific setting wins.
import env
verify runner.isSilent runner.isOutput runner.firstNonNil
def first(a, b, c, d, dflt) = ite(a != nil, *a, ite(b != nil, *b, ite(c != nil, *c, ite(d != nil, *d, dflt))))
def shows() = first(v.Output, overrideOutput, task.Output, r.GlobalOutput, true)
def quiet() = first(v.Silent, overrideSilent, task.Silent, r.GlobalSilent, false)

ghost echoed int = 0

on call output.Cmd(s) in runner.Runner.executeCommand
  check [text] s == interp(v.Cmd, content(taskVars))
  set echoed = echoed + 1

on call fmt.Fprintln(w, a) in runner.Runner.executeCommand
  check [where] w == stderr
  set echoed = echoed + 1

on call exec.Cmd.Run(c) in runner.Runner.executeCommand
  check [echo] echoed == ite(quiet(), 0, 1)
  check [hidden] imp(!shows(), c.Stdout == io.Discard && c.Stderr == io.Discard)
  check [shown] imp(shows() && stdout != nil, c.Stdout == stdout && imp(stderr != nil, c.Stderr == stderr))
  check [terminal] imp(shows() && stdout == nil, c.Stdout == os.Stdout && c.Stderr == os.Stderr)

func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, overrideSilent, overrideOutput, stdout, stderr, noColor) (err)
  requires r != nil && task != nil && echoed == 0
  joins
  modifies echoed

// what a task reference hands on: its own setting, else the one it got
func runner.Runner.runTask(r, ctx, name, tasks, state, isMain, overrideSilent, overrideOutput, stdout, stderr, noColor, pctx) (err)
  trusted
  modifies everything

def over(a, b) = ite(a != nil, a, b)
def tref(item) = as(item, babfile.TaskRun)

on call runner.Runner.runTask(rr, cx, nm, ts, st, mn, oS, oO, so, se, nc, pc)
  check [silent] oS == over(tref(item).Silent, overrideSilent)
  check [output] oO == over(tref(item).Output, overrideOutput)

func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, overrideSilent, overrideOutput, stdout, stderr, noColor, pctx) (err)
  requires r != nil && task != nil && echoed == 0
  modifies everything
  joins

on call runner.Runner.executeCommand(rr, cx, cv, tk, sh, sa, tv, te, oS, oO, so, se, nc) in runner.Runner.executeRunItem
  check [csilent] oS == overrideSilent && oO == overrideOutput && so == stdout && se == stderr && tk == task
