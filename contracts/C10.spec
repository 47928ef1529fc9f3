import env
verify runner.Runner.resolveDir

on call exec.Cmd.Run(c)
  check [place] c.Dir == dirOf(pick(v.Dir, task.Dir, r.GlobalDir), task, content(taskVars))
  check [usable] dirOK(pick(v.Dir, task.Dir, r.GlobalDir), task, content(taskVars))

func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, overrideSilent, overrideOutput, stdout, stderr, noColor) (err)
  requires r != nil && task != nil
  joins
