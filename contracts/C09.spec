import env
verify babfile.MergeEnvMaps babfile.MergeEnv runner.Runner.interpolateEnv

def ENV = os.Environ()
def hint(s) = s == "TERM=dumb" || s == "NO_COLOR=1" || s == "FORCE_COLOR=1"
def ownV(v, t, k) = ite(in(k, v.Env), interp(v.Env[k], content(taskVars)), t[k])
def hasV(v, t, k) = in(k, v.Env) || in(k, t)

def after(e, m, v, t) = m <= len(e) && all(i, len(ENV), m, hint(e[i])) && all(i, m, len(e), ex(k, string, hasV(v, t, k) && e[i] == k + "=" + ownV(v, t, k)))

on call exec.Cmd.Run(c)
  check [inherit] imp(c.Env == nil, all(k, string, !hasV(v, taskEnv, k)))
  check [base] imp(c.Env != nil, len(c.Env) >= len(ENV) && all(i, 0, len(ENV), c.Env[i] == ENV[i]))
  check [set] imp(c.Env != nil, all(k, string, imp(hasV(v, taskEnv, k), ex(i, len(ENV), len(c.Env), c.Env[i] == k + "=" + ownV(v, taskEnv, k)))))
  // colour hints, if any, come before everything configured: the last entry of a key counts
  check [only] imp(c.Env != nil, after(c.Env, len(ENV), v, taskEnv) || after(c.Env, len(ENV)+1, v, taskEnv) || after(c.Env, len(ENV)+2, v, taskEnv))

func runner.Runner.executeCommand(r, ctx, v, task, shell, shellArg, taskVars, taskEnv, overrideSilent, overrideOutput, stdout, stderr, noColor) (err)
  requires r != nil && task != nil
  joins
