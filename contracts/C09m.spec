// C09: environment layers override in the documented order.
import C01
def inMerge(k, ms, i, r) = all(m, 0, i, imp(in(k, ms[m]) && all(j, m+1, i, !in(k, ms[j])), in(k, r) && r[k] == ms[m][k]))
def outMerge(k, ms, i, r) = imp(all(m, 0, i, !in(k, ms[m])), !in(k, r))
def ctxVars(ctx) = ite(ctx == nil, emptymap(map[string]string), content(ctx.Vars))

func babfile.MergeEnvMaps(envMaps) (r)
  ensures [fresh] fresh(r)
  ensures [last] all(k, string, inMerge(k, envMaps, len(envMaps), r))
  ensures [none] all(k, string, outMerge(k, envMaps, len(envMaps), r))
  loop (i int, r map[string]string) all(k, string, inMerge(k, envMaps, i, r))
  loop (i int, r map[string]string) all(k, string, outMerge(k, envMaps, i, r))
  loop (r map[string]string) all(k, string, imp(seen(k), in(k, r) && r[k] == itermap()[k]))
  loop (r map[string]string) all(k, string, imp(!seen(k), iff(in(k, r), pre(in(k, r))) && r[k] == pre(r[k])))
  nopanic

func babfile.MergeEnv(envMaps) (r)
  requires len(envMaps) == 1
  ensures [all] all(k, string, imp(in(k, envMaps[0]), ex(i, 0, len(r), r[i] == k + "=" + envMaps[0][k])))
  ensures [only] all(i, 0, len(r), ex(k, string, in(k, envMaps[0]) && r[i] == k + "=" + envMaps[0][k]))
  loop (rs []string) all(k, string, imp(seen(k), ex(i, 0, len(rs), rs[i] == k + "=" + itermap()[k])))
  loop (rs []string) all(i, 0, len(rs), ex(k, string, in(k, itermap()) && rs[i] == k + "=" + itermap()[k]))
  nopanic

func runner.Runner.interpolateEnv(r, env, ctx) (res, err)
  requires r != nil
  ensures [error] iff(err == nil, all(k, string, imp(in(k, env), interpOK(env[k], ctxVars(ctx)))))
  ensures [keys] imp(err == nil, all(k, string, iff(in(k, res), in(k, env))))
  ensures [values] imp(err == nil, all(k, string, imp(in(k, env), res[k] == interp(env[k], ctxVars(ctx)))))
  loop (r map[string]string) all(k, string, iff(in(k, r), seen(k)))
  loop (r map[string]string) all(k, string, imp(seen(k), interpOK(itermap()[k], ctxVars(ctx)) && r[k] == interp(itermap()[k], ctxVars(ctx))))
  nopanic
