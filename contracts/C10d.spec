// C10: commands run in the right directory or not at all.
import C01
def vars(ctx) = ite(ctx == nil, emptymap(map[string]string), content(ctx.Vars))
def pick(a, b, c) = ite(a != "", a, ite(b != "", b, c))
def base(task) = filepath.Dir(task.SourcePath)
def place(d, task) = cleanpath(ite(filepath.IsAbs(d), d, joinpath(base(task), d)))
def dirOf(d, task, v) = ite(d == "", base(task), place(interp(d, v), task))
def dirOK(d, task, v) = d == "" || interpOK(d, v) && fsexists(place(interp(d, v), task)) && fsdir(place(interp(d, v), task))

func runner.Runner.resolveDir(r, task, cmdDir, ctx) (dir, err)
  requires r != nil && task != nil
  let d = pick(cmdDir, task.Dir, r.GlobalDir)
  ensures [usable] iff(err == nil, dirOK(d, task, vars(ctx)))
  ensures [dir] imp(err == nil, dir == dirOf(d, task, vars(ctx)))
  nopanic
