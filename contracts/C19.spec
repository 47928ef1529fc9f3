// C19: the nearest Babfile is used.
fun anc(string, int) string
axiom all(d, string, trig(anc(d, 0) == d, anc(d, 0)))
axiom all(d, string, all(n, int, trig(imp(n >= 0, anc(d, n+1) == filepath.Dir(anc(d, n))), anc(d, n))))
// the documented names, in order
def nameOf(k) = ite(k == 0, "Babfile", ite(k == 1, "Babfile.yaml", ite(k == 2, "Babfile.yml", ite(k == 3, "babfile.yaml", "babfile.yml"))))
def isFile(p) = fsexists(p) && !fsdir(p)
def here(d, k) = joinpath(d, nameOf(k))
def none(d) = !isFile(here(d, 0)) && !isFile(here(d, 1)) && !isFile(here(d, 2)) && !isFile(here(d, 3)) && !isFile(here(d, 4))
ghost local cwd string = ""
ghost local wderr error = nil
on return os.Getwd() (d, e)
  set cwd = d
  set wderr = e
// how many directories have been left
ghost local level int = 0
on back in finder.FindBabfile
  set level = level + 1
func finder.FindBabfile() (path, err)
  ensures [found] imp(err == nil, ex(k, 0, 5, path == here(anc(cwd, level), k) && isFile(path) && all(j, 0, k, !isFile(here(anc(cwd, level), j)))))
  ensures [nearest] imp(err == nil, level >= 0 && all(m, 0, level, none(anc(cwd, m))))
  ensures [error] imp(err != nil && wderr == nil, errIs(err, errs.ErrBabfileNotFound))
  ensures [root] imp(err != nil && wderr == nil, filepath.Dir(anc(cwd, level)) == anc(cwd, level))
  ensures [none] imp(err != nil && wderr == nil, level >= 0 && all(m, 0, level + 1, none(anc(cwd, m))))
  loop level == $i
  loop (d phi string) d == anc(cwd, $i)
  loop all(m, 0, $i, none(anc(cwd, m)))

// an explicit path is used as it is; without one the nearest Babfile
ghost local nearest string = ""
ghost local finderr error = nil
ghost local parsed bool = false
on return finder.FindBabfile() (p, e) in runner.LoadTasks
  set nearest = p
  set finderr = e
on call parser.Parse(p) in runner.LoadTasks
  check [path] !parsed && finderr == nil && p == ite(path != "", path, nearest)
  set parsed = true
func runner.LoadTasks(path) (result, err)
  ensures [looked] imp(err == nil, parsed)
  ensures [no file] imp(finderr != nil, err != nil && !parsed)
  modifies everything
func parser.Parse(p) (r, err)
  trusted
  modifies everything
on call runner.LoadTasks(p) in runner.Runner.Run
  check [given path] p == r.Babfile
func runner.Runner.Run(r, ctx, name) (err)
  requires r != nil
  modifies everything
func runner.Runner.RunWithTasks(r, ctx, name, tasks) (err)
  trusted
  modifies everything
func interpolate.ResolveVarsWithLocation(a, b, c, d) (m, err)
  trusted
func runner.Runner.resolveTaskName(r, n) (m)
  trusted
on call runner.LoadTasks(p) in cmd.CLI.runList
  check [given path] p == old(c.babfile)
on call runner.LoadTasks(p) in cmd.CLI.runValidate
  check [given path] p == old(c.babfile)
on call runner.LoadTasks(p) in cmd.CLI.runInteractive
  check [given path] p == old(c.babfile)
func cmd.CLI.runValidate(c) (err)
  requires c != nil
  modifies everything
func cmd.CLI.runList(c) (err)
  requires c != nil
  modifies everything
func cmd.CLI.runInteractive(c) (err)
  requires c != nil
  modifies everything
func cmd.CLI.runTask(c, n) (err)
  requires c != nil
  modifies everything
on call runner.Runner.Run(rr, x, n) in cmd.CLI.runTask
  check [given path] rr.Babfile == old(c.babfile)
func cmd.CLI.runList$1(n, name) (t)
  trusted
