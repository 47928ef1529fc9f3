// C08: loading includes terminates; cycles and clashes are errors.
import inc
// How many readable files are not yet on the include path; every step of the
// search takes one more of the finitely many readable files onto the path.
fun readable(string) bool
fun room(content(map[string]bool)) int
axiom all(v, content(map[string]bool), trig(room(v) >= 0, room(v)))
axiom all(v, content(map[string]bool), all(p, string, trig(imp(readable(p) && !(in(p, v) && v[p]), room(upd(v, p, true)) == room(v) - 1), room(upd(v, p, true)))))
// only what is on the path counts
axiom all(v, content(map[string]bool), all(w, content(map[string]bool), trig(imp(all(p, string, (in(p, v) && v[p]) == (in(p, w) && w[p])), room(v) == room(w)), room(v), room(w))))
def VS() = content(visited)
def on(p) = in(p, visited) && visited[p]
def isCirc(e) = is(e, *errs.CircularDepError) && as(e, *errs.CircularDepError).Type == "include"
ghost local failed bool = false
on return parser.unmarshalBabfile(p, d) (bf, e) in parser.parseFile
  set failed = failed || e != nil
on return os.ReadFile(p) (d, e) in parser.parseFile
  assume imp(e == nil, readable(p))
  set failed = failed || e != nil
ghost local done per string to int
on call parser.resolveInclude(ns, p, base, ts, v) in parser.parseFile
  check [once] !failed && done[ns] == 0
  check [path] all(k, string, (in(k, v) && v[k]) == (old(on(k)) || k == absPath))
  set done[ns] = 1
on return parser.resolveInclude(ns, p, base, ts, v) (e) in parser.parseFile
  set failed = failed || e != nil
// proved with C18
func parser.unmarshalBabfile(path, data) (bf, err)
  trusted
  ensures imp(err == nil, bf != nil)
  ensures !is(err, *errs.CircularDepError)
func parser.buildAliasMap(t) (m)
func parser.chainFromVisited(v, c) (m)
verify parser.prefixTaskRuns parser.prefixAlias parser.prefixAliases parser.prefixDeps babfile.MergeVarMaps babfile.MergeEnvMaps
func parser.parseFile(absPath, visited) (r, err)
  requires visited != nil
  ensures [cycle] imp(old(on(absPath)), isCirc(err))
  ensures [no cycle] imp(!old(on(absPath)), !is(err, *errs.CircularDepError))
  ensures [all or nothing] iff(r == nil, err != nil)
  ensures [error] imp(failed, err != nil)
  ensures [tasks] imp(err == nil, r.Tasks != nil && all(k, string, imp(in(k, r.Tasks), at(r.Tasks, k) != nil)))
  ensures [path] all(k, string, on(k) == old(on(k)))
  modifies elems(visited)
  decreases 2*room(VS())
  loop !failed
  loop all(k, string, on(k) == (old(on(k)) || k == absPath))
  loop readable(absPath) && !old(on(absPath))
  loop by(room(VS()) < old(room(VS())), room(upd(old(VS()), absPath, true)))
  loop all(k, string, done[k] == ite(seen(k), 1, 0))
  loop (ts new babfile.TaskMap) all(k, string, imp(in(k, ts), at(ts, k) != nil))

func parser.resolveInclude(namespace, babfilePath, baseDir, tasks, visited) (err)
  requires visited != nil && tasks != nil && ref(tasks) != ref(visited)
  requires all(k, string, imp(in(k, tasks), at(tasks, k) != nil))
  ensures [path] all(k, string, on(k) == old(on(k)))
  ensures [tasks] all(k, string, imp(in(k, tasks), at(tasks, k) != nil))
  modifies elems(visited), elems(tasks)
  decreases 2*room(VS()) + 1
  loop all(k, string, imp(in(k, tasks), at(tasks, k) != nil))
  loop all(k, string, on(k) == old(on(k)))
// Parse starts with an empty path
on call parser.parseFile(p, v) in parser.Parse
  check [start] all(k, string, !(in(k, v) && v[k]))
func parser.validateAll(p, t) (err)
  trusted
  modifies allelems(error)
ghost local perr error = nil
on return parser.parseFile(p, v) (r, e) in parser.Parse
  set perr = e
func parser.Parse(path) (r, err)
  ensures [error] imp(perr != nil, err == perr)
  ensures [all or nothing] iff(r == nil, err != nil)
  modifies allelems(error)
