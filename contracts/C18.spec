// C18: a Babfile is loaded faithfully or rejected.
def scalar(n) = n.Kind == 8
def mapping(n) = n.Kind == 4
def sequence(n) = n.Kind == 2
def grows(v, n) = ite(n, len(v.Errors) == old(len(v.Errors)), len(v.Errors) > old(len(v.Errors)))
// what the YAML library produces: every child exists, a mapping is a list of pairs
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, 0, len(n.Content), trig(n.Content[i] != nil, n.Content[i])))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, trig(imp(n.Kind == 4, len(n.Content) % 2 == 0), n.Kind))
// lk(n, k, i): the place of the last key k of the mapping n before place i (-1: none)
fun lk(*yaml.Node, string, int) int
fun lk0(*yaml.Node, string, int) int
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(k, string, all(i, int, trig(lk(n, k, i) == lk0(n, k, i), lk(n, k, i)))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(k, string, all(i, int, trig(lk(n, k, i) == ite(i <= 0, 0-1, ite(n.Content[i-2].Value == k, i-2, lk0(n, k, i-2))), lk(n, k, i)))))

func parser.parseString(path, setting, node, target, verrs) (r)
  requires node != nil && verrs != nil && target != nil
  ensures [string] iff(r, scalar(node))
  ensures [value] *target == ite(r, node.Value, old(*target))
  ensures [reported] grows(verrs, r)
  modifies *target, verrs.Errors, allelems(error)
  nopanic
func parser.countRunTypes(cmd, task, log, prompt) (r)
  ensures [count] r == ite(cmd != "", 1, 0) + ite(task != "", 1, 0) + ite(log != "", 1, 0) + ite(prompt != "", 1, 0)
  nopanic
// a mapping of strings read from a node
fun scalars(*yaml.Node, int) bool
fun scalars0(*yaml.Node, int) bool
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(scalars(n, i) == scalars0(n, i), scalars(n, i))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(scalars(n, i) == (i <= 0 || scalar(n.Content[i-1]) && scalars0(n, i-2)), scalars(n, i))))
def strs(n) = mapping(n) && scalars(n, len(n.Content))
def last(n, k) = lk(n, k, len(n.Content))
// W(c, n): map content c is the entries of mapping n
fun W(content(map[string]string), *yaml.Node) bool
axiom except parser.unmarshalBabfile: all(c, content(map[string]string), all(n, *yaml.Node, trig(W(c, n) == all(k, string, by(in(k, c) == (last(n, k) >= 0) && imp(in(k, c), c[k] == n.Content[last(n, k)+1].Value), last(n, k))), W(c, n))))
def written(m, n) = W(content(m), n)
def sofar(m, n, i) = all(k, string, by(in(k, m) == (lk(n, k, i) >= 0) && imp(in(k, m), m[k] == n.Content[lk(n, k, i)+1].Value), lk(n, k, i)))
func parser.parseEnvMap(path, node, env, verrs) (r)
  requires node != nil && verrs != nil && env != nil
  ensures [strings] iff(r, strs(node))
  ensures [entries] imp(r, written(*env, node) && fresh(*env))
  ensures [reported] grows(verrs, r)
  modifies *env, verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content) && len(verrs.Errors) >= old(len(verrs.Errors))
  loop (i phi int, e phi bool) iff(e, !scalars(node, i))
  loop (e phi bool) ite(e, len(verrs.Errors) > old(len(verrs.Errors)), len(verrs.Errors) == old(len(verrs.Errors)))
  loop fresh(*env)
  loop (i phi int, e phi bool) imp(!e, sofar(*env, node, i))
  nopanic
func parser.parseVarMap(path, node, vars, verrs) (r)
  requires node != nil && verrs != nil && vars != nil
  ensures [strings] iff(r, strs(node))
  ensures [entries] imp(r, written(*vars, node) && fresh(*vars))
  ensures [reported] grows(verrs, r)
  modifies *vars, verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content) && len(verrs.Errors) >= old(len(verrs.Errors))
  loop (i phi int, e phi bool) iff(e, !scalars(node, i))
  loop (e phi bool) ite(e, len(verrs.Errors) > old(len(verrs.Errors)), len(verrs.Errors) == old(len(verrs.Errors)))
  loop fresh(*vars)
  loop (i phi int, e phi bool) imp(!e, sofar(*vars, node, i))
  nopanic
// what the YAML library makes of a node
fun boolean(*yaml.Node) bool
fun boolOf(*yaml.Node) bool
on return yaml.Node.Decode(n, v) (e) in parser.parseBool
  assume iff(e == nil, boolean(n)) && imp(e == nil, *as(v, *bool) == boolOf(n))
def isBool(n) = scalar(n) && boolean(n)
func parser.parseBool(path, node, target, verrs) (r)
  requires node != nil && verrs != nil && target != nil
  ensures [boolean] iff(r, isBool(node))
  ensures [value] ite(r, *target != nil && fresh(*target) && **target == boolOf(node), *target == old(*target))
  ensures [reported] grows(verrs, r)
  modifies *target, verrs.Errors, allelems(error)
  nopanic

func babfile.Platform.Valid(p) (r)
  ensures [known] iff(r, p == "linux" || p == "darwin" || p == "windows")
  nopanic
func babfile.LogLevel.Valid(p) (r)
  ensures [known] iff(r, p == "debug" || p == "info" || p == "warn" || p == "error")
  nopanic
func babfile.ParallelMode.Valid(p) (r)
  ensures [known] iff(r, p == "interleaved" || p == "grouped" || p == "tabs")
  nopanic
fun listed(*yaml.Node) bool
// platsOf(n, l): l is the list of platforms node n was decoded to
fun platsOf(*yaml.Node, []babfile.Platform) bool
fun known(*yaml.Node) bool
def isPlatform(p) = p == "linux" || p == "darwin" || p == "windows"
on return yaml.Node.Decode(n, v) (e) in parser.parsePlatforms
  assume iff(e == nil, listed(n)) && imp(e == nil, platsOf(n, *as(v, *[]babfile.Platform)) && iff(known(n), all(i, 0, len(*as(v, *[]babfile.Platform)), isPlatform((*as(v, *[]babfile.Platform))[i]))))
def isPlats(n) = listed(n) && known(n)
func parser.parsePlatforms(path, line, prefix, val, verrs) (r, ok)
  requires val != nil && verrs != nil
  ensures [known] iff(ok, isPlats(val))
  ensures [valid] imp(ok, platsOf(val, r) && all(i, 0, len(r), isPlatform(r[i])))
  ensures [reported] grows(verrs, ok)
  modifies verrs.Errors, allelems(error)
  loop (l []babfile.Platform) all(i, 0, $i, isPlatform(l[i]))
  nopanic
def isLevel(l) = l == "debug" || l == "info" || l == "warn" || l == "error"
func parser.buildLogRun(path, line, taskName, index, log, level, platforms, when, verrs) (item, ok)
  requires verrs != nil
  ensures [level] iff(ok, level == "" || isLevel(level))
  ensures [kept] imp(ok, is(item, babfile.LogRun) && as(item, babfile.LogRun).Line == line && as(item, babfile.LogRun).Log == log &&
     as(item, babfile.LogRun).Level == ite(level == "", "info", level) && as(item, babfile.LogRun).Platforms == platforms && as(item, babfile.LogRun).When == when)
  ensures [reported] grows(verrs, ok)
  modifies verrs.Errors, allelems(error)
  nopanic

fun integer(*yaml.Node) bool
fun intOf(*yaml.Node) int
fun listOf(*yaml.Node, []string) bool
def decoded(n, v, e) = ite(is(v, *int), iff(e == nil, integer(n)) && imp(e == nil, *as(v, *int) == intOf(n)),
  imp(is(v, *[]string), iff(e == nil, listed(n)) && imp(e == nil, listOf(n, *as(v, *[]string)))))
on return yaml.Node.Decode(n, v) (e) in parser.parsePromptKey
  assume decoded(n, v, e)
def key(x) = key.Value == x
func parser.parsePromptKey(key, val, pf, path, taskName, index, verrs) (r)
  requires key != nil && val != nil && pf != nil && verrs != nil
  ensures [accepted] iff(r, okPrompt(key.Value, val))
  ensures [reported] grows(verrs, r)
  ensures [name] imp(r, pf.name == ite(key("prompt"), val.Value, old(pf.name)))
  ensures [type] imp(r, pf.promptType == ite(key("type"), val.Value, old(pf.promptType)))
  ensures [message] imp(r, pf.message == ite(key("message"), val.Value, old(pf.message)))
  ensures [default] imp(r, pf.dflt == ite(key("default"), val.Value, old(pf.dflt)))
  ensures [placeholder] imp(r, pf.placeholder == ite(key("placeholder"), val.Value, old(pf.placeholder)))
  ensures [validate] imp(r, pf.validate == ite(key("validate"), val.Value, old(pf.validate)))
  ensures [options] imp(r, ite(key("options"), listOf(val, pf.options), pf.options == old(pf.options)))
  ensures [defaults] imp(r, ite(key("defaults"), listOf(val, pf.defaults), pf.defaults == old(pf.defaults)))
  ensures [min] imp(r, ite(key("min"), pf.min != nil && fresh(pf.min) && *pf.min == intOf(val), pf.min == old(pf.min)))
  ensures [max] imp(r, ite(key("max"), pf.max != nil && fresh(pf.max) && *pf.max == intOf(val), pf.max == old(pf.max)))
  ensures [confirm] imp(r, ite(key("confirm"), pf.confirm != nil && fresh(pf.confirm) && *pf.confirm == boolOf(val), pf.confirm == old(pf.confirm)))
  modifies *pf, verrs.Errors, allelems(error)
  nopanic
def okPrompt(k, v) = imp(k == "prompt" || k == "type" || k == "message" || k == "default" || k == "placeholder" || k == "validate", scalar(v)) &&
  imp(k == "options" || k == "defaults", listed(v)) && imp(k == "min" || k == "max", integer(v)) && imp(k == "confirm", isBool(v))

def isStrKey(k) = k == "cmd" || k == "dir" || k == "when" || k == "task" || k == "log" || k == "level" || k == "label"
def okRun(k, v) = imp(isStrKey(k), scalar(v)) && imp(k == "env", strs(v)) && imp(k == "silent" || k == "output", isBool(v)) && imp(k == "platforms", isPlats(v)) &&
  imp(!(k == "env" || k == "silent" || k == "output" || k == "platforms" || isStrKey(k)), okPrompt(k, v))
fun okItem(*yaml.Node, int) bool
fun okItem0(*yaml.Node, int) bool
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(okItem(n, i) == okItem0(n, i), okItem(n, i))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(okItem(n, i) == (i <= 0 || okRun(n.Content[i-2].Value, n.Content[i-1]) && okItem0(n, i-2)), okItem(n, i))))
// what the settings of a mapping say, up to place i
def has(n, k, i) = lk(n, k, i) >= 0
def val(n, k, i) = n.Content[lk(n, k, i)+1]
def txt(n, k, i) = ite(has(n, k, i), val(n, k, i).Value, "")
def flag(p, n, k, i) = ite(has(n, k, i), p != nil && *p == boolOf(val(n, k, i)), p == nil)
def num(p, n, k, i) = ite(has(n, k, i), p != nil && *p == intOf(val(n, k, i)), p == nil)
def list(l, n, k, i) = ite(has(n, k, i), listOf(val(n, k, i), l), l == nil)
def plats(l, n, k, i) = ite(has(n, k, i), platsOf(val(n, k, i), l), l == nil)
def entries(m, n, k, i) = ite(has(n, k, i), written(m, val(n, k, i)), m == nil)
def common(f, n, i) = f.cmd == txt(n, "cmd", i) && f.task == txt(n, "task", i) && f.log == txt(n, "log", i) && f.dir == txt(n, "dir", i) && f.when == txt(n, "when", i) && f.level == txt(n, "level", i)
def flags(f, n, i) = flag(f.silent, n, "silent", i) && flag(f.output, n, "output", i)
def texts(p, n, i) = p.name == txt(n, "prompt", i) && p.promptType == txt(n, "type", i) && p.message == txt(n, "message", i) && p.dflt == txt(n, "default", i) && p.placeholder == txt(n, "placeholder", i) && p.validate == txt(n, "validate", i)
def lists(p, n, i) = list(p.options, n, "options", i) && list(p.defaults, n, "defaults", i)
def nums(p, n, i) = num(p.min, n, "min", i) && num(p.max, n, "max", i) && flag(p.confirm, n, "confirm", i)
func parser.parseRunFields(path, node, taskName, index, verrs) (rf)
  requires node != nil && verrs != nil && mapping(node)
  ensures [accepted] iff(!rf.hasErrors, okItem(node, len(node.Content)))
  ensures [reported] grows(verrs, !rf.hasErrors)
  ensures [line] rf.line == node.Line
  ensures [strings] imp(!rf.hasErrors, common(rf, node, len(node.Content)))
  ensures [flags] imp(!rf.hasErrors, flags(rf, node, len(node.Content)))
  ensures [env] imp(!rf.hasErrors, entries(rf.env, node, "env", len(node.Content)))
  ensures [platforms] imp(!rf.hasErrors, plats(rf.platforms, node, "platforms", len(node.Content)))
  ensures [prompt texts] imp(!rf.hasErrors, texts(rf.pf, node, len(node.Content)))
  ensures [prompt lists] imp(!rf.hasErrors, lists(rf.pf, node, len(node.Content)))
  ensures [prompt numbers] imp(!rf.hasErrors, nums(rf.pf, node, len(node.Content)))
  modifies verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content)
  loop (f new parser.runFields) grows(verrs, !f.hasErrors)
  loop (f new parser.runFields) f.line == node.Line
  loop (i phi int, f new parser.runFields) iff(!f.hasErrors, okItem(node, i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, common(f, node, i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, flags(f, node, i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, entries(f.env, node, "env", i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, plats(f.platforms, node, "platforms", i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, texts(f.pf, node, i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, lists(f.pf, node, i))
  loop (i phi int, f new parser.runFields) imp(!f.hasErrors, nums(f.pf, node, i))
  nopanic

// ---- run items ----
import C16
verify parser.validatePromptRun
def isMode(m) = m == "interleaved" || m == "grouped" || m == "tabs"
def okPar(k, v) = (k == "parallel" || k == "mode" || k == "limit" || k == "color" || k == "silent" || k == "output" || k == "platforms" || k == "when") &&
  imp(k == "parallel", sequence(v)) && imp(k == "mode", scalar(v) && isMode(v.Value)) && imp(k == "limit", integer(v) && intOf(v) >= 0) &&
  imp(k == "color" || k == "silent" || k == "output", isBool(v)) && imp(k == "platforms", isPlats(v)) && imp(k == "when", scalar(v))
on return yaml.Node.Decode(n, v) (e) in parser.parseParallelKey
  assume decoded(n, v, e)
func parser.parseParallelKey(key, val, pf, path, prefix, verrs) (r)
  requires key != nil && val != nil && pf != nil && verrs != nil
  ensures [accepted] iff(r, okPar(key.Value, val))
  ensures [reported] grows(verrs, r)
  ensures [items] imp(r, pf.itemsNode == ite(key("parallel"), val, old(pf.itemsNode)))
  ensures [mode] imp(r, pf.mode == ite(key("mode"), val.Value, old(pf.mode)))
  ensures [limit] imp(r, pf.limit == ite(key("limit"), intOf(val), old(pf.limit)))
  ensures [when] imp(r, pf.when == ite(key("when"), val.Value, old(pf.when)))
  ensures [color] imp(r, ite(key("color"), pf.color != nil && fresh(pf.color) && *pf.color == boolOf(val), pf.color == old(pf.color)))
  ensures [silent] imp(r, ite(key("silent"), pf.silent != nil && fresh(pf.silent) && *pf.silent == boolOf(val), pf.silent == old(pf.silent)))
  ensures [output] imp(r, ite(key("output"), pf.output != nil && fresh(pf.output) && *pf.output == boolOf(val), pf.output == old(pf.output)))
  ensures [platforms] imp(r, ite(key("platforms"), platsOf(val, pf.platforms), pf.platforms == old(pf.platforms)))
  modifies *pf, verrs.Errors, allelems(error)
  nopanic
def flat(i) = !is(i, babfile.PromptRun) && !is(i, babfile.ParallelRun)
func parser.validateParallelItems(path, prefix, itemsNode, items, verrs) (r)
  requires itemsNode != nil && verrs != nil && len(itemsNode.Content) == len(items)
  ensures [flat] iff(r, all(j, 0, len(items), flat(items[j])))
  ensures [reported] grows(verrs, r)
  modifies verrs.Errors, allelems(error)
  loop (e phi bool) iff(e, ex(j, 0, $i, !flat(items[j]))) && grows(verrs, !e)
  nopanic
// the place of the first key k of a mapping from place i on
fun nx(*yaml.Node, string, int) int
fun nx0(*yaml.Node, string, int) int
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(k, string, all(i, int, trig(nx(n, k, i) == nx0(n, k, i), nx(n, k, i)))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(k, string, all(i, int, trig(nx(n, k, i) == ite(i >= len(n.Content), 0-1, ite(n.Content[i].Value == k, i, nx0(n, k, i+2))), nx(n, k, i)))))
def labelled(n, l) = l == ite(mapping(n) && nx(n, "label", 0) >= 0, n.Content[nx(n, "label", 0)+1].Value, "")
func parser.extractParallelLabels(itemsNode, items) (r)
  requires itemsNode != nil && len(itemsNode.Content) == len(items)
  ensures [labels] len(r) == len(items) && all(j, 0, len(items), labelled(itemsNode.Content[j], r[j]))
  loop (l new []string) len(l) == len(items) && fresh(l)
  loop (l new []string) all(j, 0, $i, labelled(itemsNode.Content[j], l[j]))
  loop (l new []string) all(j, $i, len(l), l[j] == "")
  loop (m phi int, n *yaml.Node) m % 2 == 0 && 0 <= m && m <= len(n.Content) && nx(n, "label", 0) == nx(n, "label", m)
  nopanic

// made(n, i): item i is what parseRunItem returned for node n
fun made(*yaml.Node, babfile.RunItem) bool
ghost local refused bool = false
ghost local reads int = 0
on return parser.parseRunItem(p, n, t, i, v) (it, k) in parser.parseRunItems
  assume imp(k, made(n, it))
  set refused = refused || !k
func parser.parseRunItems(path, node, taskName, verrs) (items, ok)
  requires node != nil && verrs != nil
  ensures [accepted] iff(ok, sequence(node) && !refused)
  ensures [reported] grows(verrs, ok)
  ensures [each] imp(ok, len(items) == len(node.Content) && fresh(items) && all(j, 0, len(items), made(node.Content[j], items[j])))
  modifies verrs.Errors, allelems(error)
  loop (e phi bool) iff(e, refused) && grows(verrs, !e)
  loop (e phi bool, l phi []babfile.RunItem) fresh(l) && imp(!e, len(l) == $i)
  loop (e phi bool, l phi []babfile.RunItem) imp(!e, all(j, 0, $i, made(node.Content[j], l[j])))
  nopanic

fun okBlock(*yaml.Node, int) bool
fun okBlock0(*yaml.Node, int) bool
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(okBlock(n, i) == okBlock0(n, i), okBlock(n, i))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(okBlock(n, i) == (i <= 0 || okPar(n.Content[i-2].Value, n.Content[i-1]) && okBlock0(n, i-2)), okBlock(n, i))))
def size(n) = len(n.Content)
def end(n, k) = val(n, k, size(n))
def block(b, n) = b.Line == n.Line && b.Mode == ite(txt(n, "mode", size(n)) == "", "interleaved", txt(n, "mode", size(n))) &&
  b.Limit == ite(has(n, "limit", size(n)), intOf(end(n, "limit")), 0) && b.When == txt(n, "when", size(n))
def blockFlags(b, n) = flag(b.Color, n, "color", size(n)) && flag(b.Silent, n, "silent", size(n)) && flag(b.Output, n, "output", size(n)) && plats(b.Platforms, n, "platforms", size(n))
def blockItems(b, c) = len(b.Items) == len(c) && len(c) > 0 && all(j, 0, len(c), made(c[j], b.Items[j]) && flat(b.Items[j]))
def blockLabels(b, c) = len(b.Labels) == len(c) && all(j, 0, len(c), labelled(c[j], b.Labels[j]))
ghost local itemsOK bool = false
ghost local itemsFlat bool = false
on return parser.parseRunItems(p, n, t, v) (l, k) in parser.parseParallelRun
  check [items] n == end(node, "parallel") && v == verrs
  set itemsOK = k
  set itemsFlat = all(j, 0, len(l), flat(l[j]))
func parser.parseParallelRun(path, node, taskName, index, verrs) (item, ok)
  requires node != nil && verrs != nil && mapping(node) && nx(node, "parallel", 0) >= 0
  ensures [accepted] iff(ok, okBlock(node, size(node)) && size(end(node, "parallel")) > 0 && itemsOK && itemsFlat)
  ensures [reported] grows(verrs, ok)
  ensures [block] imp(ok, is(item, babfile.ParallelRun) && block(as(item, babfile.ParallelRun), node))
  ensures [flags] imp(ok, blockFlags(as(item, babfile.ParallelRun), node))
  ensures [items] imp(ok, blockItems(as(item, babfile.ParallelRun), end(node, "parallel").Content))
  ensures [labels] imp(ok, blockLabels(as(item, babfile.ParallelRun), end(node, "parallel").Content))
  modifies verrs.Errors, allelems(error)
  loop (i phi int) imp(lk(node, "parallel", i) < 0, nx(node, "parallel", 0) == nx(node, "parallel", i))
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content)
  loop (i phi int, e phi bool) iff(!e, okBlock(node, i)) && grows(verrs, !e)
  loop (i phi int, e phi bool, f new parser.parallelFields) imp(!e, f.itemsNode == ite(has(node, "parallel", i), val(node, "parallel", i), nil) && imp(has(node, "parallel", i), f.itemsNode != nil && sequence(f.itemsNode)))
  loop (i phi int, e phi bool, f new parser.parallelFields) imp(!e, f.mode == txt(node, "mode", i) && f.limit == ite(has(node, "limit", i), intOf(val(node, "limit", i)), 0) && f.when == txt(node, "when", i))
  loop (i phi int, e phi bool, f new parser.parallelFields) imp(!e, flag(f.color, node, "color", i) && flag(f.silent, node, "silent", i) && flag(f.output, node, "output", i))
  loop (i phi int, e phi bool, f new parser.parallelFields) imp(!e, plats(f.platforms, node, "platforms", i))
  nopanic

// a single run item: exactly one kind, with the settings written for it
def one(n, k) = ite(txt(n, k, size(n)) != "", 1, 0)
def kinds(n) = one(n, "cmd") + one(n, "task") + one(n, "log") + one(n, "prompt")
def line(i, n) = i.Line == n.Line && i.When == txt(n, "when", size(n)) && plats(i.Platforms, n, "platforms", size(n))
def isTask(i, n) = flag(i.Silent, n, "silent", size(n)) && flag(i.Output, n, "output", size(n)) && line(i, n) && i.Task == txt(n, "task", size(n))
def isLog(i, n) = line(i, n) && i.Log == txt(n, "log", size(n)) && i.Level == ite(txt(n, "level", size(n)) == "", "info", txt(n, "level", size(n)))
def isPrompt(p, n) = line(p, n) && p.Prompt == txt(n, "prompt", size(n)) && p.Type == txt(n, "type", size(n)) && p.Message == txt(n, "message", size(n)) && p.Default == txt(n, "default", size(n)) &&
  p.Placeholder == txt(n, "placeholder", size(n)) && p.Validate == txt(n, "validate", size(n)) && list(p.Options, n, "options", size(n)) && list(p.Defaults, n, "defaults", size(n)) &&
  num(p.Min, n, "min", size(n)) && num(p.Max, n, "max", size(n)) && flag(p.Confirm, n, "confirm", size(n))
ghost local promptOK bool = true
ghost local blockOK bool = true
on return parser.validatePromptRun(p, l, t, i, f, pl, w, v) (it, k) in parser.parseRunItem
  set promptOK = k
on call parser.parseParallelRun(p, n, t, i, v) in parser.parseRunItem
  check [whole] n == node && v == verrs
on return parser.parseParallelRun(p, n, t, i, v) (it, k) in parser.parseRunItem
  set blockOK = k
def isBlock(n) = nx(n, "parallel", 0) >= 0
func parser.parseRunItem(path, node, taskName, index, verrs) (item, ok)
  requires node != nil && verrs != nil
  ensures [accepted] iff(ok, mapping(node) && ite(isBlock(node), blockOK, okItem(node, size(node)) && kinds(node) == 1 && promptOK && imp(txt(node, "log", size(node)) != "", txt(node, "level", size(node)) == "" || isLevel(txt(node, "level", size(node))))))
  ensures [reported] grows(verrs, ok)
  ensures [block] iff(ok && isBlock(node), ok && is(item, babfile.ParallelRun))
  ensures [kind] imp(ok && !isBlock(node), iff(is(item, babfile.CommandRun), txt(node, "cmd", size(node)) != "") && iff(is(item, babfile.TaskRun), txt(node, "task", size(node)) != "") &&
    iff(is(item, babfile.LogRun), txt(node, "log", size(node)) != "") && iff(is(item, babfile.PromptRun), txt(node, "prompt", size(node)) != ""))
  ensures [command] imp(ok && is(item, babfile.CommandRun), cmdIs(as(item, babfile.CommandRun), node))
  ensures [task] imp(ok && is(item, babfile.TaskRun), isTask(as(item, babfile.TaskRun), node))
  ensures [log] imp(ok && is(item, babfile.LogRun), isLog(as(item, babfile.LogRun), node))
  ensures [prompt] imp(ok && is(item, babfile.PromptRun), isPrompt(as(item, babfile.PromptRun), node))
  modifies verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content) && nx(node, "parallel", 0) == nx(node, "parallel", i)
  nopanic
def cmdIs(i, n) = line(i, n) && i.Cmd == txt(n, "cmd", size(n)) && i.Dir == txt(n, "dir", size(n)) && entries(i.Env, n, "env", size(n)) && flag(i.Silent, n, "silent", size(n)) && flag(i.Output, n, "output", size(n))

// ---- tasks ----
// runOK(n), runOf(n, l): parseRunItems accepted node n, and returned l for it
fun runOK(*yaml.Node) bool
fun runOf(*yaml.Node, []babfile.RunItem) bool
on return parser.parseRunItems(p, n, t, v) (l, k) in parser.parseTask
  assume iff(k, runOK(n)) && imp(k, runOf(n, l))
on return yaml.Node.Decode(n, v) (e) in parser.parseTask
  assume decoded(n, v, e)
def okSet(k, v) = imp(k == "desc" || k == "alias" || k == "dir" || k == "when", scalar(v)) && imp(k == "aliases" || k == "deps", listed(v)) &&
  imp(k == "vars" || k == "env", strs(v)) && imp(k == "silent" || k == "output", isBool(v)) && imp(k == "run", runOK(v))
fun okTask(*yaml.Node, int) bool
fun okTask0(*yaml.Node, int) bool
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(okTask(n, i) == okTask0(n, i), okTask(n, i))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(okTask(n, i) == (i <= 0 || okSet(n.Content[i-2].Value, n.Content[i-1]) && okTask0(n, i-2)), okTask(n, i))))
// what the settings of a task are, seen from the task list
fun textsOf(string, string, string, string, *yaml.Node) bool
axiom except parser.parseTasks parser.unmarshalBabfile: all(a, string, all(b, string, all(c, string, all(d, string, all(n, *yaml.Node, trig(textsOf(a, b, c, d, n) == (a == txt(n, "desc", size(n)) && b == txt(n, "alias", size(n)) && c == txt(n, "dir", size(n)) && d == txt(n, "when", size(n))), textsOf(a, b, c, d, n)))))))
fun stringsOf([]string, *yaml.Node, string) bool
axiom except parser.parseTasks parser.unmarshalBabfile: all(l, []string, all(n, *yaml.Node, all(k, string, trig(stringsOf(l, n, k) == list(l, n, k, size(n)), stringsOf(l, n, k)))))
fun itemsOf([]babfile.RunItem, *yaml.Node) bool
axiom except parser.parseTasks parser.unmarshalBabfile: all(l, []babfile.RunItem, all(n, *yaml.Node, trig(itemsOf(l, n) == ite(has(n, "run", size(n)), runOf(val(n, "run", size(n)), l), l == nil), itemsOf(l, n))))
fun flagOf(bool, bool, *yaml.Node, string) bool
axiom except parser.parseTasks parser.unmarshalBabfile: all(u, bool, all(b, bool, all(n, *yaml.Node, all(k, string, trig(flagOf(u, b, n, k) == ite(has(n, k, size(n)), !u && b == boolOf(val(n, k, size(n))), u), flagOf(u, b, n, k))))))
fun entriesOf(bool, content(map[string]string), *yaml.Node, string) bool
axiom except parser.parseTasks parser.unmarshalBabfile: all(u, bool, all(c, content(map[string]string), all(n, *yaml.Node, all(k, string, trig(entriesOf(u, c, n, k) == ite(has(n, k, size(n)), W(c, val(n, k, size(n))), u), entriesOf(u, c, n, k))))))
def taskTexts(t, n) = textsOf(t.Desc, t.Alias, t.Dir, t.When, n)
def taskLists(t, n) = stringsOf(t.Aliases, n, "aliases") && stringsOf(t.Deps, n, "deps") && itemsOf(t.Run, n)
def taskFlags(t, n) = flagOf(t.Silent == nil, t.Silent != nil && *t.Silent, n, "silent") && flagOf(t.Output == nil, t.Output != nil && *t.Output, n, "output")
def taskMaps(t, n) = entriesOf(t.Vars == nil, content(t.Vars), n, "vars") && entriesOf(t.Env == nil, content(t.Env), n, "env")
func parser.parseTask(path, node, taskName, verrs) (t, ok)
  requires node != nil && verrs != nil
  ensures [accepted] iff(ok, mapping(node) && okTask(node, size(node)))
  ensures [reported] grows(verrs, ok)
  ensures [texts] imp(ok, taskTexts(t, node))
  ensures [lists] imp(ok, taskLists(t, node))
  ensures [flags] imp(ok, taskFlags(t, node))
  ensures [maps] imp(ok, taskMaps(t, node))
  ensures [line] imp(ok, t.DepsLine == ite(has(node, "deps", size(node)), node.Content[lk(node, "deps", size(node))].Line, 0))
  modifies verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content)
  loop (i phi int, e phi bool) iff(!e, okTask(node, i)) && grows(verrs, !e)
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, t.Desc == txt(node, "desc", i) && t.Alias == txt(node, "alias", i) && t.Dir == txt(node, "dir", i) && t.When == txt(node, "when", i))
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, list(t.Aliases, node, "aliases", i) && list(t.Deps, node, "deps", i))
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, ite(has(node, "run", i), runOf(val(node, "run", i), t.Run), t.Run == nil))
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, flag(t.Silent, node, "silent", i) && flag(t.Output, node, "output", i))
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, entries(t.Vars, node, "vars", i))
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, entries(t.Env, node, "env", i))
  loop (i phi int, e phi bool, t new babfile.Task) imp(!e, t.DepsLine == ite(has(node, "deps", i), node.Content[lk(node, "deps", i)].Line, 0))
  nopanic

fun goodTasks(*yaml.Node, int) bool
fun goodTasks0(*yaml.Node, int) bool
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(goodTasks(n, i) == goodTasks0(n, i), goodTasks(n, i))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(goodTasks(n, i) == (i <= 0 || lk(n, n.Content[i-2].Value, i-2) < 0 && mapping(n.Content[i-1]) && okTask(n.Content[i-1], size(n.Content[i-1])) && goodTasks0(n, i-2)), goodTasks(n, i))))
def T(k) = at(schema.Tasks, k)
def tn(k, i) = val(node, k, i)
def eachTask(i, p) = all(k, string, by(imp(has(node, k, i), p), lk(node, k, i)))
def sound() = mapping(node) && goodTasks(node, size(node))
func parser.parseTasks(path, node, schema, verrs)
  requires node != nil && verrs != nil && schema != nil && schema.Tasks != nil
  ensures [reported] grows(verrs, sound())
  ensures [all] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), in(k, schema.Tasks)), lk(node, k, size(node)))))
  ensures [others] imp(sound(), all(k, string, by(imp(!has(node, k, size(node)), in(k, schema.Tasks) == old(in(k, schema.Tasks)) && T(k) == old(T(k))), lk(node, k, size(node)))))
  ensures [texts] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), taskTexts(T(k), tn(k, size(node)))), lk(node, k, size(node)))))
  ensures [lists] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), taskLists(T(k), tn(k, size(node)))), lk(node, k, size(node)))))
  ensures [flags] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), taskFlags(T(k), tn(k, size(node)))), lk(node, k, size(node)))))
  ensures [maps] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), taskMaps(T(k), tn(k, size(node)))), lk(node, k, size(node)))))
  ensures [live] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), live(T(k).Vars) && live(T(k).Env)), lk(node, k, size(node)))))
  ensures [line] imp(sound(), all(k, string, by(imp(has(node, k, size(node)), T(k).Line == node.Content[lk(node, k, size(node))].Line), lk(node, k, size(node)))))
  modifies elems(schema.Tasks), verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content)
  loop (i phi int) grows(verrs, goodTasks(node, i))
  loop (i phi int, m new map[string]int) all(k, string, by(in(k, m) == has(node, k, i), lk(node, k, i)))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), in(k, schema.Tasks)), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(!has(node, k, i), in(k, schema.Tasks) == old(in(k, schema.Tasks)) && T(k) == old(T(k))), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), taskTexts(T(k), tn(k, i))), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), taskLists(T(k), tn(k, i))), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), taskFlags(T(k), tn(k, i))), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), live(T(k).Vars) && live(T(k).Env)), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), entriesOf(T(k).Vars == nil, content(T(k).Vars), tn(k, i), "vars")), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), entriesOf(T(k).Env == nil, content(T(k).Env), tn(k, i), "env")), lk(node, k, i))))
  loop (i phi int) imp(goodTasks(node, i), all(k, string, by(imp(has(node, k, i), T(k).Line == node.Content[lk(node, k, i)].Line), lk(node, k, i))))
  nopanic

// ---- includes ----
fun isInclude(*yaml.Node) bool
fun includeOf(string, *yaml.Node) bool
on return yaml.Node.Decode(n, v) (e) in parser.parseIncludes
  assume iff(e == nil, isInclude(n)) && imp(e == nil, includeOf((*as(v, *babfile.Include)).Babfile, n))
fun goodIncs(*yaml.Node, int) bool
fun goodIncs0(*yaml.Node, int) bool
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(goodIncs(n, i) == goodIncs0(n, i), goodIncs(n, i))))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(i, int, trig(goodIncs(n, i) == (i <= 0 || isInclude(n.Content[i-1]) && goodIncs0(n, i-2)), goodIncs(n, i))))
def I(k) = at(schema.Includes, k)
def readIncs() = mapping(node) && goodIncs(node, size(node))
func parser.parseIncludes(path, node, schema, verrs)
  requires node != nil && verrs != nil && schema != nil && schema.Includes != nil
  ensures [reported] grows(verrs, readIncs())
  ensures [all] imp(readIncs(), all(k, string, by(imp(has(node, k, size(node)), in(k, schema.Includes) && includeOf(I(k).Babfile, tn(k, size(node)))), lk(node, k, size(node)))))
  ensures [others] imp(readIncs(), all(k, string, by(imp(!has(node, k, size(node)), in(k, schema.Includes) == old(in(k, schema.Includes)) && I(k) == old(I(k))), lk(node, k, size(node)))))
  modifies elems(schema.Includes), verrs.Errors, allelems(error)
  loop (i phi int) i % 2 == 0 && 0 <= i && i <= len(node.Content)
  loop (i phi int) grows(verrs, goodIncs(node, i))
  loop (i phi int) imp(goodIncs(node, i), all(k, string, by(imp(has(node, k, i), in(k, schema.Includes) && includeOf(I(k).Babfile, tn(k, i))), lk(node, k, i))))
  loop (i phi int) imp(goodIncs(node, i), all(k, string, by(imp(!has(node, k, i), in(k, schema.Includes) == old(in(k, schema.Includes)) && I(k) == old(I(k))), lk(node, k, i))))
  nopanic

// ---- aliases ----
// what the YAML library produces: an alias names a node, which is none itself; nodes do not share their lists of children
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, trig(imp(n.Kind == 16, n.Alias != nil && n.Alias.Kind != 16), n.Alias))
axiom except parser.unmarshalBabfile: all(n, *yaml.Node, all(m, *yaml.Node, trig(imp(n != m && len(n.Content) > 0, ref(n.Content) != ref(m.Content)), n.Content, m.Content)))
// how many nodes of the document have not been looked at
fun unseen(content(map[*yaml.Node]bool)) int
axiom all(v, content(map[*yaml.Node]bool), trig(unseen(v) >= 0, unseen(v)))
axiom all(v, content(map[*yaml.Node]bool), all(n, *yaml.Node, all(b, bool, trig(unseen(upd(v, n, b)) == unseen(v) - ite(in(n, v), 0, 1), unseen(upd(v, n, b))))))
axiom all(v, content(map[*yaml.Node]bool), all(w, content(map[*yaml.Node]bool), trig(imp(all(p, *yaml.Node, imp(in(p, v), in(p, w))), unseen(w) <= unseen(v)), unseen(v), unseen(w))))
def active(n) = in(n, inside) && inside[n]
def done(n) = in(n, inside) && !inside[n]
def plain(n) = all(i, 0, len(n.Content), trig(n.Content[i] != nil && n.Content[i].Kind != 16 && done(n.Content[i]), n.Content[i]))
func parser.resolveAliases(path, node, inside) (err)
  requires node != nil && inside != nil && !in(node, inside)
  ensures [active] imp(err == nil, all(n, *yaml.Node, active(n) == old(active(n))))
  ensures [done] imp(err == nil, done(node) && all(n, *yaml.Node, imp(old(done(n)), done(n))))
  ensures [resolved] imp(err == nil, all(n, *yaml.Node, imp(done(n) && !old(done(n)), plain(n))))
  ensures [kept] imp(err == nil, all(n, *yaml.Node, imp(old(in(n, inside)), all(i, 0, len(n.Content), trig(n.Content[i] == old(n.Content[i]), n.Content[i])))))
  ensures [error] !is(err, *errs.CircularDepError)
  modifies elems(inside), allelems(*yaml.Node)
  decreases unseen(content(inside))
  loop in(node, inside) && all(n, *yaml.Node, imp(old(in(n, inside)), in(n, inside)))
  loop by(unseen(content(inside)) < old(unseen(content(inside))), unseen(upd(old(content(inside)), node, true)))
  loop all(n, *yaml.Node, active(n) == (old(active(n)) || n == node))
  loop all(n, *yaml.Node, imp(old(done(n)), done(n)))
  loop all(n, *yaml.Node, imp(done(n) && !old(done(n)), plain(n)))
  loop all(n, *yaml.Node, imp(old(in(n, inside)), all(i, 0, len(n.Content), trig(n.Content[i] == old(n.Content[i]), n.Content[i]))))
  loop all(i, 0, len(node.Content), trig(node.Content[i] != nil, node.Content[i]))
  loop all(i, 0, $i, trig(node.Content[i].Kind != 16 && done(node.Content[i]), node.Content[i]))

// ---- the document ----
ghost local top *yaml.Node = nil
ghost local pos int = 0
ghost local bad bool = false
ghost local looked bool = false
ghost local varsAt int = 0-1
ghost local envAt int = 0-1
ghost local silentAt int = 0-1
ghost local outputAt int = 0-1
ghost local dirAt int = 0-1
ghost local tasksAt int = 0-1
ghost local incAt int = 0-1
// what the YAML library produces
on return yaml.Unmarshal(d, v) (e) in parser.unmarshalBabfile
  check [data] d == data
  assume !is(e, *errs.CircularDepError)
  assume all(n, *yaml.Node, trig(imp(n.Kind == 4, len(n.Content) % 2 == 0), n.Kind)) && all(n, *yaml.Node, all(i, 0, len(n.Content), trig(n.Content[i] != nil, n.Content[i])))
on call parser.resolveAliases(p, n, m) in parser.unmarshalBabfile
  check [document] n.Kind == 1 && len(n.Content) > 0
on return parser.resolveAliases(p, n, m) (e) in parser.unmarshalBabfile
  set top = n.Content[0]
  set bad = bad || e != nil
  set looked = true
def keyAt(j) = top.Content[j].Value
def isHere(k, n) = keyAt(pos) == k && n == top.Content[pos+1]
on call parser.parseVarMap(p, n, v, e) in parser.unmarshalBabfile
  check [vars] isHere("vars", n) && p == path
  set varsAt = pos
on return parser.parseVarMap(p, n, v, e) (k) in parser.unmarshalBabfile
  set bad = bad || !k
on call parser.parseEnvMap(p, n, v, e) in parser.unmarshalBabfile
  check [env] isHere("env", n) && p == path
  set envAt = pos
on return parser.parseEnvMap(p, n, v, e) (k) in parser.unmarshalBabfile
  set bad = bad || !k
on call parser.parseBool(p, n, v, e) in parser.unmarshalBabfile
  check [flag] (isHere("silent", n) || isHere("output", n)) && p == path
  set silentAt = ite(keyAt(pos) == "silent", pos, silentAt)
  set outputAt = ite(keyAt(pos) == "output", pos, outputAt)
on return parser.parseBool(p, n, v, e) (k) in parser.unmarshalBabfile
  set bad = bad || !k
on call parser.parseTasks(p, n, s, e) in parser.unmarshalBabfile
  check [tasks] isHere("tasks", n) && p == path
  set tasksAt = pos
  set bad = bad || !(mapping(n) && goodTasks(n, size(n)))
on call parser.parseIncludes(p, n, s, e) in parser.unmarshalBabfile
  check [includes] isHere("includes", n) && p == path
  set incAt = pos
  set bad = bad || !(mapping(n) && goodIncs(n, size(n)))
on back in parser.unmarshalBabfile
  check [vars handled] iff(keyAt(pos) == "vars", varsAt == pos)
  check [env handled] iff(keyAt(pos) == "env", envAt == pos)
  check [silent handled] iff(keyAt(pos) == "silent", silentAt == pos)
  check [output handled] iff(keyAt(pos) == "output", outputAt == pos)
  check [tasks handled] iff(keyAt(pos) == "tasks", tasksAt == pos)
  check [includes handled] iff(keyAt(pos) == "includes", incAt == pos)
  set bad = bad || keyAt(pos) == "dir" && !scalar(top.Content[pos+1])
  set dirAt = ite(keyAt(pos) == "dir", pos, dirAt)
  set pos = pos + 2
// the last place of a setting in the document
def lastAt(p, k) = p < pos && ite(p < 0, true, p % 2 == 0 && keyAt(p) == k) && all(j, 0, pos, imp(j % 2 == 0 && j > p, keyAt(j) != k))
def nodeAt(p) = top.Content[p+1]
def flagAt(f, p) = ite(p < 0, f == nil, f != nil && *f == boolOf(nodeAt(p)))
def noneIn(m) = all(k, string, !in(k, m))
def mapAt(m, p) = ite(p < 0, noneIn(m), written(m, nodeAt(p)))
def TK(s, k) = at(s.Tasks, k)
def rt(k) = val(nodeAt(tasksAt), k, size(nodeAt(tasksAt)))
func parser.unmarshalBabfile(path, data) (r, err)
  ensures [all or nothing] iff(r == nil, err != nil)
  ensures [no cycle] !is(err, *errs.CircularDepError)
  ensures [valid] imp(err == nil, looked && !bad && top.Kind == 4 && pos == size(top))
  ensures [rejected] imp(looked && !bad && top.Kind == 4, err == nil)
  ensures [vars place] imp(err == nil, lastAt(varsAt, "vars"))
  ensures [env place] imp(err == nil, lastAt(envAt, "env"))
  ensures [silent place] imp(err == nil, lastAt(silentAt, "silent"))
  ensures [output place] imp(err == nil, lastAt(outputAt, "output"))
  ensures [dir place] imp(err == nil, lastAt(dirAt, "dir"))
  ensures [tasks place] imp(err == nil, lastAt(tasksAt, "tasks"))
  ensures [includes place] imp(err == nil, lastAt(incAt, "includes"))
  ensures [vars] imp(err == nil, mapAt(r.Vars, varsAt))
  ensures [env] imp(err == nil, mapAt(r.Env, envAt))
  ensures [flags] imp(err == nil, flagAt(r.Silent, silentAt) && flagAt(r.Output, outputAt))
  ensures [dir] imp(err == nil, r.Dir == ite(dirAt < 0, "", nodeAt(dirAt).Value))
  ensures [tasks] imp(err == nil && tasksAt >= 0, all(k, string, by(imp(has(nodeAt(tasksAt), k, size(nodeAt(tasksAt))), in(k, r.Tasks) && taskTexts(TK(r, k), rt(k)) && taskLists(TK(r, k), rt(k))), lk(nodeAt(tasksAt), k, size(nodeAt(tasksAt))))))
  ensures [task flags] imp(err == nil && tasksAt >= 0, all(k, string, by(imp(has(nodeAt(tasksAt), k, size(nodeAt(tasksAt))), taskFlags(TK(r, k), rt(k)) && taskMaps(TK(r, k), rt(k))), lk(nodeAt(tasksAt), k, size(nodeAt(tasksAt))))))
  ensures [no tasks] imp(err == nil && tasksAt < 0, noneIn(r.Tasks))
  ensures [no includes] imp(err == nil && incAt < 0, noneIn(r.Includes))
  ensures [includes] imp(err == nil && incAt >= 0, all(k, string, by(imp(has(nodeAt(incAt), k, size(nodeAt(incAt))), in(k, r.Includes) && includeOf(at(r.Includes, k).Babfile, val(nodeAt(incAt), k, size(nodeAt(incAt))))), lk(nodeAt(incAt), k, size(nodeAt(incAt))))))
  loop (i phi int) i == pos && pos % 2 == 0 && 0 <= pos && pos <= size(top) && looked && top.Kind == 4
  loop all(i, 0, size(top), trig(top.Content[i] != nil, top.Content[i]))
  loop (v new errs.ValidationErrors) iff(!bad, len(v.Errors) == 0)
  loop lastAt(varsAt, "vars")
  loop lastAt(envAt, "env")
  loop lastAt(silentAt, "silent")
  loop lastAt(outputAt, "output")
  loop lastAt(dirAt, "dir")
  loop lastAt(tasksAt, "tasks")
  loop lastAt(incAt, "includes")
  loop (s new babfile.Schema) s.Tasks != nil && s.Includes != nil
  loop (s new babfile.Schema) imp(!bad, mapAt(s.Vars, varsAt))
  loop (s new babfile.Schema) imp(!bad, mapAt(s.Env, envAt))
  loop (s new babfile.Schema) imp(!bad, flagAt(s.Silent, silentAt) && flagAt(s.Output, outputAt))
  loop (s new babfile.Schema) imp(!bad, s.Dir == ite(dirAt < 0, "", nodeAt(dirAt).Value))
  loop (s new babfile.Schema) imp(!bad && tasksAt >= 0, all(k, string, by(imp(has(nodeAt(tasksAt), k, size(nodeAt(tasksAt))), in(k, s.Tasks) && taskTexts(TK(s, k), rt(k)) && taskLists(TK(s, k), rt(k))), lk(nodeAt(tasksAt), k, size(nodeAt(tasksAt))))))
  loop (s new babfile.Schema) imp(!bad && tasksAt >= 0, all(k, string, by(imp(has(nodeAt(tasksAt), k, size(nodeAt(tasksAt))), taskFlags(TK(s, k), rt(k)) && taskMaps(TK(s, k), rt(k)) && live(TK(s, k).Vars) && live(TK(s, k).Env)), lk(nodeAt(tasksAt), k, size(nodeAt(tasksAt))))))
  loop (s new babfile.Schema) imp(!bad && tasksAt < 0, noneIn(s.Tasks))
  loop (s new babfile.Schema) imp(!bad && incAt < 0, noneIn(s.Includes))
  loop (s new babfile.Schema) imp(!bad && incAt >= 0, all(k, string, by(imp(has(nodeAt(incAt), k, size(nodeAt(incAt))), in(k, s.Includes) && includeOf(at(s.Includes, k).Babfile, val(nodeAt(incAt), k, size(nodeAt(incAt))))), lk(nodeAt(incAt), k, size(nodeAt(incAt))))))
  modifies allelems(error), allelems(*yaml.Node)
  nopanic
