// C01: reference substitution is exact and single-pass.
// A text is cut by the token pattern into literals and tokens; the result is the
// literals with every token replaced once.
def TOK = regex(`\$\$\{\{|\$\{\{\s*([a-zA-Z_][a-zA-Z0-9_.]*)\s*\}\}`)
def ESC = regex(`\$\$\{\{`)
def REF = regex(`\$\{\{\s*([a-zA-Z_][a-zA-Z0-9_.]*)\s*\}\}`)
def vname(t) = regroup(REF, t, 1)
def isEnv(n) = hasprefix(n, "env.")
def defd(n, v) = isEnv(n) || in(n, v)
def value(n, v) = ite(isEnv(n), os.Getenv(n[4:len(n)]), v[n])
def bad(t, v) = !rematch(ESC, t) && !defd(vname(t), v)
def rep(t, v) = ite(rematch(ESC, t), "${{", value(vname(t), v))

fun acc(string, content(map[string]string), int) string
fun interp(string, content(map[string]string)) string
fun interpOK(string, content(map[string]string)) bool

axiom local all(s, string, all(v, content(map[string]string), trig(acc(s, v, 0) == "", acc(s, v, 0))))
axiom local all(s, string, all(v, content(map[string]string), all(j, int, trig(
   imp(0 <= j && j < rentok(TOK, s), acc(s, v, j+1) == acc(s, v, j) + (relit(TOK, s, j) + rep(retok(TOK, s, j), v))), acc(s, v, j), retok(TOK, s, j)))))
axiom local all(s, string, all(v, content(map[string]string), trig(
   interp(s, v) == acc(s, v, rentok(TOK, s)) + relit(TOK, s, rentok(TOK, s)), interp(s, v))))
axiom local all(s, string, all(v, content(map[string]string), trig(
   interpOK(s, v) == all(j, 0, rentok(TOK, s), !bad(retok(TOK, s, j), v)), interpOK(s, v))))
// a text the token pattern matched as a whole is an escape or a reference
axiom local all(s, string, all(j, int, trig(imp(0 <= j && j < rentok(TOK, s), rematch(ESC, retok(TOK, s, j)) || rematch(REF, retok(TOK, s, j))), retok(TOK, s, j))))

func interpolate.resolveVar(name, ctx) (r, err)
  requires ctx != nil
  ensures [defined] iff(err == nil, defd(name, content(ctx.Vars)))
  ensures [value] imp(err == nil, r == value(name, content(ctx.Vars)))
  ensures [named] imp(err != nil, is(err, *errs.VarNotFoundError) && as(err, *errs.VarNotFoundError).Name == name)
  nopanic

func interpolate.Interpolate(input, ctx) (r, err)
  let V = ite(ctx == nil, emptymap(map[string]string), content(ctx.Vars))
  ensures [ok] iff(err == nil, interpOK(input, V))
  ensures [text] imp(err == nil, r == interp(input, V))
  ensures [named] imp(err != nil, is(err, *errs.VarNotFoundError) && ex(j, 0, rentok(TOK, input), bad(retok(TOK, input, j), V) && as(err, *errs.VarNotFoundError).Name == vname(retok(TOK, input, j))))
  loop (j int, out string) imp(all(m, 0, j, !bad(retok(TOK, input, m), V)), out == acc(input, V, j))
  loop (j int, es []error) iff(len(es) == 0, all(m, 0, j, !bad(retok(TOK, input, m), V)))
  loop (j int, es []error) imp(len(es) > 0, is(es[0], *errs.VarNotFoundError) && ex(m, 0, j, bad(retok(TOK, input, m), V) && as(es[0], *errs.VarNotFoundError).Name == vname(retok(TOK, input, m))))
  nopanic

// every text of a prompt that may hold references is interpolated once, nothing else is changed
def CV(ctx) = ite(ctx == nil, emptymap(map[string]string), content(ctx.Vars))
def text1(a, b, v) = a == ite(b == "", "", interp(b, v))
def okText(b, v) = b == "" || interpOK(b, v)
def texts(a, b, v) = len(a) == len(b) && all(i, 0, len(b), a[i] == interp(b[i], v))
def okTexts(b, v) = all(i, 0, len(b), interpOK(b[i], v))
func runner.interpolatePrompt(p, ctx) (q, err)
  ensures [ok] iff(err == nil, interpOK(p.Message, CV(ctx)) && okText(p.Default, CV(ctx)) && okText(p.Placeholder, CV(ctx)) && okTexts(p.Options, CV(ctx)) && okTexts(p.Defaults, CV(ctx)))
  ensures [texts] imp(err == nil, q.Message == interp(p.Message, CV(ctx)) && text1(q.Default, p.Default, CV(ctx)) && text1(q.Placeholder, p.Placeholder, CV(ctx)))
  ensures [lists] imp(err == nil, texts(q.Options, p.Options, CV(ctx)) && texts(q.Defaults, p.Defaults, CV(ctx)))
  ensures [rest] q.Prompt == p.Prompt && q.Type == p.Type && q.Validate == p.Validate && q.Min == p.Min && q.Max == p.Max && q.Confirm == p.Confirm && q.When == p.When && q.Platforms == p.Platforms && q.Line == p.Line
  loop (o new []string) len(o) == len(p.Options) && all(i, 0, $i, interpOK(p.Options[i], CV(ctx)) && o[i] == interp(p.Options[i], CV(ctx)))
  loop (o new []string) len(o) == len(p.Defaults) && all(i, 0, $i, interpOK(p.Defaults[i], CV(ctx)) && o[i] == interp(p.Defaults[i], CV(ctx)))
  nopanic
