// C03: a `when` condition means what its text says.
import C01
def CMPS = regex(`^(.+?)\s*(==|!=)\s*'([^']*)'$`)
def CMPD = regex(`^(.+?)\s*(==|!=)\s*"([^"]*)"$`)
def isCmp(s) = rematch(CMPS, s) || rematch(CMPD, s)
def part(s, i) = ite(rematch(CMPS, s), regroup(CMPS, s, i), regroup(CMPD, s, i))
def leftOf(s) = strings.Trim(strings.TrimSpace(part(s, 1)), `'"`)
def truthy(t) = strings.TrimSpace(t) != "" && !strings.EqualFold(strings.TrimSpace(t), "false")
def vars(ctx) = ite(ctx == nil, emptymap(map[string]string), content(ctx.Vars))

// what a condition decides, and whether it can be interpolated at all
def holds(c, v) = c == "" ||
  ite(isCmp(strings.TrimSpace(c)),
    ite(part(strings.TrimSpace(c), 2) == "==", interp(leftOf(strings.TrimSpace(c)), v) == interp(part(strings.TrimSpace(c), 3), v),
        part(strings.TrimSpace(c), 2) == "!=" && interp(leftOf(strings.TrimSpace(c)), v) != interp(part(strings.TrimSpace(c), 3), v)),
    truthy(interp(c, v)))
def evalOK(c, v) = c == "" ||
  ite(isCmp(strings.TrimSpace(c)), interpOK(leftOf(strings.TrimSpace(c)), v) && interpOK(part(strings.TrimSpace(c), 3), v), interpOK(c, v))

func condition.evaluateOp(left, op, right) (r)
  ensures [eq] imp(op == "==", iff(r.ShouldRun, left == right))
  ensures [ne] imp(op == "!=", iff(r.ShouldRun, left != right))
  ensures [other] imp(op != "==" && op != "!=", !r.ShouldRun)
  nopanic

func condition.evaluateTruthy(s) (r)
  ensures [truthy] iff(r.ShouldRun, truthy(s))
  nopanic

func condition.splitComparison(s) (left, op, right, ok)
  ensures [ok] iff(ok, isCmp(s))
  ensures [parts] imp(ok, left == leftOf(s) && op == part(s, 2) && right == part(s, 3))
  nopanic

func condition.Evaluate(cond, ctx) (r, err)
  ensures [error] iff(err == nil, evalOK(cond, vars(ctx)))
  ensures [decision] imp(err == nil, iff(r.ShouldRun, holds(cond, vars(ctx))))
  ensures [norun] imp(err != nil, !r.ShouldRun)
  nopanic

// the condition of a run item
def isItem(i) = is(i, babfile.CommandRun) || is(i, babfile.TaskRun) || is(i, babfile.LogRun) || is(i, babfile.PromptRun) || is(i, babfile.ParallelRun)
def itemWhen(i) = ite(is(i, babfile.CommandRun), as(i, babfile.CommandRun).When,
  ite(is(i, babfile.TaskRun), as(i, babfile.TaskRun).When,
  ite(is(i, babfile.LogRun), as(i, babfile.LogRun).When,
  ite(is(i, babfile.PromptRun), as(i, babfile.PromptRun).When, as(i, babfile.ParallelRun).When))))

func runner.Runner.shouldSkipRunItem(r, item, taskVars, taskName, index) (skip, err)
  requires r != nil && isItem(item)
  ensures [error] iff(err == nil, evalOK(itemWhen(item), content(taskVars)))
  ensures [skip] imp(err == nil, iff(skip, !holds(itemWhen(item), content(taskVars))))
