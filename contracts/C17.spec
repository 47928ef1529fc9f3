// C17: without a terminal, prompts use defaults or fail.
import run
def yes(s) = strings.ToLower(s) == "true" || strings.ToLower(s) == "yes" || strings.ToLower(s) == "y" || strings.ToLower(s) == "1"
def single(p) = p.Type == babfile.PromptTypeInput || p.Type == babfile.PromptTypeSelect || p.Type == babfile.PromptTypeNumber
def hasDefault(p) = ite(p.Type == babfile.PromptTypeMultiselect, len(p.Defaults) > 0,
   (single(p) || p.Type == babfile.PromptTypeConfirm) && p.Default != "")
def answer(p) = ite(p.Type == babfile.PromptTypeConfirm, ite(yes(p.Default), "true", "false"),
   ite(p.Type == babfile.PromptTypeMultiselect, strings.Join(p.Defaults, ","), p.Default))

func tui.normalizeConfirmDefault(s) (r)
  ensures [bool] r == ite(yes(s), "true", "false")
  nopanic

func tui.handleNonInteractive(p) (r, err)
  ensures [fails] iff(err == nil, hasDefault(p))
  ensures [default] imp(err == nil, r == answer(p))
  ensures [none] imp(err != nil, r == "" && errIs(err, tui.ErrNoTTY))
  nopanic

// the answer is stored under the prompt's name for the items after it, and nowhere else:
// vars are the variables the items of a task are to see at this moment
ghost local vars content(map[string]string)
ghost local cur map[string]string
def atItem() = task.Run[$i]
func interpolate.ResolveVarsWithLocation(a, b, c, d) (m, err)
  trusted
  ensures imp(err == nil, m != nil && fresh(m))
on return interpolate.ResolveVarsWithLocation(a, b, c, d) (m, e) in runner.Runner.executeTask
  set vars = content(m)
  set cur = m
func runner.Runner.interpolateEnv(r, e, c) (m, err)
  trusted
func babfile.MergeEnvMaps(m) (r)
  trusted
func runner.interpolatePrompt(p, c) (q, err)
  trusted
  ensures imp(err == nil, q.Prompt == p.Prompt)
on any runner.Runner.executeRunItem(rr, cx, it, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeTask
  check [sees the answers] content(tv) == vars
on any runner.Runner.shouldSkipRunItem(rr, it, tv) in runner.Runner.executeTask
  check [sees the answers] content(tv) == vars
on call tui.RunPrompt(c, p, m) in runner.Runner.executeTask
  check [item] is(atItem(), babfile.PromptRun) && p.Prompt == as(atItem(), babfile.PromptRun).Prompt
on return tui.RunPrompt(c, p, m) (q, e) in runner.Runner.executeTask
  set vars = ite(e == nil, upd(vars, as(atItem(), babfile.PromptRun).Prompt, q), vars)
// without a terminal nothing is asked
ghost local tty bool = false
ghost local viaDefault bool = false
ghost local dflt string = ""
ghost local dferr error = nil
on return term.IsTerminal(fd) (b) in tui.RunPrompt
  set tty = b
on call tui.handleNonInteractive(q) in tui.RunPrompt
  check [default] q == p && !tty
  set viaDefault = true
on return tui.handleNonInteractive(q) (a, e) in tui.RunPrompt
  set dflt = a
  set dferr = e
on any huh.Form.RunWithContext(f, x) in tui.RunPrompt
  check [not asked] tty
on any huh.Form.Run(f) in tui.RunPrompt
  check [not asked] tty
inline tui.runConfirm tui.runInput tui.runSelect tui.runMultiselect tui.runPassword tui.runNumber
func tui.RunPrompt(c, p, m) (q, err)
  ensures [default] imp(!tty, viaDefault && q == dflt && err == dferr)
on any runner.Runner.executeParallel(rr, c, v, tk, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeTask
  check [sees the answers] all(k, string, iff(in(k, tv), in(k, vars)) && imp(in(k, tv), tv[k] == vars[k]))
func runner.Runner.executeTask(r, ctx, task, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  requires r != nil && state != nil && task != nil && wfTasks(tasks)
  loop content(cur) == vars
  loop (m new map[string]string) all(k, string, imp(seen(k), in(k, m) && m[k] == itermap()[k]))
  loop (m new map[string]string) all(k, string, imp(!seen(k), !in(k, m)))
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
  joins
func runner.Runner.preResolveDeps(r, ctx, items, tasks, state, oS, oO, stdout, stderr, noColor, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeParallel(r, ctx, pr, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, pnc, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
