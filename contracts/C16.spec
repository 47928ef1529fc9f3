// C16: prompts accept only answers that satisfy their constraints.
def NAME = regex(`^[a-zA-Z_][a-zA-Z0-9_]*$`)
def among(x, l) = ex(i, 0, len(l), l[i] == x)
def validType(t) = t == "confirm" || t == "input" || t == "select" || t == "multiselect" || t == "password" || t == "number"
def chooses(t) = t == "select" || t == "multiselect"

// the four groups of rules a definition must keep
def goodBasics(f) = rematch(NAME, f.name) && validType(f.promptType) && f.message != ""
def goodOptions(f) = imp(chooses(f.promptType), len(f.options) > 0) &&
  imp(f.promptType == "select" && f.dflt != "", among(f.dflt, f.options)) &&
  imp(f.promptType == "multiselect", all(i, 0, len(f.defaults), among(f.defaults[i], f.options)))
def goodLimits(f) = imp(f.min != nil && f.max != nil, *f.min <= *f.max) && imp(f.validate != "", revalid(f.validate))
def goodUse(f) = imp(len(f.options) > 0, chooses(f.promptType)) && imp(len(f.defaults) > 0, f.promptType == "multiselect") &&
  imp(f.validate != "", f.promptType == "input") && imp(f.confirm != nil, f.promptType == "password") &&
  imp(f.promptType == "number" && f.dflt != "", isInt(f.dflt))
def typed(c) = c.pType == c.pf.promptType

func babfile.PromptType.Valid(p) (r)
  ensures [known] iff(r, validType(p))
  nopanic
func babfile.PromptType.RequiresOptions(p) (r)
  ensures [chooses] iff(r, chooses(p))
  nopanic
func parser.stringInSlice(s, slice) (r)
  ensures [among] iff(r, among(s, slice))
  loop all(i, 0, $i, slice[i] != s)
  nopanic

func parser.validatePromptBasics(c, verrs) (r)
  requires c != nil && verrs != nil && typed(c)
  ensures [basics] iff(r, goodBasics(c.pf))
  ensures [reported] ite(r, len(verrs.Errors) == old(len(verrs.Errors)), len(verrs.Errors) > old(len(verrs.Errors)))
  modifies verrs.Errors, allelems(error)
  nopanic
func parser.validatePromptOptions(c, verrs) (r)
  requires c != nil && verrs != nil && typed(c)
  ensures [options] iff(r, goodOptions(c.pf))
  ensures [reported] ite(r, len(verrs.Errors) == old(len(verrs.Errors)), len(verrs.Errors) > old(len(verrs.Errors)))
  modifies verrs.Errors, allelems(error)
  loop (m new map[string]bool) all(k, string, iff(m[k], among(k, c.pf.options[:$i])))
  loop (e phi bool) iff(e, !(imp(chooses(c.pf.promptType), len(c.pf.options) > 0)) || ex(i, 0, $i, !among(c.pf.defaults[i], c.pf.options)))
  loop len(verrs.Errors) >= old(len(verrs.Errors))
  loop (e phi bool) ite(e, len(verrs.Errors) > old(len(verrs.Errors)), len(verrs.Errors) == old(len(verrs.Errors)))
  nopanic
func parser.validatePromptConstraints(c, verrs) (r)
  requires c != nil && verrs != nil && typed(c)
  ensures [limits] iff(r, goodLimits(c.pf))
  ensures [reported] ite(r, len(verrs.Errors) == old(len(verrs.Errors)), len(verrs.Errors) > old(len(verrs.Errors)))
  modifies verrs.Errors, allelems(error)
  nopanic
func parser.validatePromptTypeSpecific(c, verrs) (r)
  requires c != nil && verrs != nil && typed(c)
  ensures [use] iff(r, imp(validType(c.pf.promptType), goodUse(c.pf)))
  ensures [reported] ite(r, len(verrs.Errors) == old(len(verrs.Errors)), len(verrs.Errors) > old(len(verrs.Errors)))
  modifies verrs.Errors, allelems(error)
  nopanic
def good(f) = goodBasics(f) && goodOptions(f) && goodLimits(f) && goodUse(f)
func parser.validatePromptRun(path, line, taskName, index, pf, platforms, when, verrs) (item, ok)
  requires verrs != nil
  ensures [accepted] iff(ok, good(pf))
  ensures [reported] ite(ok, len(verrs.Errors) == old(len(verrs.Errors)), len(verrs.Errors) > old(len(verrs.Errors)))
  ensures [kept] imp(ok, is(item, babfile.PromptRun) && as(item, babfile.PromptRun).Line == line && as(item, babfile.PromptRun).Prompt == pf.name &&
     as(item, babfile.PromptRun).Type == pf.promptType && as(item, babfile.PromptRun).Message == pf.message && as(item, babfile.PromptRun).Platforms == platforms &&
     as(item, babfile.PromptRun).Default == pf.dflt && as(item, babfile.PromptRun).Defaults == pf.defaults && as(item, babfile.PromptRun).Options == pf.options &&
     as(item, babfile.PromptRun).Placeholder == pf.placeholder && as(item, babfile.PromptRun).Validate == pf.validate && as(item, babfile.PromptRun).Min == pf.min &&
     as(item, babfile.PromptRun).Max == pf.max && as(item, babfile.PromptRun).Confirm == pf.confirm && as(item, babfile.PromptRun).When == when)
  modifies verrs.Errors, allelems(error)
  nopanic

// an interactive answer is accepted only if the definition allows it
ghost local textAt *string = nil
ghost local typedText string = ""
ghost local checked bool = false
on call huh.Input.Value(i, v) in tui.runNumber
  set textAt = v
on call huh.Input.Validate(i, f) in tui.runNumber
  apply [validator] f(s) (e): iff(e == nil, numOK(p, s))
  set checked = true
on call huh.Form.RunWithContext(f, x) in tui.runNumber
  check [validated] checked && textAt != nil
on return huh.Form.RunWithContext(f, x) (e) in tui.runNumber
  havoc *textAt
  assume imp(e == nil, numOK(p, *textAt))
  set typedText = *textAt
def numOK(p, s) = ite(s == "", p.Default != "", isInt(s) && imp(p.Min != nil, atoi(s) >= *p.Min) && imp(p.Max != nil, atoi(s) <= *p.Max))
func tui.runNumber(ctx, p, message) (r, err)
  ensures [number] imp(err == nil, ite(typedText == "", r == p.Default && r != "", r == typedText && numOK(p, r)))
  ensures [none] imp(err != nil, r == "")

on call huh.Input.Value(i, v) in tui.runInput
  set textAt = v
on call huh.Input.Validate(i, f) in tui.runInput
  apply [validator] f(s) (e): iff(e == nil, inputOK(p, s))
  set checked = true
on call huh.Form.RunWithContext(f, x) in tui.runInput
  check [validated] (p.Validate == "" || checked) && textAt != nil
on return huh.Form.RunWithContext(f, x) (e) in tui.runInput
  havoc *textAt
  assume imp(e == nil, inputOK(p, *textAt))
  set typedText = *textAt
def inputOK(p, s) = imp(p.Validate != "", rematch(recompile(p.Validate), s))
func tui.runInput(ctx, p, message) (r, err)
  requires imp(p.Validate != "", revalid(p.Validate))
  ensures [matches] imp(err == nil, r == typedText && inputOK(p, r))
  ensures [none] imp(err != nil, r == "")
  nopanic

// a select offers exactly the options of its definition
fun optKey(huh.Option[string]) string
fun optVal(huh.Option[string]) string
extern huh.NewOption(k, v) (o)
  ensures optKey(o) == k && optVal(o) == v
extern huh.Option.Selected(o, b) (o2)
  ensures optKey(o2) == optKey(o) && optVal(o2) == optVal(o)
def offers(opts, l) = len(opts) == len(l) && all(i, 0, len(l), optVal(opts[i]) == l[i] && optKey(opts[i]) == l[i])
on call huh.Select.Value(i, v) in tui.runSelect
  set textAt = v
on call huh.Select.Options(i, opts) in tui.runSelect
  check [options] offers(opts, p.Options)
  set checked = true
on call huh.Form.RunWithContext(f, x) in tui.runSelect
  check [offered] checked && textAt != nil
on return huh.Form.RunWithContext(f, x) (e) in tui.runSelect
  havoc *textAt
  assume imp(e == nil, among(*textAt, p.Options))
  set typedText = *textAt
func tui.runSelect(ctx, p, message) (r, err)
  ensures [option] imp(err == nil, r == typedText && among(r, p.Options))
  ensures [none] imp(err != nil, r == "")
  loop (o new []huh.Option[string]) len(o) == len(p.Options) && all(i, 0, $i, optVal(o[i]) == p.Options[i] && optKey(o[i]) == p.Options[i])

ghost local textsAt *[]string = nil
ghost local picked []string = nil
ghost local offered bool = false
on call huh.MultiSelect.Value(i, v) in tui.runMultiselect
  set textsAt = v
on call huh.MultiSelect.Options(i, opts) in tui.runMultiselect
  check [options] offers(opts, p.Options)
  set offered = true
on call huh.MultiSelect.Validate(i, f) in tui.runMultiselect
  apply [validator] f(l) (e): iff(e == nil, countOK(p, l))
  set checked = true
on call huh.Form.RunWithContext(f, x) in tui.runMultiselect
  check [validated] offered && textsAt != nil && (checked || p.Min == nil && p.Max == nil)
on return huh.Form.RunWithContext(f, x) (e) in tui.runMultiselect
  havoc *textsAt
  assume imp(e == nil, countOK(p, *textsAt) && all(i, 0, len(*textsAt), among((*textsAt)[i], p.Options)))
  set picked = *textsAt
def countOK(p, l) = imp(p.Min != nil, len(l) >= *p.Min) && imp(p.Max != nil, len(l) <= *p.Max)
func tui.runMultiselect(ctx, p, message) (r, err)
  ensures [count] imp(err == nil, r == strings.Join(picked, ",") && countOK(p, picked))
  ensures [none] imp(err != nil, r == "")
  loop (o new []huh.Option[string]) len(o) == len(p.Options) && all(i, 0, $i, optVal(o[i]) == p.Options[i] && optKey(o[i]) == p.Options[i])

// a confirmed password was typed twice the same
ghost local forms int = 0
ghost local second string = ""
on call huh.Input.Value(i, v) in tui.runPassword
  set textAt = v
on call huh.Input.Validate(i, f) in tui.runPassword
  check [second] forms == 1
  apply [validator] f(s) (e): iff(e == nil, s == typedText)
  set checked = true
on call huh.Form.RunWithContext(f, x) in tui.runPassword
  check [validated] textAt != nil && (forms == 0 || checked)
on return huh.Form.RunWithContext(f, x) (e) in tui.runPassword
  havoc *textAt
  assume imp(e == nil && forms > 0, *textAt == typedText)
  set second = *textAt
  set typedText = ite(forms == 0, second, typedText)
  set textAt = nil
  set forms = ite(e == nil, forms + 1, forms)
def twice(p) = p.Confirm != nil && *p.Confirm
func tui.runPassword(ctx, p, message) (r, err)
  ensures [typed] imp(err == nil, r == typedText)
  ensures [twice] imp(err == nil, forms == ite(twice(p), 2, 1))
  ensures [none] imp(err != nil, r == "")

// what is asked is what the definition says
func tui.runConfirm(ctx, p, message) (r, err)
  ensures [bool] imp(err == nil, r == "true" || r == "false")
  ensures [none] imp(err != nil, r == "")
def goodRun(p) = imp(p.Validate != "", revalid(p.Validate))
// which kind of prompt was asked, and what it answered
ghost local asked string = ""
ghost local answer string = ""
on call tui.runConfirm(c, q, m) in tui.RunPrompt
  check [kind] q == p && m == message && asked == ""
  set asked = "confirm"
on return tui.runConfirm(c, q, m) (a, e) in tui.RunPrompt
  set answer = a
on call tui.runInput(c, q, m) in tui.RunPrompt
  check [kind] q == p && m == message && asked == ""
  set asked = "input"
on return tui.runInput(c, q, m) (a, e) in tui.RunPrompt
  set answer = a
on call tui.runSelect(c, q, m) in tui.RunPrompt
  check [kind] q == p && m == message && asked == ""
  set asked = "select"
on return tui.runSelect(c, q, m) (a, e) in tui.RunPrompt
  set answer = a
on call tui.runMultiselect(c, q, m) in tui.RunPrompt
  check [kind] q == p && m == message && asked == ""
  set asked = "multiselect"
on return tui.runMultiselect(c, q, m) (a, e) in tui.RunPrompt
  set answer = a
on call tui.runPassword(c, q, m) in tui.RunPrompt
  check [kind] q == p && m == message && asked == ""
  set asked = "password"
on return tui.runPassword(c, q, m) (a, e) in tui.RunPrompt
  set answer = a
on call tui.runNumber(c, q, m) in tui.RunPrompt
  check [kind] q == p && m == message && asked == ""
  set asked = "number"
on return tui.runNumber(c, q, m) (a, e) in tui.RunPrompt
  set answer = a
on call tui.handleNonInteractive(q) in tui.RunPrompt
  check [kind] q == p && asked == ""
  set asked = p.Type
on return tui.handleNonInteractive(q) (a, e) in tui.RunPrompt
  set answer = a
func tui.handleNonInteractive(p) (r, err)
func tui.RunPrompt(ctx, p, message) (r, err)
  requires goodRun(p)
  ensures [asked] imp(err == nil, asked == p.Type && r == answer)
