// C22: the task picker selects what it highlights.
def visible(m) = ite(m.height - 4 > 1, m.height - 4, 1)
def onTask(m) = 0 <= m.cursor && (m.cursor < len(m.matches) || len(m.matches) == 0 && m.cursor == 0)
def inWindow(m) = 0 <= m.offset && m.offset <= m.cursor && m.cursor < m.offset + visible(m)
fun textOf(textinput.Model) string
extern textinput.Model.Value(m) (s)
  ensures s == textOf(m)
def typed(m) = textOf(m.input)
def good(m) = onTask(m) && inWindow(m)

func picker.Model.adjustScroll(m)
  requires m != nil && onTask(m) && 0 <= m.offset
  ensures [window] good(m)
  ensures [cursor] m.cursor == old(m.cursor)
  modifies m.offset
  nopanic

func picker.Model.moveCursor(m, delta)
  requires m != nil && good(m)
  ensures [window] good(m)
  ensures [where] imp(0 <= old(m.cursor) + delta && old(m.cursor) + delta < len(m.matches), m.cursor == old(m.cursor) + delta)
  ensures [ends] imp(old(m.cursor) + delta < 0, m.cursor == 0) && imp(old(m.cursor) + delta >= len(m.matches) && len(m.matches) > 0, m.cursor == len(m.matches) - 1)
  modifies m.cursor, m.offset
  nopanic

// the list: every task once without a query; with one, only tasks of the Babfile
func picker.searchAliases(query, task) (alias, indexes, exact)
  trusted

func picker.search(query, tasks) (r)
  requires all(i, 0, len(tasks), tasks[i] != nil)
  ensures [all] imp(query == "", len(r) == len(tasks) && all(i, 0, len(r), r[i].Task == tasks[i]))
  ensures [known] imp(query != "", all(i, 0, len(r), ex(j, 0, len(tasks), r[i].Task == tasks[j])))
  loop (rs []picker.Match) imp(query == "", all(i, 0, $n, rs[i].Task == tasks[i]))
  loop (rs []picker.Match) imp(query != "", all(i, 0, len(rs), ex(j, 0, len(tasks), rs[i].Task == tasks[j])))

func picker.Model.updateMatches(m)
  requires m != nil && all(i, 0, len(m.tasks), m.tasks[i] != nil)
  ensures [top] good(m)
  ensures [all] imp(typed(m) == "", len(m.matches) == len(m.tasks) && all(i, 0, len(m.matches), m.matches[i].Task == m.tasks[i]))
  ensures [known] imp(typed(m) != "", all(i, 0, len(m.matches), ex(j, 0, len(m.tasks), m.matches[i].Task == m.tasks[j])))
  modifies m.matches, m.cursor, m.offset

// one step of a session
ghost key string = ""
on return tea.KeyPressMsg.String(k) (s)
  set key = s
func picker.Model.Update(m, msg) (r, cmd)
  requires good(m) && all(i, 0, len(m.tasks), m.tasks[i] != nil)
  ensures [state] is(r, picker.Model) && good(as(r, picker.Model))
  ensures [enter] imp(is(msg, tea.KeyPressMsg) && key == "enter" && len(m.matches) > 0, as(r, picker.Model).selected == old(m.matches[m.cursor].Task))
  ensures [none] imp(!is(msg, tea.KeyPressMsg) || key != "enter" || len(m.matches) == 0, as(r, picker.Model).selected == m.selected)
  ensures [tasks] as(r, picker.Model).tasks == m.tasks
  modifies key

func picker.New(tasks) (m)
  requires all(k, string, imp(in(k, tasks), tasks[k] != nil))
  ensures [state] good(m) && m.selected == nil
  ensures [listed] all(k, string, imp(in(k, tasks), ex(i, 0, len(m.tasks), m.tasks[i] == tasks[k])))
  ensures [only] all(i, 0, len(m.tasks), m.tasks[i] != nil && ex(k, string, in(k, tasks) && m.tasks[i] == tasks[k]))
  ensures [count] len(m.tasks) == len(tasks)
  loop (ts []*babfile.Task) all(k, string, imp(seen(k), ex(i, 0, len(ts), ts[i] == itermap()[k])))
  loop (ts []*babfile.Task) all(i, 0, len(ts), ts[i] != nil && ex(k, string, in(k, itermap()) && ts[i] == itermap()[k]))
  loop (ts []*babfile.Task) len(ts) == $n
