// C23: the parallel display shows each item's own state.
def wfItems(m) = m != nil && all(x, string, imp(in(x, m), m[x] != nil && live(m[x]))) && all(x, string, all(y, string, imp(in(x, m) && in(y, m) && x != y, m[x] != m[y])))
def sameText(a, b) = len(a) == len(b) && all(i, 0, len(a), a[i] == b[i])

// below(a, x): a relation every child is in with its parent, so that every tree of items is within it
fun below(string, string) bool
axiom all(x, string, trig(below(x, x), below(x, x)))
axiom all(x, string, all(y, string, all(z, string, trig(imp(below(x, y) && below(y, z), below(x, z)), below(x, y), below(y, z)))))
def closed(m) = all(x, string, imp(in(x, m), all(i, 0, len(m[x].children), below(x, m[x].children[i]))))

func tui.baseModel.removeItemTree(b, key)
  requires b != nil && wfItems(b.items)
  ensures [items] wfItems(b.items)
  ensures [gone] !in(key, b.items)
  nopanic
  ensures [only removes] all(x, string, imp(in(x, b.items), old(in(x, b.items)) && b.items[x] == old(b.items[x])))
  ensures [only below] imp(old(closed(b.items)), all(x, string, imp(old(in(x, b.items)) && !below(key, x), in(x, b.items))))
  ensures [whole trees] all(x, string, imp(old(in(x, b.items)) && !in(x, b.items), all(i, 0, old(len(b.items[x].children)), !in(old(b.items[x].children[i]), b.items))))
  loop wfItems(b.items)
  loop all(x, string, imp(in(x, b.items), pre(in(x, b.items)) && b.items[x] == pre(b.items[x])))
  loop all(i, 0, $i, !in(pre(b.items[key].children[i]), b.items))
  loop imp(pre(closed(b.items)), all(x, string, imp(pre(in(x, b.items)) && !below(key, x), in(x, b.items))))
  loop all(x, string, imp(pre(in(x, b.items)) && !in(x, b.items), all(i, 0, pre(len(b.items[x].children)), !in(pre(b.items[x].children[i]), b.items))))
  modifies elems(b.items)

// one event. The item it names is the only one that changes
def keyOf(m) = ite(is(m, tui.ItemStartMsg), as(m, tui.ItemStartMsg).Key, ite(is(m, tui.ItemOutputMsg), as(m, tui.ItemOutputMsg).Key, ite(is(m, tui.ItemDoneMsg), as(m, tui.ItemDoneMsg).Key, ite(is(m, tui.ItemRegisterMsg), as(m, tui.ItemRegisterMsg).Key, as(m, tui.ItemClearChildrenMsg).Key))))
def parentOf(m) = as(m, tui.ItemRegisterMsg).Parent
def isStart = is(msg, tui.ItemStartMsg)
def isOutput = is(msg, tui.ItemOutputMsg)
def isDone = is(msg, tui.ItemDoneMsg)
def isRegister = is(msg, tui.ItemRegisterMsg)
def isClear = is(msg, tui.ItemClearChildrenMsg)
def about(x) = (isStart || isOutput || isDone || isRegister || isClear) && x == keyOf(msg) || isRegister && parentOf(msg) != "" && x == parentOf(msg)
def k = keyOf(msg)
def ctrlc = is(msg, tea.KeyPressMsg) && key == "ctrl+c"
def before = old(len(b.items[k].lines))
def dropped = ite(b.maxLines > 0 && before + 1 > b.maxLines, before + 1 - b.maxLines, 0)
def shown = len(b.items[k].lines)
def kids = parentOf(msg) != "" && parentOf(msg) != k && old(in(parentOf(msg), b.items))
ghost key string = ""
ghost quits int = 0
on return tea.KeyPressMsg.String(e) (s) in tui.baseModel.handleMsg
  set key = s
on call value.context.CancelFunc(f) in tui.baseModel.handleMsg
  check [the work] f == b.cancel
  set quits = quits + 1
func tui.baseModel.handleMsg(b, msg) (handled, cmd)
  requires b != nil && wfItems(b.items) && quits == 0
  modifies elems(b.items), b.width, b.height, b.done, b.cancelled, allof(tui.itemState), allelems(string), key, quits
  ensures [items] wfItems(b.items)
  ensures [others kept] all(x, string, imp(old(in(x, b.items)) && !about(x) && !isClear, in(x, b.items) && b.items[x] == old(b.items[x])))
  ensures [others unchanged] all(x, string, imp(old(in(x, b.items)) && !about(x) && in(x, b.items), b.items[x].started == old(b.items[x].started) && b.items[x].done == old(b.items[x].done) && b.items[x].err == old(b.items[x].err) && b.items[x].lines == old(b.items[x].lines) && b.items[x].children == old(b.items[x].children)))
  ensures [unknown] all(x, string, imp(in(x, b.items) && !isRegister, old(in(x, b.items)) && b.items[x] == old(b.items[x])))
  // what each event does
  ensures [started] imp(isStart && old(in(k, b.items)), b.items[k].started && b.items[k].done == old(b.items[k].done) && b.items[k].err == old(b.items[k].err) && b.items[k].lines == old(b.items[k].lines) && b.items[k].children == old(b.items[k].children))
  ensures [ended] imp(isDone && old(in(k, b.items)), b.items[k].done && b.items[k].err == as(msg, tui.ItemDoneMsg).Err && b.items[k].started == old(b.items[k].started) && b.items[k].lines == old(b.items[k].lines) && b.items[k].children == old(b.items[k].children))
  ensures [output kept] imp(isOutput && old(in(k, b.items)), b.items[k].started == old(b.items[k].started) && b.items[k].done == old(b.items[k].done) && b.items[k].err == old(b.items[k].err) && b.items[k].children == old(b.items[k].children))
  ensures [how many] imp(isOutput && old(in(k, b.items)), shown == ite(b.maxLines > 0 && before + 1 > b.maxLines, b.maxLines, before + 1))
  ensures [last line] imp(isOutput && old(in(k, b.items)), b.items[k].lines[shown-1] == as(msg, tui.ItemOutputMsg).Line)
  ensures [earlier lines] imp(isOutput && old(in(k, b.items)), all(i, 0, shown - 1, b.items[k].lines[i] == old(b.items[k].lines[i + dropped])))
  ensures [registered] imp(isRegister && parentOf(msg) != k, in(k, b.items) && b.items[k].label == as(msg, tui.ItemRegisterMsg).Label && !b.items[k].started && !b.items[k].done && b.items[k].err == nil && len(b.items[k].lines) == 0 && len(b.items[k].children) == 0)
  ensures [added] imp(isRegister && kids, len(b.items[parentOf(msg)].lines) == 0 && len(b.items[parentOf(msg)].children) == old(len(b.items[parentOf(msg)].children)) + 1 && b.items[parentOf(msg)].children[old(len(b.items[parentOf(msg)].children))] == k)
  ensures [added last] imp(isRegister && kids, all(i, 0, old(len(b.items[parentOf(msg)].children)), b.items[parentOf(msg)].children[i] == old(b.items[parentOf(msg)].children[i])))
  ensures [parent kept] imp(isRegister && kids, b.items[parentOf(msg)].started == old(b.items[parentOf(msg)].started) && b.items[parentOf(msg)].done == old(b.items[parentOf(msg)].done) && b.items[parentOf(msg)].err == old(b.items[parentOf(msg)].err))
  ensures [cleared] imp(isClear && old(in(k, b.items)), len(old(b.items[k]).children) == 0 && all(i, 0, old(len(b.items[k].children)), !in(old(b.items[k].children[i]), b.items)))
  ensures [whole trees] imp(isClear, all(x, string, imp(old(in(x, b.items)) && !in(x, b.items), all(i, 0, old(len(b.items[x].children)), !in(old(b.items[x].children[i]), b.items)))))
  ensures [only trees] imp(isClear && old(closed(b.items)), all(x, string, imp(old(in(x, b.items)) && !in(x, b.items), old(in(k, b.items)) && ex(i, 0, old(len(b.items[k].children)), below(old(b.items[k].children[i]), x)))))
  ensures [size] b.width == ite(is(msg, tea.WindowSizeMsg), as(msg, tea.WindowSizeMsg).Width, old(b.width)) && b.height == ite(is(msg, tea.WindowSizeMsg), as(msg, tea.WindowSizeMsg).Height, old(b.height))
  ensures [end] b.done == (old(b.done) || is(msg, tui.AllDoneMsg))
  ensures [quit] ite(is(msg, tui.AllDoneMsg), cmd == tea.Quit, cmd == nil)
  ensures [cancelled] b.cancelled == (old(b.cancelled) || ctrlc)
  ensures [once] quits == ite(ctrlc && !old(b.cancelled) && b.cancel != nil, 1, 0)
  ensures [handled] handled == (isStart || isOutput || isDone || isRegister || isClear || is(msg, tui.AllDoneMsg) || is(msg, tea.WindowSizeMsg) || ctrlc)
  loop wfItems(b.items)
  loop all(x, string, imp(in(x, b.items), pre(in(x, b.items)) && b.items[x] == pre(b.items[x])))
  loop all(i, 0, $i, !in(pre(b.items[k].children[i]), b.items))
  loop imp(pre(closed(b.items)), all(x, string, imp(pre(in(x, b.items)) && !in(x, b.items), ex(i, 0, $i, below(pre(b.items[k].children[i]), x)))))
  loop all(x, string, imp(pre(in(x, b.items)) && !in(x, b.items), all(i, 0, pre(len(b.items[x].children)), !in(pre(b.items[x].children[i]), b.items))))
  nopanic

// the mark of an item says how it stands
ghost mark string = ""
ghost marks int = 0
on call lipgloss.Style.Render(st, t) in tui.statusIcon
  set mark = t[0]
  set marks = marks + 1
def standing(i, c) = ite(i.done, ite(i.err == nil, "✓", ite(errIs(i.err, context.Canceled), "⊘", "✗")), ite(c, "⊘", ite(i.started, "◦", "∙")))
func tui.statusIcon(item, cancelled) (s)
  requires item != nil
  ensures [mark] marks == old(marks) + 1 && mark == standing(item, cancelled)
  nopanic
  modifies mark, marks

axiom all(i, int, trig(atoi(strconv.Itoa(i)) == i, strconv.Itoa(i)))
func tui.newBaseModel(items, cancel, maxLines) (b)
  ensures [items] wfItems(b.items)
  ensures [roots] len(b.roots) == len(items) && all(i, 0, len(items), b.roots[i] == strconv.Itoa(i) && in(strconv.Itoa(i), b.items))
  ensures [named] all(i, 0, len(items), b.items[strconv.Itoa(i)].label == items[i].Label)
  ensures [fresh] all(i, 0, len(items), !b.items[strconv.Itoa(i)].started && !b.items[strconv.Itoa(i)].done && len(b.items[strconv.Itoa(i)].lines) == 0 && len(b.items[strconv.Itoa(i)].children) == 0)
  ensures [state] !b.done && !b.cancelled && b.cancel == cancel && b.maxLines == maxLines
  loop (sm new map[string]*tui.itemState) wfItems(sm)
  loop (sm new map[string]*tui.itemState) all(i, 0, $i, in(strconv.Itoa(i), sm))
  loop (sm new map[string]*tui.itemState) all(i, 0, $i, sm[strconv.Itoa(i)].label == items[i].Label)
  loop (sm new map[string]*tui.itemState) all(i, 0, $i, !sm[strconv.Itoa(i)].started && !sm[strconv.Itoa(i)].done && len(sm[strconv.Itoa(i)].lines) == 0 && len(sm[strconv.Itoa(i)].children) == 0)
  loop (rs new []string) all(i, 0, $i, rs[i] == strconv.Itoa(i))

// a tab with children shows each of them that is known, in order, with its mark, its name and its error or else its
// last line; one without, its lines
ghost local place int = 0
ghost local named int = 0
ghost local marked int = 0
ghost local why int = 0
def child = m.items[item.children[place]]
def known = in(item.children[place], m.items)
def broken = child.done && child.err != nil
on call tui.statusIcon(x, c) in tui.tabsModel.buildContent
  check [whose mark] place < len(item.children) && known && x == child && c == m.cancelled
  set marked = marked + 1
on call lipgloss.Style.Render(st, t) in tui.tabsModel.buildContent
  check [what is shown] len(item.children) == 0 || t[0] == child.label || broken && t[0] == errstr(child.err) || !broken && len(child.lines) > 0 && t[0] == child.lines[len(child.lines)-1]
  set why = why + ite(len(item.children) > 0 && broken && t[0] == errstr(child.err), 1, 0)
  set named = named + ite(len(item.children) > 0 && t[0] == child.label, 1, 0)
on back in tui.tabsModel.buildContent
  check [each child] ite(known, marked == 1 && named >= 1 && imp(broken, why >= 1), marked == 0)
  set place = place + 1
  set named = 0
  set marked = 0
  set why = 0
func tui.tabsModel.buildContent(m, item, width) (s)
  requires m != nil && item != nil && wfItems(m.items)
  ensures [every child] imp(len(item.children) > 0, place == len(item.children))
  ensures [lines] imp(len(item.children) == 0 && len(item.lines) > 0, s == strings.Join(item.lines, "\n"))
  modifies mark, marks
  loop place == $i && marked == 0 && named == 0 && why == 0
  nopanic

on call tui.tabsModel.buildContent(t, i, w) in tui.tabsModel.updateViewport
  check [active item] t == m && i == m.items[m.roots[m.activeTab]]
func tui.tabsModel.updateViewport(m)
  requires m != nil && wfItems(m.items)
  ensures [active] imp(len(m.roots) > 0, 0 <= m.activeTab && m.activeTab < len(m.roots))
  ensures [kept] imp(0 <= old(m.activeTab) && old(m.activeTab) < len(m.roots), m.activeTab == old(m.activeTab))
  modifies m.activeTab, m.viewport, mark, marks
  nopanic

// the models pass every event on once
ghost local passed int = 0
on call tui.baseModel.handleMsg(b, x) in tui.groupedModel.Update
  check [same event] x == msg
  set passed = passed + 1
func tui.groupedModel.Update(m, msg) (r, cmd)
  requires wfItems(m.items) && quits == 0
  ensures [state] is(r, tui.groupedModel) && as(r, tui.groupedModel).items == m.items && wfItems(m.items)
  ensures [passed on] passed == 1
  ensures [cancelled] as(r, tui.groupedModel).cancelled == (m.cancelled || ctrlc)
  ensures [end] as(r, tui.groupedModel).done == (m.done || is(msg, tui.AllDoneMsg)) && cmd == ite(is(msg, tui.AllDoneMsg), tea.Quit, nil)
  ensures [once] quits == ite(ctrlc && !m.cancelled && m.cancel != nil, 1, 0)
  modifies elems(m.items), allof(tui.itemState), allelems(string), key, quits

ghost tabkey string = ""
on return tea.KeyPressMsg.String(e) (s) in tui.tabsModel.Update
  set tabkey = s
on call tui.baseModel.handleMsg(b, x) in tui.tabsModel.Update
  check [same event] x == msg
  set passed = passed + 1
def before0 = old(m.activeTab)
def many = len(m.roots)
func tui.tabsModel.Update(m, msg) (r, cmd)
  requires m != nil && wfItems(m.items) && quits == 0 && imp(len(m.roots) > 0, 0 <= m.activeTab && m.activeTab < len(m.roots))
  ensures [active] imp(many > 0, 0 <= m.activeTab && m.activeTab < many)
  ensures [same tabs] many == old(many) && m.items == old(m.items) && wfItems(m.items)
  ensures [passed on] passed == 1 && is(r, *tui.tabsModel) && as(r, *tui.tabsModel) == m
  ensures [tab] imp(many > 0, m.activeTab == ite(is(msg, tea.KeyPressMsg) && !ctrlc && tabkey == "tab", ite(before0 + 1 == many, 0, before0 + 1), ite(is(msg, tea.KeyPressMsg) && !ctrlc && tabkey == "shift+tab", ite(before0 == 0, many - 1, before0 - 1), before0)))
  ensures [cancelled] m.cancelled == (old(m.cancelled) || ctrlc)
  ensures [end] m.done == (old(m.done) || is(msg, tui.AllDoneMsg)) && imp(is(msg, tui.AllDoneMsg), cmd == tea.Quit)
  ensures [once] quits == ite(ctrlc && !old(m.cancelled) && m.cancel != nil, 1, 0)
  modifies elems(m.items), m.baseModel, m.activeTab, m.viewport, allof(tui.itemState), allelems(string), key, tabkey, quits, mark, marks

// the grouped view: every root in order; every item with its own mark and its children in order
ghost local shownN int = 0
on call tui.groupedModel.renderItem(g, x, ind, d) in tui.groupedModel.View
  check [roots in order] shownN < len(m.roots) && x == m.roots[shownN] && g.items == m.items && g.cancelled == m.cancelled && d == 0
  set shownN = shownN + 1
func tui.groupedModel.View(m) (v)
  requires wfItems(m.items)
  ensures [every root] imp(!m.done, shownN == len(m.roots))
  modifies mark, marks
  loop shownN == $i

on call tui.statusIcon(x, c) in tui.groupedModel.renderItem
  check [own mark] x == m.items[key] && c == m.cancelled
on call tui.groupedModel.renderCompactLine(g, x, ind) in tui.groupedModel.renderItem
  check [own line] x == m.items[key] && g.cancelled == m.cancelled
on call tui.groupedModel.renderItem(g, x, ind, d) in tui.groupedModel.renderItem
  check [children in order] shownN < len(m.items[key].children) && x == m.items[key].children[shownN] && g.items == m.items && g.cancelled == m.cancelled && d > 0
  set shownN = shownN + 1
func tui.groupedModel.renderItem(m, key, indent, depth) (ls)
  requires wfItems(m.items) && depth >= 0
  ensures [every child] imp(in(key, m.items), shownN == len(m.items[key].children))
  modifies mark, marks
  loop shownN == $i

on call tui.statusIcon(x, c) in tui.groupedModel.renderCompactLine
  check [own mark] x == item && c == m.cancelled
on call lipgloss.Style.Render(st, t) in tui.groupedModel.renderCompactLine
  set named = named + ite(t[0] == item.label, 1, 0)
func tui.groupedModel.renderCompactLine(m, item, indent) (s)
  requires item != nil
  ensures [named] named >= 1
  modifies mark, marks

// the tabs: one for every root that is known, in order, with its mark and name
on call tui.statusIcon(x, c) in tui.tabsModel.renderView
  check [own mark] place < len(m.roots) && in(m.roots[place], m.items) && x == m.items[m.roots[place]] && c == m.cancelled
  set marked = marked + 1
on back in tui.tabsModel.renderView
  check [each tab] marked == ite(in(m.roots[place], m.items), 1, 0)
  set place = place + 1
  set marked = 0
func tui.tabsModel.renderView(m) (s)
  requires m != nil && wfItems(m.items) && imp(len(m.roots) > 0, 0 <= m.activeTab && m.activeTab < len(m.roots))
  ensures [every tab] place == len(m.roots)
  modifies mark, marks
  loop place == $i && marked == 0
  nopanic

func tui.NewTabsModel(items, cancel) (r)
  ensures [state] is(r, *tui.tabsModel) && as(r, *tui.tabsModel) != nil && wfItems(as(r, *tui.tabsModel).items) && as(r, *tui.tabsModel).cancel == cancel && !as(r, *tui.tabsModel).cancelled && len(as(r, *tui.tabsModel).roots) == len(items) && as(r, *tui.tabsModel).activeTab == 0 && as(r, *tui.tabsModel).maxLines == 0
func tui.NewGroupedModel(items, cancel) (r)
  ensures [state] is(r, tui.groupedModel) && wfItems(as(r, tui.groupedModel).items) && as(r, tui.groupedModel).cancel == cancel && !as(r, tui.groupedModel).cancelled && len(as(r, tui.groupedModel).roots) == len(items) && as(r, tui.groupedModel).maxLines > 0
