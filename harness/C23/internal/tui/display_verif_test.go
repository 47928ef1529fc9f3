package tui_test

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	tea "charm.land/bubbletea/v2"
	"charm.land/lipgloss/v2"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/verifh"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;:]*m")

// what the display should know
type it struct {
	label         string
	lines         []string
	started, done bool
	err           error
	kids          []string
}

type model struct {
	items     map[string]*it
	roots     []string
	cancelled bool
	limit     int
}

func (m *model) icon(x *it) string {
	switch {
	case x.done && x.err != nil && errors.Is(x.err, context.Canceled):
		return "⊘"
	case x.done && x.err != nil:
		return "✗"
	case x.done:
		return "✓"
	case m.cancelled:
		return "⊘"
	case !x.started:
		return "∙"
	}
	return "◦"
}

func (m *model) remove(k string) {
	if x := m.items[k]; x != nil {
		for _, c := range x.kids {
			m.remove(c)
		}
	}
	delete(m.items, k)
}

func (m *model) apply(msg tea.Msg) {
	switch e := msg.(type) {
	case tui.ItemRegisterMsg:
		m.items[e.Key] = &it{label: e.Label}
		if p := m.items[e.Parent]; e.Parent != "" && p != nil {
			p.kids = append(p.kids, e.Key)
			p.lines = nil
		}
	case tui.ItemStartMsg:
		if x := m.items[e.Key]; x != nil {
			x.started = true
		}
	case tui.ItemOutputMsg:
		if x := m.items[e.Key]; x != nil {
			x.lines = append(x.lines, e.Line)
		}
	case tui.ItemDoneMsg:
		if x := m.items[e.Key]; x != nil {
			x.done, x.err = true, e.Err
		}
	case tui.ItemClearChildrenMsg:
		if x := m.items[e.Key]; x != nil {
			for _, c := range x.kids {
				m.remove(c)
			}
			x.kids = nil
		}
	}
}

// compact: the allowed forms of a child's line
func (m *model) compact(x *it) []string {
	b := m.icon(x) + " " + x.label
	o := []string{b}
	if m.cancelled && !x.done { // a child's mark is redrawn with its next event
		c := m.cancelled
		m.cancelled = false
		o = append(o, m.compact(x)...)
		m.cancelled = c
	}
	if x.err != nil {
		o = append(o, b+"  "+x.err.Error())
	}
	for i := len(x.lines) - 1; i >= 0; i-- {
		if strings.TrimSpace(x.lines[i]) != "" {
			for _, y := range o {
				o = append(o, y+"  "+x.lines[i])
			}
			break
		}
	}
	return o
}

func trim(s string) string { return strings.TrimRight(s, " ") }

func oneOf(got string, want []string) bool {
	for _, w := range want {
		if trim(got) == trim(w) {
			return true
		}
	}
	return false
}

// grouped compares the grouped view with the model.
func (m *model) grouped(view string) string {
	ls := strings.Split(ansi.ReplaceAllString(view, ""), "\n")
	pos := 0
	next := func() string {
		if pos < len(ls) {
			pos++
			return ls[pos-1]
		}
		return "<end of view>"
	}
	var child func(k, ind string) string
	child = func(k, ind string) string {
		x := m.items[k]
		if x == nil {
			return ""
		}
		l := next()
		if !strings.HasPrefix(l, ind) || !oneOf(strings.TrimPrefix(l, ind), m.compact(x)) {
			return fmt.Sprintf("the line %q does not show the state %q", l, m.compact(x))
		}
		for _, c := range x.kids {
			if e := child(c, ind+"  "); e != "" {
				return e
			}
		}
		return ""
	}
	for _, k := range m.roots {
		x := m.items[k]
		if x == nil {
			continue
		}
		if l := next(); trim(l) != "┌─ "+x.label+" "+m.icon(x) {
			return fmt.Sprintf("the title %q does not show %q %s", l, x.label, m.icon(x))
		}
		if len(x.kids) > 0 {
			for _, c := range x.kids {
				if e := child(c, "│  "); e != "" {
					return e
				}
			}
			if l := next(); trim(l) != "└" {
				return fmt.Sprintf("unexpected line %q", l)
			}
			continue
		}
		var got []string
		l := next()
		for ; strings.HasPrefix(l, "│"); l = next() {
			got = append(got, trim(strings.TrimPrefix(strings.TrimPrefix(l, "│"), "  ")))
		}
		if trim(l) != "└" {
			return fmt.Sprintf("unexpected line %q", l)
		}
		want := x.lines
		if m.limit > 0 && len(want) > m.limit {
			want = want[len(want)-m.limit:]
		}
		for i, w := range want {
			if i >= len(got) || got[i] != trim(w) {
				return fmt.Sprintf("item %q shows %q, its latest output is %q", x.label, got, want)
			}
		}
		for _, g := range got[len(want):] {
			if g != "" {
				return fmt.Sprintf("item %q shows %q, its latest output is %q", x.label, got, want)
			}
		}
	}
	if pos < len(ls) && strings.TrimSpace(strings.Join(ls[pos:], "")) != "" {
		return fmt.Sprintf("unexpected lines %q", ls[pos:])
	}
	return ""
}

// tabs compares the tabbed view with the model; returns the active tab.
func (m *model) tabs(view string, active int) string {
	ls := strings.Split(ansi.ReplaceAllString(view, ""), "\n")
	if len(ls) < 4 {
		return "no tabs in the view"
	}
	// the row of labels
	var want []string
	for _, k := range m.roots {
		if x := m.items[k]; x != nil {
			want = append(want, m.icon(x)+" "+x.label)
		}
	}
	var got []string
	for _, c := range strings.Split(ls[1], "│") {
		if c = strings.TrimSpace(c); c != "" {
			got = append(got, c)
		}
	}
	if strings.Join(got, "|") != strings.Join(want, "|") {
		return fmt.Sprintf("the tabs show %q, the items are %q", got, want)
	}
	// the active tab is open at the bottom: "┘   └", one of them
	open := -1
	n := 0
	rs := []rune(ls[2])
	col := []rune(ls[1])
	tab := -1
	inTab := false
	for i := range col {
		if col[i] == '│' {
			if !inTab {
				tab++
			}
			inTab = !inTab
			continue
		}
		if inTab && i < len(rs) && rs[i] == ' ' && i > 0 && col[i-1] == '│' {
			open = tab
			n++
		}
	}
	if n != 1 || open != active {
		return fmt.Sprintf("the open tab is %d (of %d open), it should be %d", open, n, active)
	}
	var body []string
	for _, l := range ls[3:] {
		if strings.HasPrefix(l, "│") {
			body = append(body, trim(strings.TrimSuffix(strings.TrimPrefix(trim(l), "│"), "│")))
		}
	}
	for len(body) > 0 && body[len(body)-1] == "" {
		body = body[:len(body)-1]
	}
	x := m.items[m.roots[active]]
	if len(x.kids) > 0 {
		i := 0
		for _, c := range x.kids {
			if y := m.items[c]; y != nil {
				if i >= len(body) || !oneOf(body[i], m.compact(y)) {
					return fmt.Sprintf("the tab shows %q, not the child %q", body, m.compact(y))
				}
				i++
			}
		}
		if i != len(body) {
			return fmt.Sprintf("the tab shows more than its children: %q", body)
		}
		return ""
	}
	if len(x.lines) == 0 {
		if len(body) == 1 && strings.HasSuffix(body[0], "…") || len(body) == 0 {
			return ""
		}
		return fmt.Sprintf("the tab shows %q, the item has no output", body)
	}
	var w []string
	for _, l := range x.lines {
		w = append(w, trim(l))
	}
	for len(w) > 0 && w[len(w)-1] == "" {
		w = w[:len(w)-1]
	}
	if strings.Join(body, "\n") != strings.Join(w, "\n") {
		return fmt.Sprintf("the tab shows %q, the item's output is %q", body, w)
	}
	return ""
}

func TestVerifDisplay(t *testing.T) {
	r := verifh.New("2-5 items, a random history of register, start, output, done, clear, key and size events, also for unknown items; both displays judged after every event; distinct histories")
	defer r.Done()
	for i := 0; i < verifh.N(800, 15000) && r.Violations() < 4; i++ {
		n := 1 + r.Intn(5)
		var items []tui.ParallelItem
		tabs := i%2 == 0
		m := &model{items: map[string]*it{}}
		if !tabs {
			m.limit = 5
		}
		for j := 0; j < n; j++ {
			l := fmt.Sprintf("item%d", r.Intn(3)*10+j)
			items = append(items, tui.ParallelItem{Label: l, Color: lipgloss.Color(fmt.Sprint(j + 1))})
			k := fmt.Sprint(j)
			m.roots = append(m.roots, k)
			m.items[k] = &it{label: l}
		}
		cancels := 0
		var d tea.Model
		if tabs {
			d = tui.NewTabsModel(items, func() { cancels++ })
		} else {
			d = tui.NewGroupedModel(items, func() { cancels++ })
		}
		d, _ = d.Update(tea.WindowSizeMsg{Width: 110, Height: 72})
		keys := []string{"0", "1", "2", "3", "4", "0.0", "0.1", "0.2", "1.0", "1.1", "2.0", "0.0.0", "0.0.1", "1.1.0", "zz"}
		parent := map[string]string{"0.0": "0", "0.1": "0", "0.2": "0", "1.0": "1", "1.1": "1", "2.0": "2", "0.0.0": "0.0", "0.0.1": "0.0", "1.1.0": "1.1", "zz": ""}
		var hist []string
		active, pressed := 0, 0
		for s := r.Intn(60); s > 0; s-- {
			k := keys[r.Intn(len(keys))]
			var msg tea.Msg
			switch r.Intn(14) {
			case 0, 1, 2:
				k = keys[5+r.Intn(10)]
				if m.items[k] != nil || parent[k] != "" && m.items[parent[k]] == nil && r.Intn(5) > 0 {
					continue
				}
				e := tui.ItemRegisterMsg{Key: k, Parent: parent[k], Label: fmt.Sprintf("sub%s-%d", k, len(hist)), Color: lipgloss.Color("3")}
				if x := m.items[parent[k]]; x != nil && contains(x.kids, k) {
					continue
				}
				msg = e
				hist = append(hist, "register "+k+" under "+parent[k])
			case 3, 4:
				msg = tui.ItemStartMsg{Key: k}
				hist = append(hist, "start "+k)
			case 5, 6, 7, 8:
				l := fmt.Sprintf("out %s #%d", k, len(hist))
				if r.Intn(6) == 0 {
					l = []string{"", "   ", "  indented"}[r.Intn(3)]
				}
				msg = tui.ItemOutputMsg{Key: k, Line: l}
				hist = append(hist, fmt.Sprintf("output %s %q", k, l))
			case 9, 10:
				var err error
				switch r.Intn(4) {
				case 0:
					err = errors.New("exit status 3")
				case 1:
					err = fmt.Errorf("task x: %w", context.Canceled)
				}
				msg = tui.ItemDoneMsg{Key: k, Err: err}
				hist = append(hist, fmt.Sprintf("done %s %v", k, err))
			case 11:
				msg = tui.ItemClearChildrenMsg{Key: k}
				hist = append(hist, "clear children of "+k)
			case 12:
				if tabs && r.Intn(2) == 0 {
					msg = tea.KeyPressMsg{Code: tea.KeyTab}
					active = (active + 1) % n
					hist = append(hist, "tab")
				} else if tabs {
					msg = tea.KeyPressMsg{Code: tea.KeyTab, Mod: tea.ModShift}
					active = (active - 1 + n) % n
					hist = append(hist, "shift+tab")
				} else {
					msg = tea.KeyPressMsg{Code: 'x', Text: "x"}
					hist = append(hist, "x")
				}
			default:
				if r.Intn(4) == 0 {
					msg = tea.KeyPressMsg{Code: 'c', Mod: tea.ModCtrl}
					m.cancelled = true
					pressed++
					hist = append(hist, "ctrl+c")
				} else {
					msg = tea.WindowSizeMsg{Width: 110 + r.Intn(30), Height: 72 + r.Intn(10)}
					hist = append(hist, "size")
				}
			}
			m.apply(msg)
			bad := ""
			view := ""
			func() {
				defer func() {
					if p := recover(); p != nil {
						bad = fmt.Sprintf("the display failed: %v", p)
					}
				}()
				d, _ = d.Update(msg)
				view = d.View().Content
			}()
			if bad == "" && tabs {
				bad = m.tabs(view, active)
			} else if bad == "" {
				bad = m.grouped(view)
			}
			if bad == "" && cancels != min(pressed, 1) {
				bad = fmt.Sprintf("ctrl+c pressed %d times, cancelled %d times", pressed, cancels)
			}
			if bad != "" {
				r.Violation("display", bad, map[string]any{"tabs": tabs, "items": n, "history": hist, "view": ansi.ReplaceAllString(view, "")})
				break
			}
		}
		r.Case(fmt.Sprint(tabs, n, hist))
		// sizes however small do not break it
		for s := 0; s < 6; s++ {
			w, h := r.Intn(12)-1, r.Intn(8)-1
			func() {
				defer func() {
					if p := recover(); p != nil {
						r.Violation("panic", fmt.Sprintf("the display failed: %v", p), map[string]any{"tabs": tabs, "history": hist, "width": w, "height": h})
					}
				}()
				d, _ = d.Update(tea.WindowSizeMsg{Width: w, Height: h})
				_ = d.View()
				if tabs {
					d, _ = d.Update(tea.KeyPressMsg{Code: tea.KeyTab})
					_ = d.View()
				}
			}()
		}
	}
}

func contains(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}
