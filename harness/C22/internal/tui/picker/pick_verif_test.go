package picker_test

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/tui/picker"
	"github.com/bab-sh/bab/internal/verifh"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;:]*m")
var countRe = regexp.MustCompile(` (\d+)/(\d+) `)

type screen struct {
	lines  []string // names shown
	marked int      // index of the highlighted line, -1 for none
	marks  int
	count  int
	total  int
}

func read(m tea.Model) (screen, error) {
	s := screen{marked: -1}
	text := ansi.ReplaceAllString(m.View().Content, "")
	ls := strings.Split(text, "\n")
	at := -1
	for i, l := range ls {
		if strings.Contains(l, " bab.sh ") {
			if c := countRe.FindStringSubmatch(l); c != nil {
				s.count, _ = strconv.Atoi(c[1])
				s.total, _ = strconv.Atoi(c[2])
				at = i
			}
		}
	}
	if at < 0 {
		return s, fmt.Errorf("no count line in the view")
	}
	for _, l := range ls[at+1:] {
		if strings.TrimSpace(l) == "" || strings.Contains(l, "No matching tasks") {
			continue
		}
		rs := []rune(l)
		if string(rs[:2]) == "│ " {
			s.marked = len(s.lines)
			s.marks++
		} else if string(rs[:2]) != "  " {
			return s, fmt.Errorf("cannot read the line %q", l)
		}
		s.lines = append(s.lines, strings.SplitN(string(rs[2:]), " ", 2)[0])
	}
	return s, nil
}

func key(code rune, mod tea.KeyMod) tea.Msg { return tea.KeyPressMsg{Code: code, Mod: mod} }

type sel interface{ Selected() *babfile.Task }

func TestVerifPick(t *testing.T) {
	r := verifh.New("a random table of tasks with aliases and descriptions; a random history of keys, typed and pasted text and window sizes; judged after every event; distinct histories")
	defer r.Done()
	words := []string{"build", "test", "a", "ab", "abc", "deploy", "x", "lint:go", "lint:js", "b:c", "serve", "été", "日本", "Build", "run-all", "q"}
	for i := 0; i < verifh.N(1500, 20000) && r.Violations() < 4; i++ {
		tasks := babfile.TaskMap{}
		for n := r.Intn(14); n > 0; n-- {
			nm := words[r.Intn(len(words))]
			if r.Intn(3) == 0 {
				nm += ":" + words[r.Intn(len(words))]
			}
			tk := &babfile.Task{Name: nm}
			if r.Intn(3) == 0 {
				tk.Alias = words[r.Intn(len(words))] + "!"
			}
			if r.Intn(4) == 0 {
				tk.Aliases = []string{words[r.Intn(len(words))] + "?", "zz" + strconv.Itoa(n)}
			}
			if r.Intn(3) == 0 {
				tk.Desc = "about " + words[r.Intn(len(words))]
			}
			tasks[nm] = tk
		}
		var m tea.Model = picker.New(tasks)
		height := 20
		var hist []string
		typed := false
		steps := r.Intn(40)
		for s := -1; s < steps; s++ {
			if s >= 0 {
				var msg tea.Msg
				d := ""
				switch r.Intn(16) {
				case 0, 1, 2, 3:
					msg, d = key(tea.KeyDown, 0), "down"
				case 4, 5:
					msg, d = key(tea.KeyUp, 0), "up"
				case 6:
					msg, d = key('p', tea.ModCtrl), "ctrl+p"
				case 7:
					msg, d = key('n', tea.ModCtrl), "ctrl+n"
				case 8:
					h := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 24, -1}[r.Intn(12)]
					w := []int{80, 0, 1, 5, 20, 200}[r.Intn(6)]
					msg, d = tea.WindowSizeMsg{Width: w, Height: h}, fmt.Sprintf("size %dx%d", w, h)
					height = h
				case 9:
					msg, d = key('u', tea.ModCtrl), "ctrl+u"
					typed = false
				case 10, 11:
					msg, d = key(tea.KeyBackspace, 0), "backspace"
				case 12:
					p := words[r.Intn(len(words))]
					msg, d = tea.PasteMsg{Content: p}, "paste "+p
					typed = true
				case 13:
					k := []rune{tea.KeyLeft, tea.KeyRight, tea.KeyHome, tea.KeyEnd, tea.KeyDelete, tea.KeyTab, tea.KeyPgDown, tea.KeyPgUp}[r.Intn(8)]
					msg, d = key(k, 0), "key "+tea.Key{Code: k}.String()
				default:
					c := []rune("abcdeilnorstuxyz:B é日q! ")
					x := c[r.Intn(len(c))]
					msg, d = tea.KeyPressMsg{Code: x, Text: string(x)}, "type "+string(x)
					typed = true
				}
				hist = append(hist, d)
				func() {
					defer func() {
						if p := recover(); p != nil {
							r.Violation("panic", fmt.Sprintf("the picker failed: %v", p), map[string]any{"tasks": names(tasks), "history": hist})
							m = nil
						}
					}()
					m, _ = m.Update(msg)
				}()
				if m == nil {
					break
				}
			}
			if !check(r, m, tasks, hist, height, typed) {
				break
			}
		}
		r.Case(strings.Join(names(tasks), " ") + "|" + strings.Join(hist, ","))
	}
}

func names(t babfile.TaskMap) []string {
	var l []string
	for n, x := range t {
		l = append(l, n+fmt.Sprint(x.GetAllAliases()))
	}
	return l
}

func check(r *verifh.R, m tea.Model, tasks babfile.TaskMap, hist []string, height int, typed bool) (ok bool) {
	det := map[string]any{"tasks": names(tasks), "history": hist}
	defer func() {
		if p := recover(); p != nil {
			r.Violation("panic", fmt.Sprintf("the picker failed: %v", p), det)
			ok = false
		}
	}()
	s, err := read(m)
	det["shown"], det["view"] = s.lines, ansi.ReplaceAllString(m.View().Content, "")
	bad := func(k, w string) bool {
		r.Violation(k, w, det)
		return false
	}
	if err != nil {
		return bad("view", err.Error())
	}
	if s.count == 0 {
		if len(s.lines) > 0 {
			return bad("rows", "tasks are shown though none is listed")
		}
	} else {
		if s.marks != 1 {
			return bad("highlight", fmt.Sprintf("%d lines are highlighted", s.marks))
		}
		if len(s.lines) > max(1, height-4) {
			return bad("window", "more lines than the window has")
		}
	}
	if !typed && s.count != len(tasks) {
		return bad("all", fmt.Sprintf("%d of %d tasks listed with an empty query", s.count, len(tasks)))
	}
	if s.total != len(tasks) {
		return bad("total", "the number of tasks is wrong")
	}
	// enter selects exactly what is highlighted, leaving selects nothing
	e, _ := m.Update(key(tea.KeyEnter, 0))
	got := e.(sel).Selected()
	if s.count == 0 && got != nil {
		return bad("enter", "enter selected "+got.Name+" though nothing is listed")
	}
	if s.count > 0 {
		if got == nil {
			return bad("enter", "enter selected nothing")
		}
		if got != tasks[got.Name] || got.Name != s.lines[s.marked] {
			return bad("enter", fmt.Sprintf("enter selected %s, highlighted is %s", got.Name, s.lines[s.marked]))
		}
	}
	for _, k := range []tea.Msg{key(tea.KeyEscape, 0), key('c', tea.ModCtrl)} {
		x, cmd := m.Update(k)
		if x.(sel).Selected() != nil {
			return bad("leave", "leaving selected a task")
		}
		if cmd == nil {
			return bad("leave", "leaving does not end the picker")
		}
	}
	// every listed task can be reached, each once
	if r.Intn(6) == 0 && s.count > 0 {
		c := m
		for i := 0; i < s.count; i++ {
			c, _ = c.Update(key(tea.KeyUp, 0))
		}
		seen := map[string]bool{}
		for i := 0; i < s.count; i++ {
			x, err := read(c)
			if err != nil || x.marks != 1 {
				return bad("highlight", "no single highlighted line while moving")
			}
			n := x.lines[x.marked]
			if seen[n] {
				return bad("twice", n+" is listed twice")
			}
			if tasks[n] == nil {
				return bad("unknown", n+" is no task")
			}
			seen[n] = true
			c, _ = c.Update(key(tea.KeyDown, 0))
		}
	}
	return true
}
