package runner_test

import (
	"bytes"
	"fmt"
	"image/color"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	tea "charm.land/bubbletea/v2"
	"github.com/bab-sh/bab/internal/runner"
	"github.com/bab-sh/bab/internal/tui"
	"github.com/bab-sh/bab/internal/verifh"
)

var col = color.RGBA{1, 2, 3, 255}

// words are pieces of printable text, so that sanitising (C15) does not interfere.
func text(r *verifh.R) (string, []string) {
	var b strings.Builder
	var lines []string
	n := r.Intn(8)
	for i := 0; i < n; i++ {
		l := ""
		for k := r.Intn(4); k > 0; k-- {
			l += verifh.Pick(r, "a", "é", "日本", "word ", " ", "%d", "[x] ", "\t", strings.Repeat("z", r.Intn(300)), "😀")
		}
		last := i == n-1 && r.Intn(2) == 0
		b.WriteString(l)
		if !last {
			b.WriteString(verifh.Pick(r, "\n", "\n", "\r\n"))
		} else if l == "" {
			break
		}
		lines = append(lines, l)
	}
	return b.String(), lines
}

func chunks(r *verifh.R, s string) [][]byte {
	var o [][]byte
	for len(s) > 0 {
		n := 1 + r.Intn(verifh.Pick(r, 2, 5, 60, 500))
		if n > len(s) {
			n = len(s)
		}
		o = append(o, []byte(s[:n]))
		s = s[n:]
		if r.Intn(6) == 0 {
			o = append(o, nil)
		}
	}
	return o
}

// TestVerifPrefixWriter: whatever the pieces, the lines shown are the lines written.
func TestVerifPrefixWriter(t *testing.T) {
	r := verifh.New("a random text of several lines cut into random pieces; distinct (text, pieces)")
	defer r.Done()
	for i := 0; i < verifh.N(20000, 400000); i++ {
		s, lines := text(r)
		cs := chunks(r, s)
		var out bytes.Buffer
		var mu sync.Mutex
		w := runner.NewPrefixWriter("lab", 5, col, &out, &mu, r.Intn(2) == 0)
		var sizes []int
		for _, c := range cs {
			buf := append([]byte{}, c...)
			n, err := w.Write(buf)
			for k := range buf {
				buf[k] = '#' // a writer must not keep the caller's buffer
			}
			sizes = append(sizes, len(c))
			if err != nil || n != len(c) {
				r.Violation("write", fmt.Sprintf("Write of %d bytes returned %d, %v", len(c), n, err), map[string]any{"text": s, "pieces": sizes})
			}
		}
		_ = w.Flush()
		_ = w.Flush()
		key := ""
		if len(lines) > 0 {
			key = fmt.Sprint(s, sizes)
		}
		r.Case(key)
		var want strings.Builder
		for _, l := range lines {
			want.WriteString("[lab  ] " + l + "\n")
		}
		if got := stripPrefixColour(out.String()); got != want.String() {
			r.Violation("lines", fmt.Sprintf("text %q in pieces %v is shown as %q, want %q", s, sizes, got, want.String()), map[string]any{"text": s, "pieces": sizes})
		}
		if r.Violations() > 3 {
			return
		}
	}
}

func stripPrefixColour(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// TestVerifConcurrent: several items write at the same time to one destination.
func TestVerifConcurrent(t *testing.T) {
	r := verifh.New("several items writing random texts concurrently through one lock to one destination; distinct texts")
	defer r.Done()
	for i := 0; i < verifh.N(300, 6000); i++ {
		var out slow
		var mu sync.Mutex
		n := 2 + r.Intn(4)
		want := make([][]string, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			s, lines := text(r)
			for len(lines) < 3 {
				s, lines = text(r)
			}
			want[k] = lines
			cs := chunks(r, s)
			w := runner.NewPrefixWriter(fmt.Sprintf("item%d", k), 5, col, &out, &mu, true)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, c := range cs {
					_, _ = w.Write(c)
				}
				_ = w.Flush()
			}()
		}
		wg.Wait()
		got := make([][]string, n)
		for _, l := range strings.Split(strings.TrimSuffix(stripPrefixColour(out.String()), "\n"), "\n") {
			ok := false
			for k := 0; k < n; k++ {
				if p := fmt.Sprintf("[item%d] ", k); strings.HasPrefix(l, p) {
					got[k] = append(got[k], l[len(p):])
					ok = true
				}
			}
			if !ok {
				r.Violation("mix", fmt.Sprintf("line %q belongs to no item", l), nil)
			}
		}
		r.Case(fmt.Sprint(want))
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Violation("lines", fmt.Sprintf("lines shown %q, want %q", got, want), nil)
			return
		}
	}
}

// slow is a destination that is not safe for unlocked concurrent use and passes
// bytes on one by one, so that unlocked writes interleave.
type slow struct{ b []byte }

func (s *slow) Write(p []byte) (int, error) {
	for _, c := range p {
		s.b = append(s.b, c)
		if len(s.b)%7 == 0 {
			time.Sleep(time.Microsecond)
		}
	}
	return len(p), nil
}
func (s *slow) String() string { return string(s.b) }

type collect struct{ lines *[]string }

func (c collect) Init() tea.Cmd { return nil }
func (c collect) Update(m tea.Msg) (tea.Model, tea.Cmd) {
	switch v := m.(type) {
	case tui.ItemOutputMsg:
		*c.lines = append(*c.lines, v.Key+"\x00"+v.Line)
	case tui.AllDoneMsg:
		return c, tea.Quit
	}
	return c, nil
}
func (c collect) View() tea.View { return tea.NewView("") }

// TestVerifKeyLineWriter: the same for the writer that feeds the parallel display.
func TestVerifKeyLineWriter(t *testing.T) {
	r := verifh.New("a random text cut into random pieces sent through the display's line writer; distinct (text, pieces)")
	defer r.Done()
	for i := 0; i < verifh.N(400, 8000); i++ {
		var lines []string
		p := tea.NewProgram(collect{&lines}, tea.WithoutRenderer(), tea.WithInput(nil), tea.WithOutput(&bytes.Buffer{}), tea.WithoutSignalHandler())
		done := make(chan error, 1)
		go func() { _, err := p.Run(); done <- err }()
		s, want := text(r)
		w := runner.NewKeyLineWriter("0.1", p, r.Intn(2) == 0)
		for _, c := range chunks(r, s) {
			_, _ = w.Write(c)
		}
		w.Flush()
		w.Flush()
		p.Send(tui.AllDoneMsg{})
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fatal("the display did not end")
		}
		key := ""
		if len(want) > 0 {
			key = s
		}
		r.Case(key)
		var exp []string
		for _, l := range want {
			exp = append(exp, "0.1\x00"+l)
		}
		if strings.Join(exp, "\n") != strings.Join(lines, "\n") {
			r.Violation("tuilines", fmt.Sprintf("text %q is sent as %q", s, lines), map[string]any{"text": s})
			return
		}
	}
}

// TestVerifBlock: a parallel block of the real binary with commands that write in pieces.
func TestVerifBlock(t *testing.T) {
	r := verifh.New("a parallel block whose items print numbered lines in pieces; distinct blocks")
	defer r.Done()
	for i := 0; i < verifh.N(40, 600); i++ {
		root := verifh.Scratch()
		n := 2 + r.Intn(4)
		var b strings.Builder
		b.WriteString("tasks:\n  t:\n    run:\n      - parallel:\n")
		want := make([][]string, n)
		for k := 0; k < n; k++ {
			var cmd strings.Builder
			m := 5 + r.Intn(30)
			for j := 0; j < m; j++ {
				l := fmt.Sprintf("i%dl%d %s.", k, j, strings.Repeat("x", r.Intn(200)))
				want[k] = append(want[k], l)
				cut := r.Intn(len(l))
				end := "\\n"
				if j == m-1 && r.Intn(2) == 0 {
					end = ""
				}
				fmt.Fprintf(&cmd, "printf '%s'; printf '%s%s'; ", l[:cut], l[cut:], end)
			}
			fmt.Fprintf(&b, "          - cmd: %q\n            label: L%d\n            silent: true\n", cmd.String(), k)
		}
		if err := os.WriteFile(root+"/Babfile", []byte(b.String()), 0o644); err != nil {
			t.Fatal(err)
		}
		o, err := verifh.RunBab(root, []string{"PATH=" + os.Getenv("PATH"), "HOME=" + root, "BAB_NO_UPDATE_CHECK=1"}, "t")
		if err != nil {
			t.Fatal(err)
		}
		got := make([][]string, n)
		for _, l := range strings.Split(strings.TrimSuffix(stripPrefixColour(o.Stdout), "\n"), "\n") {
			ok := false
			for k := 0; k < n; k++ {
				if p := fmt.Sprintf("[L%d] ", k); strings.HasPrefix(l, p) {
					got[k] = append(got[k], l[len(p):])
					ok = true
				}
			}
			if !ok {
				r.Violation("mix", fmt.Sprintf("line %q belongs to no item", l), map[string]any{"babfile": b.String()})
			}
		}
		r.Case(b.String())
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Violation("lines", "the lines shown for the items of a parallel block are not the lines written", map[string]any{"babfile": b.String(), "got": got})
		}
		os.RemoveAll(root)
		if r.Violations() > 2 {
			return
		}
	}
}
