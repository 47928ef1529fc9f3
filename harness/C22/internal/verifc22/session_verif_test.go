package verifc22

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifSession: bab without arguments on a terminal; what runs is what was highlighted.
func TestVerifSession(t *testing.T) {
	r := verifh.New("bab on a terminal, random keys, then enter or escape; what ran against what was highlighted; distinct sessions")
	defer r.Done()
	if _, err := verifh.Bab(); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat("/dev/ptmx"); err != nil {
		fmt.Println("NOTE: no terminals here")
		return
	}
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	names := []string{"alpha", "beta", "gamma", "delta", "eps:one", "eps:two", "zeta"}
	begin := time.Now()
	type job struct {
		down, up int
		text     string
		end      string
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	once := func(j job) (key, what string, det map[string]any) {
		dir, err := os.MkdirTemp(root, "s")
		if err != nil {
			return "", "", nil
		}
		defer os.RemoveAll(dir)
		var b strings.Builder
		b.WriteString("tasks:\n")
		for i := len(names) - 1; i >= 0; i-- {
			fmt.Fprintf(&b, "  %s:\n    run:\n      - cmd: printf '%s' >> ran\n", names[i], names[i])
		}
		os.WriteFile(filepath.Join(dir, "Babfile"), []byte(b.String()), 0o644)
		s, err := verifh.Terminal(dir, []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "BAB_NO_UPDATE_CHECK=1"})
		if err != nil {
			fmt.Println("NOTE: no terminal:", err)
			return "", "", nil
		}
		defer s.Close()
		r.Case(fmt.Sprint(j))
		det = map[string]any{"down": j.down, "up": j.up, "typed": j.text, "end": j.end}
		if !s.Expect(func() bool { return strings.Contains(s.Text(), "zeta") }, 30*time.Second) {
			return "start", "the picker did not appear", det
		}
		s.Settle(60 * time.Millisecond)
		s.Send(j.text)
		s.Send(strings.Repeat("\x1b[B", j.down) + strings.Repeat("\x1b[A", j.up))
		s.Settle(150 * time.Millisecond)
		// which task is highlighted: by the rules of the list
		list := []string{"alpha", "beta", "delta", "eps:one", "eps:two", "gamma", "zeta"}
		switch j.text {
		case "eps":
			list = []string{"eps:one", "eps:two"}
		case "qqq":
			list = nil
		case "zeta":
			list = []string{"zeta"}
		}
		cur := max(0, min(j.down, len(list)-1)-j.up)
		want := ""
		if j.end == "\r" && len(list) > 0 {
			want = list[cur]
		}
		for again := 0; again < 6 && !s.Ended(0); again++ {
			s.Send(j.end)
			s.Ended(5 * time.Second)
		}
		if !s.Ended(0) {
			det["screen"] = s.Text()
			return "end", "the session does not end", det
		}
		got, _ := os.ReadFile(filepath.Join(dir, "ran"))
		det["ran"], det["want"], det["status"] = string(got), want, s.Code
		if string(got) != want || s.Code != 0 {
			return "ran", "what ran is not what was highlighted", det
		}
		return "", "", nil
	}
	run := func(j job) {
		key, what, det := once(j)
		for again := 0; again < 2 && what != ""; again++ { // only what fails every time counts
			key, what, det = once(j)
		}
		if what != "" {
			r.Violation(key, what, det)
		}
	}
	for w := 0; w < 12; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				run(j)
			}
		}()
	}
	for i := 0; i < verifh.N(100, 1000) && r.Violations() < 3 && time.Since(begin) < time.Duration(verifh.N(60, 300))*time.Second; i++ {
		jobs <- job{r.Intn(9), r.Intn(3), []string{"", "", "eps", "qqq", "zeta"}[r.Intn(5)], []string{"\r", "\r", "\r", "\x1b", "\x03"}[r.Intn(5)]}
	}
	close(jobs)
	wg.Wait()
}
