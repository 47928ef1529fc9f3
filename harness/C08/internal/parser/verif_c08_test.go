package parser_test

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifIncludes: random include graphs (self includes, cycles, diamonds,
// broken and missing files, name clashes) are loaded and compared with a direct
// expansion of the graph.
func TestVerifIncludes(t *testing.T) {
	r := verifh.New("a random include graph with at least one include; distinct graphs")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	for i := 0; i < verifh.N(6000, 120000); i++ {
		dir := filepath.Join(root, fmt.Sprint(i))
		n := 1 + r.Intn(5)
		type inc struct{ ns, to, text string }
		files := map[string][]inc{}
		state := map[string]string{}
		local := map[string][]string{}
		pos := make([]string, n)
		for j := range pos {
			pos[j] = filepath.Join(dir, verifh.Pick(r, "", "s", "s/d"), fmt.Sprintf("f%d.yml", j))
		}
		cyc := r.Intn(3) == 0
		for j, p := range pos {
			state[p] = "ok"
			if j > 0 && r.Intn(14) == 0 {
				state[p] = verifh.Pick(r, "missing", "broken", "badtask", "empty")
			}
			local[p] = []string{"t"}
			if r.Intn(12) == 0 {
				local[p] = append(local[p], verifh.Pick(r, "n0:t", "n1:t", "u"))
			}
			for k := r.Intn(3); k > 0; k-- {
				to := j + 1 + r.Intn(n)
				if cyc && r.Intn(4) == 0 {
					to = r.Intn(n)
				}
				if to >= n {
					continue
				}
				rel, _ := filepath.Rel(filepath.Dir(p), pos[to])
				if r.Intn(4) == 0 {
					rel = pos[to]
				} else if r.Intn(4) == 0 {
					rel = "./x/../" + rel
				}
				files[p] = append(files[p], inc{fmt.Sprintf("n%d", k-1), pos[to], rel})
			}
		}
		var text strings.Builder
		for _, p := range pos {
			var b strings.Builder
			if len(files[p]) > 0 {
				b.WriteString("includes:\n")
				for _, x := range files[p] {
					fmt.Fprintf(&b, "  %s:\n    babfile: %s\n", x.ns, x.text)
				}
			}
			b.WriteString("tasks:\n")
			for _, tn := range local[p] {
				fmt.Fprintf(&b, "  %q:\n    run:\n      - cmd: echo %s\n", tn, tn)
			}
			switch state[p] {
			case "broken":
				b.WriteString("  ]: [\n")
			case "badtask":
				b.WriteString("  bad:\n    run:\n      - nothing: x\n")
			case "empty":
				b.Reset()
			case "missing":
				fmt.Fprintf(&text, "%s missing\n", p)
				continue
			}
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(p, []byte(b.String()), 0o644); err != nil {
				t.Fatal(err)
			}
			rel, _ := filepath.Rel(dir, p)
			fmt.Fprintf(&text, "--- %s\n%s", rel, b.String())
		}
		circular := false
		var expand func(p string, stack map[string]bool) ([]string, bool)
		expand = func(p string, stack map[string]bool) ([]string, bool) {
			if stack[p] {
				circular = true
				return nil, false
			}
			if state[p] == "missing" || state[p] == "broken" || state[p] == "badtask" || state[p] == "empty" {
				return nil, false
			}
			stack[p] = true
			defer delete(stack, p)
			out := append([]string{}, local[p]...)
			ok := true
			for _, x := range files[p] {
				sub, good := expand(x.to, stack)
				if !good {
					ok = false
				}
				for _, s := range sub {
					out = append(out, x.ns+":"+s)
				}
			}
			seen := map[string]bool{}
			for _, s := range out {
				if seen[s] {
					ok = false
				}
				seen[s] = true
			}
			return out, ok
		}
		want, ok := expand(pos[0], map[string]bool{})
		type res struct {
			pr  *parser.ParseResult
			err error
		}
		ch := make(chan res, 1)
		go func() { pr, err := parser.Parse(pos[0]); ch <- res{pr, err} }()
		var g res
		select {
		case g = <-ch:
		case <-time.After(30 * time.Second):
			r.Violation("hang", "loading does not end", map[string]any{"files": text.String()})
			return
		}
		key := ""
		if len(files[pos[0]]) > 0 {
			key = text.String()
		}
		r.Case(key)
		det := map[string]any{"files": text.String(), "error": fmt.Sprint(g.err)}
		if state[pos[0]] == "empty" {
			ok = g.err == nil // an empty main file: not this property
		}
		if ok != (g.err == nil) {
			r.Violation("include", fmt.Sprintf("loading gives error %v, want success %v (circular: %v)", g.err, ok, circular), det)
		}
		if g.err != nil && g.pr != nil {
			r.Violation("partial", "a result is returned together with an error", det)
		}
		if g.err == nil && ok {
			var got []string
			for k := range g.pr.Tasks {
				got = append(got, k)
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, ",") != strings.Join(want, ",") {
				r.Violation("tasks", fmt.Sprintf("loaded tasks %v, want %v", got, want), det)
			}
		}
		if circular && g.err != nil && onlyCircular(state) && noClash(local) {
			var ce *errs.CircularDepError
			if !asCircular(g.err, &ce) {
				r.Violation("circular", fmt.Sprintf("a circular include is reported as %v", g.err), det)
			}
		}
		os.RemoveAll(dir)
		if r.Violations() > 3 {
			return
		}
	}
}

func onlyCircular(state map[string]string) bool {
	for _, s := range state {
		if s != "ok" {
			return false
		}
	}
	return true
}

func noClash(local map[string][]string) bool {
	for _, l := range local {
		if len(l) > 1 {
			return false
		}
	}
	return true
}

func asCircular(err error, target **errs.CircularDepError) bool {
	for err != nil {
		if c, ok := err.(*errs.CircularDepError); ok {
			*target = c
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return strings.Contains(err.Error(), "circular")
		}
		err = u.Unwrap()
	}
	return false
}
