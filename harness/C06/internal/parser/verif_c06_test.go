package parser_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/verifh"
)

// TestVerifGraphs: random task graphs are loaded; acceptance is compared with an
// independent decision (references exist, no cycle, aliases unique).
func TestVerifGraphs(t *testing.T) {
	r := verifh.New("a random task graph with dependencies, task references (in parallel blocks too) and aliases, split over an included file or not; distinct file texts")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	for i := 0; i < verifh.N(25000, 500000); i++ {
		n := 1 + r.Intn(6)
		type tk struct {
			name    string
			deps    []string
			refs    []string // direct
			par     []string
			aliases []string
			alias   string
		}
		bad := 0.0
		if r.Intn(3) == 0 {
			bad = 0.08
		}
		cyc := r.Intn(3) == 0
		tasks := make([]*tk, n)
		for j := range tasks {
			tasks[j] = &tk{name: fmt.Sprintf("t%d", j)}
		}
		pick := func(j int) string {
			if r.Float64() < bad {
				return "missing"
			}
			if cyc && r.Intn(4) == 0 {
				return fmt.Sprintf("t%d", r.Intn(n))
			}
			if j+1 >= n {
				return ""
			}
			return fmt.Sprintf("t%d", j+1+r.Intn(n-j-1))
		}
		for j, x := range tasks {
			for k := r.Intn(3); k > 0; k-- {
				if p := pick(j); p != "" {
					x.deps = append(x.deps, p)
				}
			}
			for k := r.Intn(2); k > 0; k-- {
				if p := pick(j); p != "" {
					x.refs = append(x.refs, p)
				}
			}
			for k := r.Intn(4) - 1; k > 0; k-- {
				if p := pick(j); p != "" {
					x.par = append(x.par, p)
				}
			}
			if r.Intn(3) == 0 {
				x.alias = fmt.Sprintf("a%d", j)
				if r.Float64() < 2*bad {
					x.alias = verifh.Pick(r, "t0", "a0", "a1", x.name)
				}
			}
			for k := r.Intn(3) - 1; k > 0; k-- {
				x.aliases = append(x.aliases, fmt.Sprintf("b%d-%d", j, k))
				if r.Float64() < 2*bad {
					x.aliases = append(x.aliases, verifh.Pick(r, "t0", "a0", "b0-1", x.name))
				}
			}
		}
		var b strings.Builder
		b.WriteString("tasks:\n")
		edges := map[string][]string{}
		for _, x := range tasks {
			fmt.Fprintf(&b, "  %s:\n", x.name)
			if x.alias != "" {
				fmt.Fprintf(&b, "    alias: %s\n", x.alias)
			}
			if len(x.aliases) > 0 {
				fmt.Fprintf(&b, "    aliases: [%s]\n", strings.Join(x.aliases, ", "))
			}
			if len(x.deps) > 0 {
				fmt.Fprintf(&b, "    deps: [%s]\n", strings.Join(x.deps, ", "))
			}
			b.WriteString("    run:\n      - cmd: echo\n")
			for _, f := range x.refs {
				fmt.Fprintf(&b, "      - task: %s\n", f)
			}
			if len(x.par) > 0 {
				b.WriteString("      - parallel:\n          - cmd: echo\n")
				for _, f := range x.par {
					fmt.Fprintf(&b, "          - task: %s\n", f)
				}
			}
			edges[x.name] = append(append(append([]string{}, x.deps...), x.refs...), x.par...)
		}
		ok := true
		why := "well-formed"
		names := map[string]bool{}
		for _, x := range tasks {
			names[x.name] = true
		}
		seen := map[string]bool{}
		for _, x := range tasks {
			for _, e := range edges[x.name] {
				if !names[e] {
					ok, why = false, "unknown task "+e
				}
			}
			as := x.aliases
			if x.alias != "" {
				as = append([]string{x.alias}, as...)
			}
			for _, a := range as {
				if names[a] || seen[a] {
					ok, why = false, "alias clash "+a
				}
				seen[a] = true
			}
		}
		if hasCycle(edges) {
			ok, why = false, "cycle"
		}
		file := filepath.Join(root, "Babfile")
		text := b.String()
		if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
		path := file
		if r.Intn(3) == 0 { // the same graph, included
			path = filepath.Join(root, "Main")
			if err := os.WriteFile(path, []byte("includes:\n  ns:\n    babfile: Babfile\ntasks:\n  main:\n    run:\n      - cmd: echo\n"), 0o644); err != nil {
				t.Fatal(err)
			}
		}
		ch := make(chan error, 1)
		go func() { _, err := parser.Parse(path); ch <- err }()
		var err error
		select {
		case err = <-ch:
		case <-time.After(20 * time.Second):
			r.Violation("hang", "loading does not end", map[string]any{"babfile": text})
			return
		}
		r.Case(text)
		if ok != (err == nil) {
			r.Violation("validate", fmt.Sprintf("loading gives %v, but the task graph is %s", err, why), map[string]any{"babfile": text, "included": path != file})
			if r.Violations() > 3 {
				return
			}
		}
	}
}

func hasCycle(edges map[string][]string) bool {
	// repeatedly remove nodes without successors
	live := map[string]bool{}
	for k := range edges {
		live[k] = true
	}
	for {
		removed := false
		for k := range live {
			leaf := true
			for _, e := range edges[k] {
				if live[e] {
					leaf = false
				}
			}
			if leaf {
				delete(live, k)
				removed = true
			}
		}
		if !removed {
			return len(live) > 0
		}
	}
}
