package parser_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/verifh"
	"github.com/bab-sh/bab/internal/verifload"
)

// TestVerifNamespace: a random file is loaded alone and through one or two levels
// of includes; each task must be the namespaced version of the original.
func TestVerifNamespace(t *testing.T) {
	r := verifh.New("a random Babfile included under a namespace, by one or two levels, the including file having globals of its own; distinct texts")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	os.MkdirAll(filepath.Join(root, "sub"), 0o755)
	mp := filepath.Join(root, "Main")
	for i := 0; i < verifh.N(7000, 300000); i++ {
		d := verifload.Gen(r, "")
		f := filepath.Join(root, verifh.Pick(r, "inc.yml", "sub/inc.yml"))
		w(t, f, d.Text)
		rel, _ := filepath.Rel(root, f)
		ns := verifh.Pick(r, "ns", "a-b", "x_1")
		mid := r.Intn(3) == 0
		own := verifload.Gen(r, "")
		head := fmt.Sprintf("includes:\n  %s:\n    babfile: %s\n", ns, rel)
		main := head + own.Text
		full := ns
		if mid {
			w(t, filepath.Join(root, "mid.yml"), main)
			top := "env: {TOP: x}\nvars: {top: y}\nsilent: true\ndir: sub\nincludes:\n  top:\n    babfile: mid.yml\ntasks:\n  main:\n    run:\n      - cmd: echo\n"
			w(t, mp, top)
			full = "top:" + ns
		} else {
			w(t, mp, main)
		}
		det := map[string]any{"included": d.Text, "including": main, "levels": 1 + b2i(mid)}
		r.Case(d.Text + main)
		alone, err := parser.Parse(f)
		if err != nil {
			r.Violation("alone", "the file alone is rejected: "+err.Error(), det)
			return
		}
		var midR *parser.ParseResult
		if mid {
			if midR, err = parser.Parse(filepath.Join(root, "mid.yml")); err != nil {
				r.Violation("mid", "the including file is rejected: "+err.Error(), det)
				return
			}
		}
		inc, err := parser.Parse(mp)
		if err != nil {
			r.Violation("include", "including a valid file fails: "+err.Error(), det)
			return
		}
		want := map[string]any{}
		for n, tk := range alone.Tasks {
			c := prefix(verifload.Task(tk), ns, alone.GlobalVars, alone.GlobalEnv, alone.GlobalSilent, alone.GlobalOutput, alone.GlobalDir)
			n = ns + ":" + n
			if mid {
				c = prefix(c, "top", midR.GlobalVars, midR.GlobalEnv, midR.GlobalSilent, midR.GlobalOutput, midR.GlobalDir)
				n = "top:" + n
			}
			want[n] = c
		}
		got := map[string]any{}
		for n, tk := range inc.Tasks {
			if strings.HasPrefix(n, full+":") {
				got[n] = verifload.Task(tk)
				if tk.SourcePath != f {
					r.Violation("source", fmt.Sprintf("task %s: defining file is %q, want %q", n, tk.SourcePath, f), det)
				}
			}
		}
		if a, b := verifload.JSON(got), verifload.JSON(want); a != b {
			r.Violation("namespaced", "an included task differs from the original: "+verifload.Diff(a, b), det)
		}
		// the including file's own tasks and globals are what they are without the include
		if !mid {
			w(t, filepath.Join(root, "own.yml"), own.Text)
			o, err := parser.Parse(filepath.Join(root, "own.yml"))
			if err == nil {
				for n := range inc.Tasks {
					if strings.HasPrefix(n, full+":") {
						delete(inc.Tasks, n)
					}
				}
				if a, b := verifload.JSON(verifload.Canon(inc, true)), verifload.JSON(verifload.Canon(o, true)); a != b {
					r.Violation("leak", "including a file changes the including file's own tasks or globals: "+verifload.Diff(a, b), det)
				}
			}
		}
		// every alias leads to its own task
		for al, n := range inc.Aliases {
			if strings.HasPrefix(n, full+":") && !strings.HasPrefix(al, full+":") {
				r.Violation("alias", fmt.Sprintf("alias %q of %q is not namespaced", al, n), det)
			}
		}
		// a clash is an error
		if i%5 == 0 {
			clash := strings.Replace(head, ns+":\n", ns+":\n", 1) + "tasks:\n  \"" + ns + ":" + d.Names[r.Intn(len(d.Names))] + "\":\n    run:\n      - cmd: echo\n"
			w(t, mp, clash)
			if _, err := parser.Parse(mp); err == nil {
				r.Violation("clash", "a clash between an included task and an existing one is not an error", map[string]any{"included": d.Text, "including": clash})
			}
		}
		if r.Violations() > 3 {
			return
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func w(t *testing.T, p, s string) {
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		t.Fatal(err)
	}
}

func prefix(c map[string]any, ns string, vars, env map[string]string, silent, output *bool, dir string) map[string]any {
	o := map[string]any{}
	for k, v := range c {
		o[k] = v
	}
	pl := func(v any) any {
		l := []any{}
		for _, s := range v.([]any) {
			l = append(l, ns+":"+s.(string))
		}
		return l
	}
	o["name"] = ns + ":" + c["name"].(string)
	o["aliases"], o["deps"] = pl(c["aliases"]), pl(c["deps"])
	mg := func(d map[string]string, own any) any {
		m := map[string]any{}
		for k, v := range d {
			m[k] = v
		}
		for k, v := range own.(map[string]any) {
			m[k] = v
		}
		return m
	}
	o["vars"], o["env"] = mg(vars, c["vars"]), mg(env, c["env"])
	if o["silent"] == "unset" && silent != nil {
		o["silent"] = fmt.Sprint(*silent)
	}
	if o["output"] == "unset" && output != nil {
		o["output"] = fmt.Sprint(*output)
	}
	if o["dir"] == "" {
		o["dir"] = dir
	}
	if o["dir"] == "" {
		o["dir"] = "."
	}
	o["run"] = items(c["run"], ns)
	return o
}

func items(v any, ns string) []any {
	l := []any{}
	for _, x := range v.([]any) {
		m := map[string]any{}
		for k, v := range x.(map[string]any) {
			m[k] = v
		}
		switch m["kind"] {
		case "task":
			m["task"] = ns + ":" + m["task"].(string)
		case "parallel":
			was := m["items"].([]any)
			m["items"] = items(was, ns)
			lab := append([]any{}, m["labels"].([]any)...)
			for k, x := range was { // an unlabelled task item is labelled by the task it names
				y := x.(map[string]any)
				if y["kind"] == "task" && lab[k] == y["task"] {
					lab[k] = ns + ":" + y["task"].(string)
				}
			}
			m["labels"] = lab
		}
		l = append(l, m)
	}
	return l
}
