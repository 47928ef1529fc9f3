package finder

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/bab-sh/bab/internal/errs"
	"github.com/bab-sh/bab/internal/verifh"
)

// the documented order
var want = []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}

func oracle(dir string) string {
	for {
		for _, n := range want {
			p := filepath.Join(dir, n)
			if st, err := os.Stat(p); err == nil && !st.IsDir() {
				return p
			}
		}
		up := filepath.Dir(dir)
		if up == dir {
			return ""
		}
		dir = up
	}
}

// TestVerifFind: random chains of directories with Babfiles, other files,
// directories, links and dangling links named like Babfiles.
func TestVerifFind(t *testing.T) {
	r := verifh.New("a chain of up to 6 directories, each with any subset of names as file, directory, link or near miss; started in any of them; distinct layouts")
	defer r.Done()
	root, err := filepath.EvalSymlinks(verifh.Scratch())
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	old, _ := os.Getwd()
	defer os.Chdir(old)
	os.Unsetenv("PWD")
	var bab string
	near := []string{"babfile", "BABFILE", "Babfile.yaml.bak", "Babfile.json", "Babfile.YAML", "xBabfile", ".Babfile", "babfile.yml~"}
	for i := 0; i < verifh.N(3000, 40000); i++ {
		base := filepath.Join(root, fmt.Sprintf("c%d", i))
		dir := base
		depth := 1 + r.Intn(6)
		var desc []string
		var dirs []string
		empty := r.Intn(5) == 0
		for d := 0; d < depth; d++ {
			dirs = append(dirs, dir)
			if err := os.MkdirAll(dir, 0o755); err != nil {
				t.Fatal(err)
			}
			for _, n := range want {
				p := filepath.Join(dir, n)
				k := r.Intn(24)
				if empty && (k == 0 || k == 1 || k == 3 || k == 7) {
					k = 9
				}
				switch k {
				case 0, 1:
					os.WriteFile(p, []byte(fmt.Sprintf("tasks:\n  main:\n    run:\n      - cmd: echo MARK-%s-%s\n", filepath.Base(dir), n)), 0o644)
					desc = append(desc, fmt.Sprintf("%d:%s", d, n))
				case 2:
					os.MkdirAll(p, 0o755)
					desc = append(desc, fmt.Sprintf("%d:%s/", d, n))
				case 3:
					os.WriteFile(filepath.Join(dir, "target-"+n), []byte(fmt.Sprintf("tasks:\n  main:\n    run:\n      - cmd: echo MARK-%s-%s\n", filepath.Base(dir), n)), 0o644)
					os.Symlink("target-"+n, p)
					desc = append(desc, fmt.Sprintf("%d:%s->file", d, n))
				case 4:
					os.Symlink(root, p)
					desc = append(desc, fmt.Sprintf("%d:%s->dir", d, n))
				case 5:
					os.Symlink("nowhere", p)
					desc = append(desc, fmt.Sprintf("%d:%s->nothing", d, n))
				case 6:
					os.Symlink(n, p)
					desc = append(desc, fmt.Sprintf("%d:%s->itself", d, n))
				case 7:
					os.WriteFile(p, nil, 0o644)
					desc = append(desc, fmt.Sprintf("%d:%s empty", d, n))
				}
			}
			if r.Intn(2) == 0 {
				n := near[r.Intn(len(near))]
				os.WriteFile(filepath.Join(dir, n), []byte("x"), 0o644)
				desc = append(desc, fmt.Sprintf("%d:%s", d, n))
			}
			dir = filepath.Join(dir, []string{"a", "Babdir", "b c", "Babfile.d"}[r.Intn(4)])
		}
		at := dirs[r.Intn(len(dirs))]
		if err := os.Chdir(at); err != nil {
			t.Fatal(err)
		}
		w := oracle(at)
		got, err := FindBabfile()
		r.Case(strings.Join(desc, " "))
		det := map[string]any{"layout": desc, "cwd": at, "want": w, "got": got}
		switch {
		case w == "" && err == nil:
			r.Violation("found", "a Babfile was found where there is none", det)
		case w == "" && !errors.Is(err, errs.ErrBabfileNotFound):
			r.Violation("noerror", fmt.Sprintf("the search did not end with the not-found error: %v", err), det)
		case w != "" && err != nil:
			r.Violation("missed", "the nearest Babfile was not found: "+err.Error(), det)
		case w != got:
			r.Violation("wrong", "another Babfile was used", det)
		}
		// the program uses the file the search gives
		if i%40 == 0 {
			if bab == "" {
				if bab, err = verifh.Bab(); err != nil {
					t.Fatal(err)
				}
			}
			c := exec.Command(bab, "main")
			c.Dir = at
			c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + root, "BAB_NO_UPDATE_CHECK=1"}
			out, err := c.CombinedOutput()
			body := ""
			if w != "" {
				b, _ := os.ReadFile(w)
				body = string(b)
			}
			mark := ""
			if j := strings.Index(body, "MARK-"); j >= 0 {
				mark = strings.TrimSpace(body[j:])
			}
			det["output"] = string(out)
			if mark == "" && err == nil || mark != "" && (err != nil || !strings.Contains(string(out), "\n"+mark+"\n")) {
				r.Violation("run", "bab run in this directory does not run the nearest Babfile's task", det)
			}
		}
		os.Chdir(root)
		os.RemoveAll(base)
		if r.Violations() > 3 {
			return
		}
	}
}
