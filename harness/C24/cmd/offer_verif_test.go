package cmd_test

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/bab-sh/bab/cmd"
	"github.com/bab-sh/bab/internal/verifh"
	"github.com/charmbracelet/log"
)

type tk struct {
	name, desc string
	aliases    []string
}

// call runs bab's command line in this process and returns what it printed.
func call(file *os.File, args ...string) (string, error) {
	oldA, oldO := os.Args, os.Stdout
	defer func() { os.Args, os.Stdout = oldA, oldO }()
	file.Truncate(0)
	file.Seek(0, 0)
	os.Args = append([]string{"bab"}, args...)
	os.Stdout = file
	err := cmd.ExecuteContext(context.Background())
	b, _ := os.ReadFile(file.Name())
	return string(b), err
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var words = []string{"a", "b", "ab", "abc", "build", "b-c", "test", "t", "A", "x1", "é", "deploy_all", "run.me"}
var descs = []string{"", "", "builds it", "Test (alias)", "a: b", "it's $HOME ${{ x }}", "ünï", "alias for x", "with  two spaces", "100%"}

func TestVerifOffer(t *testing.T) {
	r := verifh.New("a Babfile with random task names (grouped by colons), descriptions and aliases, partly from an include, or a broken one; what completion and listing offer for random prefixes, and what running it does; distinct (file, request)")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	old, _ := os.Getwd()
	defer os.Chdir(old)
	os.Setenv("BAB_NO_UPDATE_CHECK", "1")
	log.SetOutput(io.Discard)
	out, err := os.Create(filepath.Join(root, "stdout"))
	if err != nil {
		t.Fatal(err)
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		oldE := os.Stderr
		os.Stderr = null
		defer func() { os.Stderr = oldE }()
	}
	bf := filepath.Join(root, "Babfile")
	other := filepath.Join(root, "other.yml")
	for i := 0; i < verifh.N(2500, 30000) && r.Violations() < 4; i++ {
		used := map[string]bool{}
		pick := func(max int) string {
			for {
				n := words[r.Intn(len(words))]
				for j := r.Intn(max); j > 0; j-- {
					n += ":" + words[r.Intn(len(words))]
				}
				if !used[n] {
					used[n] = true
					return n
				}
			}
		}
		mk := func(n int) []tk {
			var l []tk
			for j := 0; j < n; j++ {
				x := tk{name: pick(3), desc: descs[r.Intn(len(descs))]}
				for k := r.Intn(3); k > 0; k-- {
					x.aliases = append(x.aliases, pick(2))
				}
				l = append(l, x)
			}
			return l
		}
		text := func(l []tk, ns string) string {
			var b strings.Builder
			b.WriteString("tasks:\n")
			for _, x := range l {
				fmt.Fprintf(&b, "  %q:\n", x.name)
				if x.desc != "" {
					fmt.Fprintf(&b, "    desc: %q\n", x.desc)
				}
				al := x.aliases
				if len(al) > 0 && r.Intn(2) == 0 {
					fmt.Fprintf(&b, "    alias: %q\n", al[0])
					al = al[1:]
				}
				if len(al) > 0 {
					var q []string
					for _, a := range al {
						q = append(q, fmt.Sprintf("%q", a))
					}
					fmt.Fprintf(&b, "    aliases: [%s]\n", strings.Join(q, ", "))
				}
				fmt.Fprintf(&b, "    run:\n      - cmd: echo 'RUN %s%s.'\n", ns, x.name)
			}
			return b.String()
		}
		l := mk(1 + r.Intn(7))
		main := text(l, "")
		broken := r.Intn(10) == 0
		if broken {
			main += []string{"  bad:\n    deps: [nowhere]\n    run: [{cmd: echo}]\n", "  bad: [\n", "  bad:\n    run:\n      - cmd: echo\n        task: bad\n", "includes:\n  q:\n    babfile: missing.yml\n", "  bad:\n    alias: " + l[0].name + "\n    run: [{cmd: echo}]\n"}[r.Intn(5)]
		}
		files := map[string]string{"Babfile": main}
		if !broken && r.Intn(3) == 0 {
			ns := "ns" + words[r.Intn(len(words))]
			o := mk(1 + r.Intn(3))
			files["other.yml"] = text(o, ns+":")
			main = "includes:\n  " + ns + ":\n    babfile: other.yml\n" + main
			files["Babfile"] = main
			for _, x := range o {
				y := tk{name: ns + ":" + x.name, desc: x.desc}
				for _, a := range x.aliases {
					y.aliases = append(y.aliases, ns+":"+a)
				}
				l = append(l, y)
			}
			os.WriteFile(other, []byte(files["other.yml"]), 0o644)
		}
		os.WriteFile(bf, []byte(main), 0o644)
		var base []string
		if r.Intn(2) == 0 {
			os.Chdir(root)
		} else {
			os.Chdir("/")
			base = []string{"-b", bf}
		}
		// what is offered
		owner := map[string]tk{}
		for _, x := range l {
			owner[x.name] = x
			for _, a := range x.aliases {
				owner[a] = x
			}
		}
		typed := ""
		switch r.Intn(4) {
		case 0:
		case 1:
			typed = words[r.Intn(len(words))]
		default:
			x := l[r.Intn(len(l))].name
			typed = string([]rune(x)[:r.Intn(len([]rune(x))+1)])
		}
		args := append([]string{"__complete"}, base...)
		given := r.Intn(8) == 0
		if given {
			args = append(args, l[0].name)
		}
		args = append(args, typed)
		got, err := call(out, args...)
		det := map[string]any{"files": files, "args": args, "stdout": got}
		r.Case(main + strings.Join(args, " "))
		if err != nil {
			r.Violation("complete", "completion failed: "+err.Error(), det)
			continue
		}
		var names []string
		var lines []string
		for _, ln := range strings.Split(got, "\n") {
			if ln != "" && !strings.HasPrefix(ln, ":") {
				lines = append(lines, ln)
				names = append(names, strings.SplitN(ln, "\t", 2)[0])
			}
		}
		var want []string
		if !broken && !given {
			for n := range owner {
				if strings.HasPrefix(n, typed) {
					want = append(want, n)
				}
			}
		}
		sort.Strings(want)
		if strings.Join(names, "\n") != strings.Join(want, "\n") {
			det["want"] = want
			r.Violation("offered", "completion does not offer exactly the matching names and aliases in sorted order", det)
			continue
		}
		for j, n := range names {
			d := ""
			if p := strings.SplitN(lines[j], "\t", 2); len(p) == 2 {
				d = p[1]
			}
			x := owner[n]
			if n == x.name && d != x.desc || n != x.name && x.desc != "" && !strings.Contains(d, x.desc) {
				r.Violation("desc", fmt.Sprintf("%q is offered with the description %q", n, d), det)
			}
		}
		// the listing
		if r.Intn(2) == 0 {
			got, err := call(out, append([]string{"--list"}, base...)...)
			det := map[string]any{"files": files, "args": "--list", "stdout": got}
			r.Case(main + "--list")
			if broken != (err != nil) {
				r.Violation("list", fmt.Sprintf("listing: %v", err), det)
			} else if !broken {
				if msg := listed(ansi.ReplaceAllString(got, ""), l); msg != "" {
					r.Violation("list", msg, det)
				}
			}
		}
		// running what is offered
		if i%6 == 0 && !broken {
			for _, n := range names {
				got, err := call(out, append(append([]string{}, base...), n)...)
				r.Case(main + "run" + n)
				det := map[string]any{"files": files, "args": n, "stdout": got}
				if err != nil {
					r.Violation("run", fmt.Sprintf("what completion offers cannot be run: %v", err), det)
				} else if !strings.Contains(ansi.ReplaceAllString(got, ""), "\nRUN "+owner[n].name+".\n") && !strings.HasPrefix(got, "RUN "+owner[n].name+".\n") || strings.Count(got, "\nRUN ")+strings.Count("\n"+got, "\nRUN ") > 2 {
					r.Violation("run", fmt.Sprintf("running %q does not run the task it belongs to", n), det)
				}
			}
		}
	}
}

// listed compares the tree with the tasks.
func listed(text string, l []tk) string {
	want := map[string]*tk{}
	for i := range l {
		p := ""
		for _, s := range strings.Split(l[i].name, ":") {
			p = strings.TrimPrefix(p+":"+s, ":")
			if want[p] == nil {
				want[p] = &tk{}
			}
		}
	}
	for i := range l {
		want[l[i].name] = &l[i]
	}
	var path []string
	seen := map[string]bool{}
	for _, ln := range strings.Split(text, "\n") {
		rs := []rune(ln)
		d := 0
		for len(rs) > 0 && strings.ContainsRune(" │├└─╰", rs[0]) {
			rs = rs[1:]
			d++
		}
		if len(rs) == 0 {
			continue
		}
		if d%4 != 0 || d/4 > len(path) {
			return "cannot read the line " + ln
		}
		f := strings.SplitN(strings.TrimRight(string(rs), " "), " ", 2)
		path = append(path[:d/4:d/4], f[0])
		full := strings.Join(path, ":")
		x := want[full]
		if x == nil {
			return "the listing shows " + full + ", which is no task"
		}
		if seen[full] {
			return "the listing shows " + full + " twice"
		}
		seen[full] = true
		rest := ""
		if len(f) > 1 {
			rest = f[1]
		}
		var parts []string
		if len(x.aliases) > 0 {
			parts = append(parts, "("+strings.Join(x.aliases, ", ")+")")
		}
		if x.desc != "" {
			parts = append(parts, x.desc)
		}
		if w := strings.Join(parts, " "); w != rest {
			return fmt.Sprintf("the listing shows %q after %s, not %q", rest, full, w)
		}
	}
	for n := range want {
		if !seen[n] {
			return "the listing does not show " + n
		}
	}
	return ""
}
