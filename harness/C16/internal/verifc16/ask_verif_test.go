package verifc16

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/verifh"
)

var nameRe = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

func text(def map[string]any) string {
	var b strings.Builder
	b.WriteString("tasks:\n  main:\n    run:\n      - ")
	var ks []string
	for k := range def {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i > 0 {
			b.WriteString("        ")
		}
		v, _ := json.Marshal(def[k])
		fmt.Fprintf(&b, "%s: %s\n", k, v)
	}
	return b.String()
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// wellFormed is the definition of an acceptable prompt.
func wellFormed(d map[string]any) (bool, string) {
	str := func(k string) string { s, _ := d[k].(string); return s }
	list := func(k string) []string { s, _ := d[k].([]string); return s }
	t := str("type")
	if !nameRe.MatchString(str("prompt")) {
		return false, "name"
	}
	if !has([]string{"confirm", "input", "select", "multiselect", "password", "number"}, t) {
		return false, "type"
	}
	if str("message") == "" {
		return false, "message"
	}
	choice := t == "select" || t == "multiselect"
	if choice != (len(list("options")) > 0) {
		return false, "options"
	}
	if t == "select" && str("default") != "" && !has(list("options"), str("default")) {
		return false, "default not an option"
	}
	if len(list("defaults")) > 0 {
		if t != "multiselect" {
			return false, "defaults unsupported"
		}
		for _, x := range list("defaults") {
			if !has(list("options"), x) {
				return false, "defaults not options"
			}
		}
	}
	if t == "number" && str("default") != "" {
		if _, err := strconv.Atoi(str("default")); err != nil {
			return false, "default not a number"
		}
	}
	mn, a := d["min"].(int)
	mx, b := d["max"].(int)
	if a && b && mn > mx {
		return false, "min above max"
	}
	for _, k := range []string{"min", "max"} {
		if v, ok := d[k]; ok {
			if _, ok := v.(int); !ok {
				return false, k + " not a number"
			}
		}
	}
	if v := str("validate"); v != "" {
		if t != "input" {
			return false, "validate unsupported"
		}
		if _, err := regexp.Compile(v); err != nil {
			return false, "pattern"
		}
	}
	if v, ok := d["confirm"]; ok {
		if t != "password" {
			return false, "confirm unsupported"
		}
		if _, ok := v.(bool); !ok {
			return false, "confirm not a boolean"
		}
	}
	return true, ""
}

// TestVerifDefinition: random prompt definitions are accepted exactly when well formed.
func TestVerifDefinition(t *testing.T) {
	r := verifh.New("a random prompt definition: any type with any subset of settings, valid or not; distinct definitions")
	defer r.Done()
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	p := filepath.Join(root, "Babfile")
	opts := []string{"red", "green", "blue", "a b", "1"}
	for i := 0; i < verifh.N(30000, 400000) && r.Violations() < 4; i++ {
		d := map[string]any{"prompt": verifh.Pick(r, "x", "_a1", "Name", "x", "x"), "type": verifh.Pick(r, "confirm", "input", "select", "multiselect", "password", "number"), "message": "m?"}
		if r.Intn(25) == 0 {
			d["prompt"] = verifh.Pick(r, "9x", "a-b", "a.b", "a b", "é", "x\n", "${{ x }}")
		}
		if r.Intn(25) == 0 {
			d["type"] = verifh.Pick(r, "", "Confirm", "text", "multi-select", "numbers", "selec")
		}
		if r.Intn(25) == 0 {
			delete(d, "type")
		}
		if r.Intn(25) == 0 {
			d["message"] = ""
		} else if r.Intn(25) == 0 {
			delete(d, "message")
		}
		ty, _ := d["type"].(string)
		odd := r.Intn(6) == 0
		sub := func() []string {
			var l []string
			for _, o := range opts {
				if r.Intn(2) == 0 {
					l = append(l, o)
				}
			}
			return l
		}
		if ty == "select" || ty == "multiselect" || odd && r.Intn(3) == 0 {
			if r.Intn(12) > 0 {
				if l := sub(); l != nil {
					d["options"] = l
				}
			}
		}
		if r.Intn(3) == 0 {
			switch {
			case ty == "number" && r.Intn(4) > 0:
				d["default"] = verifh.Pick(r, "5", "-3", "0", "+7", "007")
			case ty == "number":
				d["default"] = verifh.Pick(r, "five", "1.5", "0x10", "1e3", " 5", "99999999999999999999", "-", "1_000")
			default:
				d["default"] = verifh.Pick(r, "red", "green", "a b", "purple", "true", "re", "")
			}
		}
		if ty == "multiselect" && r.Intn(2) == 0 || odd && r.Intn(4) == 0 {
			if o, ok := d["options"].([]string); ok {
				var l []string
				for _, x := range o {
					if r.Intn(2) == 0 {
						l = append(l, x)
					}
				}
				if r.Intn(5) == 0 {
					l = append(l, verifh.Pick(r, "purple", "Red", "red ", "blue"))
				}
				if l != nil {
					d["defaults"] = l
				}
			} else {
				d["defaults"] = []string{"red"}
			}
		}
		if ty == "input" && r.Intn(2) == 0 || odd && r.Intn(5) == 0 {
			d["validate"] = verifh.Pick(r, "^[a-z]+$", "a|b", "(", "[", "*", "\\d+", "(?P<x", "a{2,1}", "")
		}
		if r.Intn(3) == 0 {
			d["min"] = r.Intn(7) - 3
		}
		if r.Intn(3) == 0 {
			d["max"] = r.Intn(7) - 3
		}
		if r.Intn(40) == 0 {
			d[verifh.Pick(r, "min", "max")] = verifh.Pick(r, "x", "1.5", "")
		}
		if ty == "password" && r.Intn(2) == 0 || odd && r.Intn(5) == 0 {
			d["confirm"] = r.Intn(2) == 0
		}
		if r.Intn(3) == 0 {
			d["placeholder"] = "ph"
		}
		tx := text(d)
		if err := os.WriteFile(p, []byte(tx), 0o644); err != nil {
			t.Fatal(err)
		}
		r.Case(tx)
		pr, err := parser.Parse(p)
		ok, why := wellFormed(d)
		det := map[string]any{"babfile": tx}
		if ok && err != nil {
			r.Violation("rejected", "a well-formed prompt definition was rejected: "+err.Error(), det)
		} else if !ok && err == nil {
			r.Violation("accepted", "a prompt definition with a fault was accepted: "+why, det)
		} else if ok {
			q, isP := pr.Tasks["main"].Run[0].(babfile.PromptRun)
			if !isP || fmt.Sprint(q.Defaults) != fmt.Sprint(or(d["defaults"])) || fmt.Sprint(q.Options) != fmt.Sprint(or(d["options"])) || q.Default != str(d["default"]) || q.Validate != str(d["validate"]) || num(q.Min) != fmt.Sprint(d["min"]) || num(q.Max) != fmt.Sprint(d["max"]) {
				r.Violation("content", "the prompt loaded is not the prompt written", det)
			}
		}
	}
}

func or(x any) []string { l, _ := x.([]string); return l }
func str(x any) string  { s, _ := x.(string); return s }
func num(p *int) string {
	if p == nil {
		return "<nil>"
	}
	return fmt.Sprint(*p)
}

// ---- interactive sessions on a terminal ----

type try struct {
	keys string // what is typed, without enter
	ok   bool   // acceptable
	want string // the answer then
}

type script struct {
	def    map[string]any
	prompt []string // what is waited for before the first and second input
	first  string   // typed (with enter) before the tries, for the second field
	tries  []try
}

const clear = "\x05\x15" // to the end of the line, delete all before it

func number(r *verifh.R) script {
	d := map[string]any{"prompt": "x", "type": "number", "message": "How many"}
	var mn, mx *int
	if r.Intn(3) > 0 {
		v := r.Intn(30) - 10
		mn = &v
		d["min"] = v
	}
	if r.Intn(3) > 0 {
		v := r.Intn(30)
		if mn != nil {
			v = *mn + r.Intn(20)
		}
		mx = &v
		d["max"] = v
	}
	dflt := ""
	if r.Intn(2) == 0 {
		v := r.Intn(20)
		if mn != nil {
			v = *mn
		} else if mx != nil {
			v = *mx
		}
		dflt = strconv.Itoa(v)
		d["default"] = dflt
	}
	s := script{def: d, prompt: []string{"How many"}}
	for n := 1 + r.Intn(4); n > 0; n-- {
		var in string
		switch r.Intn(6) {
		case 0:
			in = verifh.Pick(r, "", "", "x", "1.5", "--1", "1e2", "0x5", "5 ", "99999999999999999999", "1_0")
		case 1:
			if mn != nil {
				in = strconv.Itoa(*mn - r.Intn(2))
			}
		case 2:
			if mx != nil {
				in = strconv.Itoa(*mx + r.Intn(2))
			}
		default:
			in = strconv.Itoa(r.Intn(60) - 20)
		}
		v, err := strconv.Atoi(in)
		ok := err == nil && (mn == nil || v >= *mn) && (mx == nil || v <= *mx)
		want := in
		if in == "" {
			ok = dflt != ""
			want = dflt
		}
		s.tries = append(s.tries, try{clear + in, ok, want})
	}
	return s
}

func input(r *verifh.R) script {
	pat := verifh.Pick(r, "^[a-z]+$", "^v[0-9]+\\.[0-9]+$", "b", "^.{2,4}$", "^(yes|no)$", "^$|^q")
	d := map[string]any{"prompt": "x", "type": "input", "message": "Which one", "validate": pat}
	re := regexp.MustCompile(pat)
	if r.Intn(3) == 0 {
		d["default"] = verifh.Pick(r, "abc", "v1.2", "b", "yes", "q")
	}
	s := script{def: d, prompt: []string{"Which one"}}
	for n := 1 + r.Intn(4); n > 0; n-- {
		in := verifh.Pick(r, "abc", "v1.2", "v1x2", "ABC", "b", "aba", "yes", "noo", "no", "", "q1", "a b", "12345", "12", "abcde")
		s.tries = append(s.tries, try{clear + in, re.MatchString(in), in})
	}
	return s
}

func multi(r *verifh.R) script {
	opts := []string{"red", "green", "blue", "grey"}[:2+r.Intn(3)]
	d := map[string]any{"prompt": "x", "type": "multiselect", "message": "Which colours", "options": opts}
	mn, mx := 0, len(opts)
	if r.Intn(3) > 0 {
		mn = r.Intn(len(opts) + 1)
		d["min"] = mn
	}
	if r.Intn(3) > 0 {
		mx = mn + r.Intn(len(opts)+1-mn)
		d["max"] = mx
	}
	on := make([]bool, len(opts))
	if r.Intn(3) == 0 {
		var l []string
		for i, o := range opts {
			if r.Intn(2) == 0 {
				l = append(l, o)
				on[i] = true
			}
		}
		if l != nil {
			d["defaults"] = l
		}
	}
	s := script{def: d, prompt: []string{"Which colours"}}
	cur := 0 // the first selected option, if any
	for i := len(on) - 1; i >= 0; i-- {
		if on[i] {
			cur = i
		}
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		keys := ""
		for k := r.Intn(5); k > 0; k-- {
			if r.Intn(2) == 0 {
				to := r.Intn(len(opts))
				for cur < to {
					keys += "\x1b[B"
					cur++
				}
				for cur > to {
					keys += "\x1b[A"
					cur--
				}
			} else {
				keys += " "
				on[cur] = !on[cur]
			}
		}
		var sel []string
		for i, o := range opts {
			if on[i] {
				sel = append(sel, o)
			}
		}
		s.tries = append(s.tries, try{keys, len(sel) >= mn && len(sel) <= mx, strings.Join(sel, ",")})
	}
	return s
}

func password(r *verifh.R) script {
	d := map[string]any{"prompt": "x", "type": "password", "message": "Secret word", "confirm": true}
	pw := verifh.Pick(r, "hunter2", "a b", "Pa$$w0rd", "x")
	s := script{def: d, prompt: []string{"Secret word", "Confirm secret word"}, first: pw}
	for n := 1 + r.Intn(4); n > 0; n-- {
		in := verifh.Pick(r, pw, pw+"x", "", strings.ToUpper(pw), pw[:len(pw)-1], " "+pw)
		s.tries = append(s.tries, try{clear + in, in == pw, in})
	}
	return s
}

func sel(r *verifh.R) script {
	opts := []string{"red", "green", "blue"}
	d := map[string]any{"prompt": "x", "type": "select", "message": "Which colour", "options": opts}
	cur := 0
	if r.Intn(2) == 0 {
		cur = r.Intn(3)
		d["default"] = opts[cur]
	}
	to := r.Intn(3)
	keys := strings.Repeat("\x1b[B", max(0, to-cur)) + strings.Repeat("\x1b[A", max(0, cur-to))
	return script{def: d, prompt: []string{"Which colour"}, tries: []try{{keys, true, opts[to]}}}
}

func (s script) run(dir string) (what string, log []string) {
	tx := text(s.def) + "      - cmd: printf '%s' \"[$ANS]\" > answer\n        env:\n          ANS: ${{ x }}\n"
	if err := os.WriteFile(filepath.Join(dir, "Babfile"), []byte(tx), 0o644); err != nil {
		return "", nil
	}
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "BAB_NO_UPDATE_CHECK=1"}
	ses, err := verifh.Terminal(dir, env, "main")
	if err != nil {
		return "", []string{"no terminal: " + err.Error()}
	}
	defer ses.Close()
	say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	if !ses.Expect(func() bool { return strings.Contains(ses.Text(), s.prompt[0]) }, 30*time.Second) {
		return "the prompt did not appear", append(log, ses.Text())
	}
	ses.Settle(60 * time.Millisecond)
	if len(s.prompt) > 1 {
		n := ses.Len()
		ses.Send(s.first)
		ses.Settle(40 * time.Millisecond)
		ses.Send("\r")
		say("typed %q", s.first)
		if !ses.Expect(func() bool { return strings.Contains(ses.After(n), s.prompt[1]) }, 30*time.Second) {
			return "the second prompt did not appear", append(log, ses.Text())
		}
		ses.Settle(60 * time.Millisecond)
	}
	answer := func() (string, bool) {
		b, err := os.ReadFile(filepath.Join(dir, "answer"))
		return string(b), err == nil
	}
	want, done := "", false
	for _, t := range s.tries {
		ses.Send(t.keys)
		ses.Settle(40 * time.Millisecond)
		say("typed %q and enter, acceptable: %v", t.keys, t.ok)
		ses.Send("\r")
		if t.ok {
			// what is typed while the terminal changes hands may be lost: type it again
			for again := 0; again < 6 && strings.HasPrefix(t.keys, clear) && !ses.Ended(2*time.Second); again++ {
				ses.Send(t.keys)
				ses.Settle(60 * time.Millisecond)
				ses.Send("\r")
			}
			if !ses.Ended(30 * time.Second) {
				return "an acceptable answer was not accepted", append(log, ses.Text())
			}
			want, done = "["+t.want+"]", true
			break
		}
		if ses.Ended(120 * time.Millisecond) {
			break
		}
		ses.Settle(60 * time.Millisecond)
	}
	if !done && !ses.Ended(0) {
		say("ctrl+c")
		for again := 0; again < 10 && !ses.Ended(0); again++ {
			ses.Send("\x03")
			ses.Ended(3 * time.Second)
		}
		if !ses.Ended(30 * time.Second) {
			return "ctrl+c does not end the prompt", append(log, ses.Text())
		}
	}
	got, wrote := answer()
	say("exit status %d, the command after the prompt ran: %v, with %s", ses.Code, wrote, got)
	switch {
	case done && (!wrote || got != want):
		return "the accepted answer is not what was stored", append(log, ses.Text())
	case !done && wrote:
		return "an answer that does not satisfy the definition was accepted", log
	}
	return "", log
}

func TestVerifAnswer(t *testing.T) {
	r := verifh.New("a prompt with constraints on a real terminal, a random sequence of acceptable and unacceptable answers; distinct (definition, answers)")
	defer r.Done()
	if _, err := verifh.Bab(); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat("/dev/ptmx"); err != nil {
		fmt.Println("NOTE: no terminals here")
		return
	}
	root := verifh.Scratch()
	defer os.RemoveAll(root)
	jobs := make(chan script)
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range jobs {
				dir, err := os.MkdirTemp(root, "s")
				if err != nil {
					continue
				}
				what, log := s.run(dir)
				for again := 0; again < 2 && what != ""; again++ { // only what fails every time counts
					os.RemoveAll(dir)
					os.Mkdir(dir, 0o755)
					what, log = s.run(dir)
				}
				b, _ := json.Marshal(s.def)
				r.Case(fmt.Sprintf("%s %q", b, s.tries))
				if len(log) > 0 && strings.HasPrefix(log[0], "no terminal") {
					fmt.Println("NOTE:", log[0])
				}
				if what != "" {
					r.Violation("answer", what, map[string]any{"definition": s.def, "session": log})
				}
				os.RemoveAll(dir)
			}
		}()
	}
	gens := []func(*verifh.R) script{number, input, multi, password, number, sel}
	begin := time.Now()
	for i := 0; i < verifh.N(360, 4000) && r.Violations() < 4 && time.Since(begin) < time.Duration(verifh.N(90, 500))*time.Second; i++ {
		jobs <- gens[i%len(gens)](r)
	}
	close(jobs)
	wg.Wait()
}
