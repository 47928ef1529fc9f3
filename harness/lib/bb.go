package verifh

// Black-box model: random Babfiles are run by the real bab binary and every
// observable (which commands ran, in what order, where, with what environment,
// what was shown, the exit status) is compared with an interpreter of the
// properties' text. The interpreter shares no code with bab.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var buildOnce sync.Once
var babPath string
var buildErr error

// Bab builds the binary of /repo's working tree once.
func Bab() (string, error) {
	buildOnce.Do(func() {
		dir := os.Getenv("VERIF_SCRATCH")
		if dir == "" {
			dir, buildErr = os.MkdirTemp("", "verifbab")
			if buildErr != nil {
				return
			}
		}
		babPath = filepath.Join(dir, "bab.bin")
		cmd := exec.Command("go", "build", "-o", babPath, ".")
		cmd.Dir = Repo()
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
		out, err := cmd.CombinedOutput()
		if err != nil {
			buildErr = fmt.Errorf("go build: %v\n%s", err, out)
		}
	})
	return babPath, buildErr
}

func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// Scratch makes a fresh directory.
func Scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(base, "s")
	if err != nil {
		panic(err)
	}
	if d, err = filepath.EvalSymlinks(d); err != nil {
		panic(err)
	}
	return d
}

type Out struct {
	Code           int
	Stdout, Stderr string
	TimedOut       bool
}

// RunBab runs the binary without a terminal, with exactly the given environment.
func RunBab(dir string, env []string, args ...string) (Out, error) {
	return RunBabSig(dir, env, 0, nil, args...)
}

// RunBabSig also sends a signal once ready returns true.
func RunBabSig(dir string, env []string, sig syscall.Signal, ready func() bool, args ...string) (Out, error) {
	exe, err := Bab()
	if err != nil {
		return Out{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = dir
	cmd.Env = env
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		return Out{}, err
	}
	stop := make(chan struct{})
	if ready != nil {
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(5 * time.Millisecond):
				}
				if ready() {
					_ = syscall.Kill(cmd.Process.Pid, sig)
					return
				}
			}
		}()
	}
	err = cmd.Wait()
	close(stop)
	o := Out{Code: cmd.ProcessState.ExitCode(), Stdout: so.String(), Stderr: se.String(), TimedOut: ctx.Err() != nil}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	return o, nil
}

// ---- text of the language ----

// Interp is the reading of property C01: one pass, escapes and references.
func Interp(s string, vars, env map[string]string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "$${{") {
			b.WriteString("${{")
			i += 4
			continue
		}
		if name, n := refAt(s[i:]); n > 0 {
			if strings.HasPrefix(name, "env.") {
				b.WriteString(env[name[4:]])
			} else if v, ok := vars[name]; ok {
				b.WriteString(v)
			} else {
				return "", fmt.Errorf("undefined %s", name)
			}
			i += n
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String(), nil
}

func isNameByte(c byte, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && (c == '.' || c >= '0' && c <= '9')
}

func isSpaceByte(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f'
}

// refAt returns the name and length of a reference at the start of s.
func refAt(s string) (string, int) {
	if !strings.HasPrefix(s, "${{") {
		return "", 0
	}
	i := 3
	for i < len(s) && isSpaceByte(s[i]) {
		i++
	}
	st := i
	for i < len(s) && isNameByte(s[i], i == st) {
		i++
	}
	if i == st {
		return "", 0
	}
	name := s[st:i]
	for i < len(s) && isSpaceByte(s[i]) {
		i++
	}
	if !strings.HasPrefix(s[i:], "}}") {
		return "", 0
	}
	return name, i + 2
}

// Refs are the names referred to in s.
func Refs(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "$${{") {
			i += 4
			continue
		}
		if name, n := refAt(s[i:]); n > 0 {
			r = append(r, name)
			i += n
			continue
		}
		i++
	}
	return r
}

// Resolve is property C02.
func Resolve(vars, parent, env map[string]string) (map[string]string, error) {
	out := map[string]string{}
	for k, v := range parent {
		if _, own := vars[k]; !own {
			out[k] = v
		}
	}
	busy := map[string]bool{}
	var one func(k string) error
	one = func(k string) error {
		if _, ok := out[k]; ok {
			return nil
		}
		if busy[k] {
			return fmt.Errorf("cycle %s", k)
		}
		busy[k] = true
		for _, r := range Refs(vars[k]) {
			if strings.HasPrefix(r, "env.") {
				continue
			}
			if _, own := vars[r]; own {
				if err := one(r); err != nil {
					return err
				}
			}
		}
		v, err := Interp(vars[k], out, env)
		if err != nil {
			return err
		}
		out[k] = v
		return nil
	}
	ks := make([]string, 0, len(vars))
	for k := range vars {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := one(k); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// Cond is a condition with known structure.
type Cond struct {
	None    bool
	Cmp     bool
	L, R    string
	Op      string
	Q       string // quote of the right operand
	LQ      string // optional quote of the left operand
	T       string
	Sp, Out string
}

func (c *Cond) Text() string {
	if c == nil || c.None {
		return ""
	}
	if c.Cmp {
		return c.Out + c.LQ + c.L + c.LQ + c.Sp + c.Op + c.Sp + c.Q + c.R + c.Q + c.Out
	}
	return c.T
}

func (c *Cond) Eval(vars, env map[string]string) (bool, error) {
	if c == nil || c.None || c.Text() == "" {
		return true, nil
	}
	if c.Cmp {
		l, err := Interp(c.L, vars, env)
		if err != nil {
			return false, err
		}
		r, err := Interp(c.R, vars, env)
		if err != nil {
			return false, err
		}
		return (l == r) == (c.Op == "=="), nil
	}
	t, err := Interp(c.T, vars, env)
	if err != nil {
		return false, err
	}
	t = strings.TrimSpace(t)
	return t != "" && !strings.EqualFold(t, "false"), nil
}

// ---- scenarios ----

type ItemS struct {
	Kind           string // cmd task log prompt parallel
	ID             int
	Label          string
	Vals           []string // interpolated texts recorded by the command
	Rc             int
	Sleep          string
	Blank          bool // an empty command
	Ref            string
	Level          string
	Var, PType     string
	Default        string
	Options        []string
	Defaults       []string
	NoDefault      bool
	Items          []*ItemS
	Limit          int
	Mode           string
	Color          *bool
	Env            map[string]string
	Dir            string
	Silent, Output *bool
	Platforms      []string
	When           *Cond
}

type TaskS struct {
	Name           string
	Alias          []string
	Vars, Env      map[string]string
	Silent, Output *bool
	Dir            string
	When           *Cond
	Deps           []string
	Run            []*ItemS
}

type FileS struct {
	Path           string
	Vars, Env      map[string]string
	Silent, Output *bool
	Dir            string
	Tasks          []*TaskS
	Incs           []IncS
}

type IncS struct {
	NS   string
	File *FileS
	Ref  string
}

type Scenario struct {
	Seed   int64
	Root   string
	Main   *FileS
	Env    map[string]string
	Target string
	DryRun bool
	Cwd    string
	NoPath bool // rely on the search for the Babfile
	ids    int
}

type kv struct {
	k string
	v any
}

func obj(kvs ...kv) string {
	var b strings.Builder
	b.WriteString("{")
	n := 0
	for _, e := range kvs {
		if e.v == nil {
			continue
		}
		if n > 0 {
			b.WriteString(", ")
		}
		n++
		b.WriteString(js(e.k) + ": ")
		if r, ok := e.v.(raw); ok {
			b.WriteString(string(r))
		} else {
			b.WriteString(js(e.v))
		}
	}
	b.WriteString("}")
	return b.String()
}

type raw string

func js(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(v)
	return strings.TrimSpace(b.String())
}

func optS(s string) any {
	if s == "" {
		return nil
	}
	return s
}
func optB(b *bool) any {
	if b == nil {
		return nil
	}
	return *b
}
func optM(m map[string]string) any {
	if len(m) == 0 {
		return nil
	}
	ks := make([]string, 0)
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var kvs []kv
	for _, k := range ks {
		kvs = append(kvs, kv{k, m[k]})
	}
	return raw(obj(kvs...))
}
func optL(l []string) any {
	if len(l) == 0 {
		return nil
	}
	return l
}

// Cmd is the text of a command item: it records id, directory, environment and values.
func (it *ItemS) Cmd() string {
	if it.Blank {
		return "  "
	}
	var v strings.Builder
	for _, t := range it.Vals {
		v.WriteString("|'")
		v.WriteString(t)
		v.WriteString("'")
	}
	envs := ""
	for _, k := range EnvKeys {
		envs += "|${" + k + "-~}"
	}
	c := fmt.Sprintf(`printf '%%s\n' 'B|%d|'"$(pwd -P)%s"'%s' >> "$VT"; `, it.ID, envs, strings.ReplaceAll(v.String(), "'", ""))
	if it.Sleep != "" {
		c += "sleep " + it.Sleep + "; "
	}
	c += fmt.Sprintf(`env > "$VT.env.%d"; echo OUT%d-; echo ERR%d- >&2; printf '%%s\n' 'E|%d' >> "$VT"; exit %d`, it.ID, it.ID, it.ID, it.ID, it.Rc)
	return c
}

var EnvKeys = []string{"KA", "KB", "KC", "KD", "FORCE_COLOR", "NO_COLOR", "TERM"}

func (it *ItemS) yaml() string {
	var w any
	if t := it.When.Text(); t != "" {
		w = t
	}
	common := []kv{{"label", optS(it.Label)}, {"platforms", optL(it.Platforms)}, {"when", w}}
	vis := []kv{{"silent", optB(it.Silent)}, {"output", optB(it.Output)}}
	switch it.Kind {
	case "cmd":
		return obj(append(append([]kv{{"cmd", it.Cmd()}, {"env", optM(it.Env)}, {"dir", optS(it.Dir)}}, vis...), common...)...)
	case "task":
		return obj(append(append([]kv{{"task", it.Ref}}, vis...), common...)...)
	case "log":
		return obj(append([]kv{{"log", fmt.Sprintf("LOG%d- ", it.ID) + strings.Join(it.Vals, "|") + fmt.Sprintf(" -GOL%d", it.ID)}, {"level", optS(it.Level)}}, common...)...)
	case "prompt":
		l := []kv{{"prompt", it.Var}, {"type", it.PType}, {"message", fmt.Sprintf("MSG%d", it.ID)}}
		if !it.NoDefault && it.PType != "multiselect" && it.PType != "password" {
			l = append(l, kv{"default", it.Default})
		}
		l = append(l, kv{"options", optL(it.Options)})
		if !it.NoDefault {
			l = append(l, kv{"defaults", optL(it.Defaults)})
		}
		return obj(append(l, common[1:]...)...)
	case "parallel":
		var s []string
		for _, x := range it.Items {
			s = append(s, x.yaml())
		}
		var lim any
		if it.Limit > 0 {
			lim = it.Limit
		}
		return obj(append(append([]kv{{"parallel", raw("[" + strings.Join(s, ",\n        ") + "]")}, {"limit", lim}, {"mode", optS(it.Mode)}, {"color", optB(it.Color)}}, vis...), common[1:]...)...)
	}
	panic(it.Kind)
}

func (f *FileS) YAML() string {
	var b strings.Builder
	if len(f.Vars) > 0 {
		fmt.Fprintf(&b, "vars: %s\n", optM(f.Vars))
	}
	if len(f.Env) > 0 {
		fmt.Fprintf(&b, "env: %s\n", optM(f.Env))
	}
	if f.Silent != nil {
		fmt.Fprintf(&b, "silent: %v\n", *f.Silent)
	}
	if f.Output != nil {
		fmt.Fprintf(&b, "output: %v\n", *f.Output)
	}
	if f.Dir != "" {
		fmt.Fprintf(&b, "dir: %s\n", js(f.Dir))
	}
	if len(f.Incs) > 0 {
		b.WriteString("includes:\n")
		for _, i := range f.Incs {
			fmt.Fprintf(&b, "  %s:\n    babfile: %s\n", i.NS, js(i.Ref))
		}
	}
	b.WriteString("tasks:\n")
	for _, t := range f.Tasks {
		fmt.Fprintf(&b, "  %s:\n", t.Name)
		for _, e := range []kv{{"aliases", optL(t.Alias)}, {"vars", optM(t.Vars)}, {"env", optM(t.Env)}, {"silent", optB(t.Silent)}, {"output", optB(t.Output)}, {"dir", optS(t.Dir)}, {"when", optS(t.When.Text())}, {"deps", optL(t.Deps)}} {
			if e.v == nil {
				continue
			}
			if r, ok := e.v.(raw); ok {
				fmt.Fprintf(&b, "    %s: %s\n", e.k, r)
			} else {
				fmt.Fprintf(&b, "    %s: %s\n", e.k, js(e.v))
			}
		}
		if len(t.Run) > 0 {
			b.WriteString("    run:\n")
			for _, it := range t.Run {
				fmt.Fprintf(&b, "      - %s\n", it.yaml())
			}
		}
	}
	return b.String()
}

// ---- the model ----

// flat is a task after loading: property C07 applied.
type flat struct {
	name           string
	vars, env      map[string]string
	silent, output *bool
	dir            string // as written; resolved against base
	base           string
	when           *Cond
	deps           []string
	run            []*ItemS
	ns             string
}

func merge(a, b map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range a {
		o[k] = v
	}
	for k, v := range b {
		o[k] = v
	}
	return o
}

func firstB(bs ...*bool) *bool {
	for _, b := range bs {
		if b != nil {
			return b
		}
	}
	return nil
}

func firstS(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func flatten(f *FileS) map[string]*flat {
	out := map[string]*flat{}
	for _, t := range f.Tasks {
		out[t.Name] = &flat{name: t.Name, vars: t.Vars, env: t.Env, silent: t.Silent, output: t.Output, dir: t.Dir, base: filepath.Dir(f.Path), when: t.When, deps: t.Deps, run: t.Run}
	}
	for _, i := range f.Incs {
		for _, t := range flatten(i.File) {
			n := *t
			n.name = i.NS + ":" + t.name
			n.vars, n.env = merge(i.File.Vars, t.vars), merge(i.File.Env, t.env)
			n.silent, n.output = firstB(t.silent, i.File.Silent), firstB(t.output, i.File.Output)
			n.dir = firstS(t.dir, i.File.Dir, ".")
			n.ns = i.NS + ":" + t.ns
			n.deps = nil
			for _, d := range t.deps {
				n.deps = append(n.deps, i.NS+":"+d)
			}
			out[n.name] = &n
		}
	}
	return out
}

type expect struct {
	it        *ItemS
	task      string
	must      bool
	after     map[int]bool
	dir       string
	env       map[string]string // configured keys
	vals      []string
	piped     bool
	noColor   bool
	echo      bool
	show      bool
	uncertain bool // display depends on who reached the task first
	failed    bool
}

type result struct {
	err bool
	ids map[int]bool // every command run for it
}

type memoE struct {
	r      result
	reach  int
	inPar  bool
	mustly bool
}

type model struct {
	sc     *Scenario
	tasks  map[string]*flat
	gvars  map[string]string
	memo   map[string]*memoE
	prev   map[string]*memoE // pass 1
	cmds   map[int]*expect
	logs   map[int]*expect
	goos   string
	failed []string // labels of failed parallel items
	depBad bool     // a block failed because of a dependency of its items
	prompt int
	blocks []blockE
	anyPar bool
	vague  map[string]bool // tasks whose display depends on the invocation order
}

type blockE struct {
	limit  int
	direct []int
}

type inv struct {
	before         map[int]bool
	par            bool // inside a parallel block
	must           bool
	silent, output *bool
	noColor        bool
	uncertain      bool
}

func union(ms ...map[int]bool) map[int]bool {
	o := map[int]bool{}
	for _, m := range ms {
		for k := range m {
			o[k] = true
		}
	}
	return o
}

func (m *model) runTask(name string, c inv) result {
	if e, ok := m.memo[name]; ok {
		e.reach++
		e.inPar = e.inPar || c.par
		if c.must && !e.mustly {
			for id := range e.r.ids {
				if x := m.cmds[id]; x != nil {
					x.must = true
				}
			}
			e.mustly = true
		}
		return e.r
	}
	e := &memoE{reach: 1, inPar: c.par, mustly: c.must}
	m.memo[name] = e
	if p := m.prev[name]; p != nil && p.reach > 1 && p.inPar {
		c.before = map[int]bool{}
		c.uncertain = true
	}
	if m.vague[name] {
		c.uncertain = true
	}
	e.r = m.taskBody(name, c)
	return e.r
}

func (m *model) taskBody(name string, c inv) result {
	t, ok := m.tasks[name]
	if !ok {
		return result{err: true, ids: map[int]bool{}}
	}
	ids := map[int]bool{}
	tv, verr := Resolve(t.vars, m.gvars, m.sc.Env)
	if t.when.Text() != "" {
		if verr != nil {
			return result{true, ids}
		}
		run, err := t.when.Eval(tv, m.sc.Env)
		if err != nil {
			return result{true, ids}
		}
		if !run {
			return result{false, ids}
		}
	}
	for _, d := range t.deps {
		dc := c
		dc.before = union(c.before, ids)
		dc.silent, dc.output = nil, nil
		r := m.runTask(d, dc)
		ids = union(ids, r.ids)
		if r.err {
			return result{true, ids}
		}
	}
	if len(t.run) == 0 {
		return result{false, ids}
	}
	if verr != nil {
		return result{true, ids}
	}
	tenv := map[string]string{}
	for k, v := range merge(m.sc.Main.Env, t.env) {
		x, err := Interp(v, tv, m.sc.Env)
		if err != nil {
			return result{true, ids}
		}
		tenv[k] = x
	}
	for _, it := range t.run {
		ic := c
		ic.before = union(c.before, ids)
		if !m.platform(it) {
			continue
		}
		run, err := it.When.Eval(tv, m.sc.Env)
		if err != nil {
			return result{true, ids}
		}
		if !run {
			continue
		}
		var r result
		switch it.Kind {
		case "prompt":
			m.prompt++
			v, ok := promptAnswer(it, tv, m.sc.Env)
			if !ok {
				return result{true, ids}
			}
			tv = merge(tv, map[string]string{it.Var: v})
			continue
		case "parallel":
			r = m.parallel(it, t, tv, tenv, ic)
		default:
			r = m.item(it, t, tv, tenv, ic)
		}
		ids = union(ids, r.ids)
		if r.err {
			return result{true, ids}
		}
	}
	return result{false, ids}
}

func (m *model) platform(it *ItemS) bool {
	if len(it.Platforms) == 0 {
		return true
	}
	for _, p := range it.Platforms {
		if p == m.goos {
			return true
		}
	}
	return false
}

func promptAnswer(it *ItemS, tv, env map[string]string) (string, bool) {
	d, err := Interp(it.Default, tv, env)
	if err != nil {
		return "", false
	}
	var ds []string
	for _, x := range it.Defaults {
		y, err := Interp(x, tv, env)
		if err != nil {
			return "", false
		}
		ds = append(ds, y)
	}
	for _, x := range it.Options {
		if _, err := Interp(x, tv, env); err != nil {
			return "", false
		}
	}
	if it.NoDefault || it.PType == "password" {
		return "", false
	}
	switch it.PType {
	case "confirm":
		if d == "" {
			return "", false
		}
		switch strings.ToLower(d) {
		case "true", "yes", "y", "1":
			return "true", true
		}
		return "false", true
	case "multiselect":
		return strings.Join(ds, ","), len(ds) > 0
	default:
		return d, d != ""
	}
}

func (m *model) item(it *ItemS, t *flat, tv, tenv map[string]string, c inv) result {
	ids := map[int]bool{}
	switch it.Kind {
	case "log":
		x := &expect{it: it, task: t.name, must: c.must, piped: c.par}
		for _, v := range it.Vals {
			s, err := Interp(v, tv, m.sc.Env)
			if err != nil {
				return result{true, ids}
			}
			x.vals = append(x.vals, s)
		}
		m.logs[it.ID] = x
		return result{false, ids}
	case "task":
		ref := it.Ref
		if t.ns != "" {
			ref = t.ns + ref
		}
		ic := c
		ic.silent, ic.output = firstB(it.Silent, c.silent), firstB(it.Output, c.output)
		return m.runTask(ref, ic)
	case "cmd":
		if it.Blank {
			return result{true, ids}
		}
		x := &expect{it: it, task: t.name, must: c.must, after: c.before, piped: c.par, noColor: c.noColor, uncertain: c.uncertain}
		for _, v := range it.Vals {
			s, err := Interp(v, tv, m.sc.Env)
			if err != nil {
				return result{true, ids}
			}
			x.vals = append(x.vals, s)
		}
		x.env = merge(tenv, nil)
		for k, v := range it.Env {
			s, err := Interp(v, tv, m.sc.Env)
			if err != nil {
				return result{true, ids}
			}
			x.env[k] = s
		}
		dir := firstS(it.Dir, t.dir, m.sc.Main.Dir)
		if dir == "" {
			dir = t.base
		} else {
			s, err := Interp(dir, tv, m.sc.Env)
			if err != nil {
				return result{true, ids}
			}
			if !strings.HasPrefix(s, "/") {
				s = t.base + "/" + s
			}
			dir = s
		}
		st, err := os.Stat(filepath.Clean(dir))
		if err != nil || !st.IsDir() {
			return result{true, ids}
		}
		x.dir, _ = filepath.EvalSymlinks(filepath.Clean(dir))
		s := firstB(it.Silent, c.silent, t.silent, m.sc.Main.Silent)
		x.echo = s == nil || !*s
		o := firstB(it.Output, c.output, t.output, m.sc.Main.Output)
		x.show = o == nil || *o
		x.failed = it.Rc != 0
		m.cmds[it.ID] = x
		return result{it.Rc != 0, map[int]bool{it.ID: true}}
	}
	panic(it.Kind)
}

func (m *model) parallel(it *ItemS, t *flat, tv, tenv map[string]string, c inv) result {
	m.anyPar = true
	ids := map[int]bool{}
	var live []*ItemS
	for _, x := range it.Items {
		if !m.platform(x) {
			continue
		}
		run, err := x.When.Eval(tv, m.sc.Env)
		if err != nil {
			return result{true, ids}
		}
		if run {
			live = append(live, x)
		}
	}
	pc := c
	pc.par = true
	pc.silent, pc.output = firstB(it.Silent, c.silent), firstB(it.Output, c.output)
	pc.noColor = c.noColor || it.Color != nil && !*it.Color
	// items are not required to start when a dependency of one of them fails
	depFail := false
	depIDs := map[int]bool{}
	for _, x := range live {
		if x.Kind != "task" {
			continue
		}
		ref := x.Ref
		if t.ns != "" {
			ref = t.ns + ref
		}
		tt := m.tasks[ref]
		if tt == nil {
			continue
		}
		if tt.when.Text() != "" {
			v, err := Resolve(tt.vars, m.gvars, m.sc.Env)
			if err != nil {
				depFail = true
				break
			}
			run, err := tt.when.Eval(v, m.sc.Env)
			if err != nil {
				depFail = true
				break
			}
			if !run {
				continue
			}
		}
		for _, d := range tt.deps {
			dc := pc
			dc.par = c.par
			dc.uncertain = true
			m.vague[d] = true
			m.markVague(d)
			r := m.runTask(d, dc)
			depIDs = union(depIDs, r.ids)
			if r.err {
				depFail = true
				break
			}
		}
		if depFail {
			break
		}
	}
	ids = union(ids, depIDs)
	if depFail {
		pc.must = false
		m.depBad = true
	}
	res := result{err: depFail}
	b := blockE{limit: it.Limit}
	for _, x := range live {
		ic := pc
		r := m.item(x, t, tv, tenv, ic)
		ids = union(ids, r.ids)
		if r.err {
			res.err = true
			m.failed = append(m.failed, x.Label)
		}
		if x.Kind == "cmd" {
			b.direct = append(b.direct, x.ID)
		}
	}
	if !depFail {
		m.blocks = append(m.blocks, b)
	}
	res.ids = ids
	return res
}

func (m *model) markVague(name string) {
	t := m.tasks[name]
	if t == nil {
		return
	}
	m.vague[name] = true
	for _, d := range t.deps {
		if !m.vague[d] {
			m.markVague(d)
		}
	}
	var items func(l []*ItemS)
	items = func(l []*ItemS) {
		for _, x := range l {
			if x.Kind == "task" {
				r := x.Ref
				if t.ns != "" {
					r = t.ns + r
				}
				if !m.vague[r] {
					m.markVague(r)
				}
			}
			items(x.Items)
		}
	}
	items(t.run)
}

func (sc *Scenario) predict() (*model, bool) {
	m := &model{sc: sc, tasks: flatten(sc.Main), goos: runtime.GOOS, vague: map[string]bool{}}
	gv, err := Resolve(sc.Main.Vars, nil, sc.Env)
	if err != nil {
		m.cmds, m.logs = map[int]*expect{}, map[int]*expect{}
		return m, false
	}
	m.gvars = gv
	var r result
	for pass := 0; pass < 2; pass++ {
		m.prev, m.memo, m.cmds, m.logs, m.failed, m.blocks, m.prompt = m.memo, map[string]*memoE{}, map[int]*expect{}, map[int]*expect{}, nil, nil, 0
		if m.prev == nil {
			m.prev = map[string]*memoE{}
		}
		r = m.runTask(sc.Target, inv{before: map[int]bool{}, must: true})
	}
	return m, !r.err
}

// Mismatch is one difference between model and bab; Kind tells which property.
type Mismatch struct {
	Kind, What string
}

type Obs struct {
	Out
	Begun map[int]int
	Trace []string
	rec   map[int]string
	pos   map[string]int
	envs  map[int]map[string]string
}

// Write lays the scenario out on disk.
func (sc *Scenario) Write() error {
	for _, d := range []string{"p/d0/e", "p/d1", "p/inc", "cwd/x", "cache"} {
		if err := os.MkdirAll(filepath.Join(sc.Root, d), 0o755); err != nil {
			return err
		}
	}
	_ = os.WriteFile(filepath.Join(sc.Root, "p", "afile"), nil, 0o644)
	var w func(f *FileS) error
	w = func(f *FileS) error {
		if err := os.MkdirAll(filepath.Dir(f.Path), 0o755); err != nil {
			return err
		}
		for _, i := range f.Incs {
			if err := w(i.File); err != nil {
				return err
			}
		}
		for _, d := range []string{"d0", "d1"} {
			_ = os.MkdirAll(filepath.Join(filepath.Dir(f.Path), d), 0o755)
		}
		return os.WriteFile(f.Path, []byte(f.YAML()), 0o644)
	}
	return w(sc.Main)
}

func (sc *Scenario) Environ() []string {
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(sc.Root, "cache"), "XDG_CACHE_HOME=" + filepath.Join(sc.Root, "cache"), "BAB_NO_UPDATE_CHECK=1", "VT=" + filepath.Join(sc.Root, "trace")}
	for k, v := range sc.Env {
		env = append(env, k+"="+v)
	}
	return env
}

func (sc *Scenario) Args() []string {
	var a []string
	if sc.DryRun {
		a = append(a, "-n")
	}
	if !sc.NoPath {
		a = append(a, "-b", sc.Main.Path)
	}
	return append(a, sc.Target)
}

func (sc *Scenario) Run() (*Obs, error) {
	o, err := RunBab(sc.Cwd, sc.Environ(), sc.Args()...)
	if err != nil {
		return nil, err
	}
	return sc.observe(o), nil
}

func (sc *Scenario) observe(o Out) *Obs {
	ob := &Obs{Out: o, Begun: map[int]int{}, rec: map[int]string{}, pos: map[string]int{}, envs: map[int]map[string]string{}}
	b, _ := os.ReadFile(filepath.Join(sc.Root, "trace"))
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		ob.pos[l] = len(ob.Trace)
		ob.Trace = append(ob.Trace, l)
		f := strings.SplitN(l, "|", 3)
		if len(f) < 2 {
			continue
		}
		var id int
		fmt.Sscanf(f[1], "%d", &id)
		if f[0] == "B" {
			ob.Begun[id]++
			ob.pos[fmt.Sprintf("B%d", id)] = len(ob.Trace) - 1
			ob.rec[id] = l
		} else {
			ob.pos[fmt.Sprintf("E%d", id)] = len(ob.Trace) - 1
		}
	}
	for id := range ob.Begun {
		eb, err := os.ReadFile(filepath.Join(sc.Root, fmt.Sprintf("trace.env.%d", id)))
		if err != nil {
			continue
		}
		ob.envs[id] = map[string]string{}
		for _, l := range strings.Split(string(eb), "\n") {
			if k, v, ok := strings.Cut(l, "="); ok {
				ob.envs[id][k] = v
			}
		}
	}
	return ob
}

// Compare lists the differences between the model's prediction and the run.
func (sc *Scenario) Compare(m *model, ok bool, ob *Obs) []Mismatch {
	var ms []Mismatch
	add := func(kind, f string, a ...any) { ms = append(ms, Mismatch{kind, fmt.Sprintf(f, a...)}) }
	if ob.TimedOut {
		add("hang", "bab did not end")
		return ms
	}
	if strings.Contains(ob.Stderr, "goroutine ") && strings.Contains(ob.Stderr, "panic") {
		add("crash", "bab crashed: %.600s", ob.Stderr)
	}
	if sc.DryRun {
		if len(ob.Trace) > 0 {
			add("dry", "dry run executed commands: %v", ob.Trace)
		}
		if strings.Contains(ob.Stdout, "OUT") {
			add("dry", "dry run shows command output")
		}
		for id := range m.logs {
			if strings.Count(ob.Stderr+ob.Stdout, fmt.Sprintf("LOG%d-", id)) > 1 {
				add("dry", "log item %d appears more than once", id)
			}
		}
		return ms
	}
	if ok != (ob.Code == 0) {
		add("exit", "exit status %d, but the task should %s", ob.Code, map[bool]string{true: "succeed", false: "fail"}[ok])
	}
	if ob.Code != 0 && ob.Code != 1 {
		add("exit", "exit status %d is neither 0 nor 1", ob.Code)
	}
	for id, n := range ob.Begun {
		x := m.cmds[id]
		if x == nil {
			add("run", "command %d ran but must not", id)
			continue
		}
		if n > 1 {
			add("once", "command %d ran %d times", id, n)
		}
		if _, ended := ob.pos[fmt.Sprintf("E%d", id)]; !ended {
			add("end", "command %d was started and not finished when bab exited", id)
		}
		for a := range x.after {
			if ob.Begun[a] == 0 {
				continue
			}
			pe, k := ob.pos[fmt.Sprintf("E%d", a)]
			if !k || pe > ob.pos[fmt.Sprintf("B%d", id)] {
				add("order", "command %d started before command %d, which comes first, had finished", id, a)
			}
		}
		f := strings.Split(ob.rec[id], "|")
		ne := len(EnvKeys)
		if len(f) < 3+ne {
			continue
		}
		if f[2] != x.dir {
			add("dir", "command %d ran in %q, not in %q", id, f[2], x.dir)
		}
		if want, got := strings.Join(x.vals, "|"), strings.Join(f[3+ne:], "|"); want != got {
			add("vars", "command %d was given %q, not %q", id, got, want)
		}
		got := ob.envs[id]
		if got == nil {
			continue
		}
		want := map[string]string{}
		for _, e := range sc.Environ() {
			k, v, _ := strings.Cut(e, "=")
			want[k] = v
		}
		base := merge(want, nil)
		if x.piped {
			if x.noColor {
				want["TERM"], want["NO_COLOR"] = "dumb", "1"
			} else {
				want["FORCE_COLOR"] = "1"
			}
		}
		for k, v := range x.env {
			want[k] = v
		}
		for k, v := range want {
			g, set := got[k]
			if set && g == v {
				continue
			}
			if k == "FORCE_COLOR" || k == "NO_COLOR" || k == "TERM" {
				if _, conf := x.env[k]; !conf {
					if g == base[k] { // a colour hint is permitted, not required
						continue
					}
				}
			}
			if k == "PWD" || k == "OLDPWD" || k == "SHLVL" || k == "_" {
				continue
			}
			add("env", "command %d: environment has %s=%q (set: %v), want %q", id, k, g, set, v)
		}
		for k, g := range got {
			if _, okk := want[k]; okk {
				continue
			}
			switch k {
			case "PWD", "OLDPWD", "SHLVL", "_":
				continue
			case "FORCE_COLOR", "NO_COLOR", "TERM":
				if x.piped || x.uncertain {
					continue
				}
			}
			add("env", "command %d: environment has the extra key %s=%q", id, k, g)
		}
	}
	for id, x := range m.cmds {
		if x.must && ob.Begun[id] == 0 {
			add("run", "command %d should have run and did not", id)
		}
		if ob.Begun[id] != 1 {
			continue
		}
		if !x.uncertain {
			echoed := strings.Contains(ob.Stderr, fmt.Sprintf("'B|%d|'", id))
			inErr := failedWith(ob.Stderr, id)
			if x.echo && !echoed || !x.echo && echoed && !inErr {
				add("echo", "command %d echoed: %v, want %v", id, echoed, x.echo)
			}
			shown := strings.Contains(ob.Stdout, fmt.Sprintf("OUT%d-\n", id))
			shownE := strings.Contains(ob.Stderr, fmt.Sprintf("ERR%d-\n", id))
			if shown != x.show || shownE != x.show {
				add("show", "output of command %d shown: stdout %v stderr %v, want %v", id, shown, shownE, x.show)
			}
		}
	}
	for id, x := range m.logs {
		if !x.must || x.it.Level == "debug" {
			continue
		}
		n := strings.Count(ob.Stderr+ob.Stdout, fmt.Sprintf("LOG%d-", id))
		if n != 1 {
			add("run", "log item %d appeared %d times", id, n)
		}
		want := fmt.Sprintf("LOG%d- %s -GOL%d", id, strings.Join(x.vals, "|"), id)
		if n == 1 && !strings.Contains(squash(ob.Stderr+ob.Stdout), squash(want)) {
			add("vars", "log item %d does not show %q", id, want)
		}
	}
	if i := strings.Index(ob.Stderr+ob.Stdout, "LOG"); i >= 0 {
		all := ob.Stderr + ob.Stdout
		for _, w := range strings.Split(all, "LOG")[1:] {
			var id int
			if n, _ := fmt.Sscanf(w, "%d-", &id); n == 1 && m.logs[id] == nil {
				add("run", "log item %d was shown but must not", id)
			}
		}
	}
	for _, b := range m.blocks {
		if b.limit == 0 {
			continue
		}
		cur, in := 0, map[int]bool{}
		for _, id := range b.direct {
			in[id] = true
		}
		for _, l := range ob.Trace {
			f := strings.SplitN(l, "|", 3)
			var id int
			fmt.Sscanf(f[1], "%d", &id)
			if !in[id] {
				continue
			}
			if f[0] == "B" {
				cur++
			} else {
				cur--
			}
			if cur > b.limit {
				add("limit", "more than %d items of a parallel block ran at the same time", b.limit)
				break
			}
		}
	}
	if len(m.failed) > 0 && !m.depBad && m.singleBlock() {
		named := false
		for _, l := range m.failed {
			if l != "" && strings.Contains(ob.Stderr, `"`+l+`"`) || l != "" && strings.Contains(ob.Stderr, `\"`+l+`\"`) {
				named = true
			}
		}
		if !named {
			add("name", "the error of the parallel block names none of the failed items %v", m.failed)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].Kind+ms[i].What < ms[j].Kind+ms[j].What })
	return ms
}

func squash(s string) string { return strings.Join(strings.Fields(s), " ") }

// failedWith reports whether the text of the command also occurs in the final
// error message, where it does not count as an echo.
func failedWith(stderr string, id int) bool {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.Contains(l, fmt.Sprintf("'B|%d|'", id)) && !strings.Contains(l, "command ") {
			return false
		}
	}
	return true
}

func (m *model) singleBlock() bool {
	t := m.tasks[m.sc.Target]
	return t != nil && len(t.deps) == 0 && len(t.run) == 1 && t.run[0].Kind == "parallel"
}

// Profile shapes the generated scenarios.
type Profile struct {
	Kinds    map[string]bool // mismatches that count for the property
	Tasks    int
	Items    int
	PIncl    float64
	PPar     float64
	PDeps    float64
	PTask    float64
	PLog     float64
	PPrompt  float64
	PWhen    float64
	PTWhen   float64
	PPlat    float64
	PFail    float64
	PVis     float64
	PEnv     float64
	PDir     float64
	PBad     float64 // undefined variables, missing directories
	DryRun   bool
	OneBlock bool
	Sleep    bool
}

type gen struct {
	*rand.Rand
	p  Profile
	sc *Scenario
}

func (g *gen) chance(p float64) bool { return g.Float64() < p }

func (g *gen) ob(p float64) *bool {
	if !g.chance(p) {
		return nil
	}
	b := g.Intn(2) == 0
	return &b
}

var litPieces = []string{"a", "b c", "x-1", "", "=", "{{", "}}", "é", "false", "False", " ", "a", "true", "$", "$${{ a }}", "0"}

func (g *gen) ref(names []string) string {
	if g.chance(g.p.PBad * 0.3) {
		return "${{ nosuch }}"
	}
	var n string
	if len(names) == 0 || g.chance(0.2) {
		n = "env." + []string{"EA", "EB", "EUNSET", "KA"}[g.Intn(4)]
	} else {
		n = names[g.Intn(len(names))]
	}
	return "${{" + []string{" ", "", "  "}[g.Intn(3)] + n + []string{" ", "", "\t"}[g.Intn(3)] + "}}"
}

func (g *gen) tmpl(names []string) string {
	s := ""
	for n := g.Intn(4); n >= 0; n-- {
		if g.chance(0.45) {
			s += g.ref(names)
		} else {
			s += litPieces[g.Intn(len(litPieces))]
		}
	}
	return s
}

func (g *gen) cond(names []string, p float64) *Cond {
	if !g.chance(p) {
		return nil
	}
	op := func() string {
		if g.chance(0.6) {
			return g.ref(names)
		}
		return []string{"a", "b", "true", "false", "x-1", "é"}[g.Intn(6)]
	}
	if g.chance(0.6) {
		q := []string{"'", `"`}[g.Intn(2)]
		r := op()
		if g.chance(0.15) {
			r = ""
		}
		return &Cond{Cmp: true, L: op(), R: r, Q: q, LQ: []string{"", "", "'", `"`}[g.Intn(4)], Op: []string{"==", "!="}[g.Intn(2)], Sp: []string{" ", "", "  "}[g.Intn(3)], Out: []string{"", "", " "}[g.Intn(3)]}
	}
	return &Cond{T: []string{op(), op(), "false", "FALSE", " false ", "   ", "no", op() + op()}[g.Intn(8)]}
}

func (g *gen) vars(prefix string, n int, scope []string, own map[string]string) []string {
	// definitions refer to names of the scope and to each other without a cycle
	names := append([]string{}, scope...)
	var mine []string
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%s%d", prefix, i)
		if i == 0 && len(scope) > 0 && g.chance(0.3) {
			k = scope[g.Intn(len(scope))] // override
			var rest []string
			for _, s := range names {
				if s != k {
					rest = append(rest, s)
				}
			}
			names = rest
		}
		v := g.tmpl(names)
		if g.chance(g.p.PBad * 0.1) {
			v = "${{ " + k + " }}x"
		}
		if g.chance(0.5) {
			v = []string{"a", "b", "true", "false", "x-1", "", `a == "b"`, "$${{ a }}", " ", `b" == "b`}[g.Intn(9)]
		}
		if _, dup := own[k]; dup {
			continue
		}
		own[k] = v
		mine = append(mine, k)
		names = append(names, k)
	}
	return names
}

func (g *gen) envMap(names []string, p float64) map[string]string {
	if !g.chance(p) {
		return nil
	}
	m := map[string]string{}
	for n := 1 + g.Intn(3); n > 0; n-- {
		k := EnvKeys[g.Intn(4)]
		if g.chance(0.1) {
			k = EnvKeys[4+g.Intn(3)]
		}
		v := g.tmpl(names)
		m[k] = v
	}
	return m
}

func (g *gen) dir(p float64, abs string) string {
	if !g.chance(p) {
		return ""
	}
	if g.chance(g.p.PBad * 0.3) {
		return []string{"nope", "afile", "${{ nosuch }}", "d0/nope"}[g.Intn(4)]
	}
	return []string{"d0", "./d1", "d0/../d1", "${{ env.ED }}", abs + "/d0", ".", "d1/", "${{ env.EABS }}", "${{env.EABS}}/../d1", "${{ env.ED }}/../d0", "./${{ env.ED }}", "d0/e"}[g.Intn(12)]
}

func (g *gen) plats() []string {
	if !g.chance(g.p.PPlat) {
		return nil
	}
	return [][]string{{"linux"}, {"darwin"}, {"windows", "linux"}, {"windows", "darwin"}, {"windows"}}[g.Intn(5)]
}

func (g *gen) id() int { g.sc.ids++; return g.sc.ids }

func (g *gen) command(names []string, abs string) *ItemS {
	it := &ItemS{Kind: "cmd", ID: g.id()}
	for n := g.Intn(3); n > 0; n-- {
		v := g.tmpl(names)
		it.Vals = append(it.Vals, strings.ReplaceAll(v, "|", ""))
	}
	if g.chance(g.p.PFail) {
		it.Rc = []int{1, 2, 3, 127, 255}[g.Intn(5)]
	}
	if g.p.Sleep && g.chance(0.7) {
		it.Sleep = []string{"0.01", "0.03", "0.06"}[g.Intn(3)]
	}
	it.Env = g.envMap(names, g.p.PEnv)
	it.Dir = g.dir(g.p.PDir, abs)
	it.Silent, it.Output = g.ob(g.p.PVis), g.ob(g.p.PVis)
	if g.chance(g.p.PBad * 0.05) {
		it.Blank = false
	}
	return it
}

func (g *gen) common(it *ItemS, names []string, first bool) {
	it.When = g.cond(names, g.p.PWhen)
	if !first {
		it.Platforms = g.plats()
	}
}

func (g *gen) leaf(names []string, refs []string, abs string) *ItemS {
	switch {
	case len(refs) > 0 && g.chance(g.p.PTask):
		return &ItemS{Kind: "task", ID: g.id(), Ref: refs[g.Intn(len(refs))], Silent: g.ob(g.p.PVis), Output: g.ob(g.p.PVis)}
	case g.chance(g.p.PLog):
		it := &ItemS{Kind: "log", ID: g.id(), Level: []string{"", "info", "warn", "error", "debug"}[g.Intn(5)]}
		it.Vals = []string{strings.ReplaceAll(g.tmpl(names), "LOG", "")}
		return it
	}
	return g.command(names, abs)
}

func (g *gen) file(path, kind string, scope []string, depth int) *FileS {
	f := &FileS{Path: path, Vars: map[string]string{}}
	names := g.vars("g"+kind, g.Intn(4), scope, f.Vars)
	f.Env = g.envMap(names, g.p.PEnv)
	f.Silent, f.Output = g.ob(g.p.PVis/2), g.ob(g.p.PVis/2)
	abs := filepath.Dir(path)
	f.Dir = g.dir(g.p.PDir/2, abs)
	var incRefs []string
	if depth < 2 && g.chance(g.p.PIncl) {
		for i := 0; i <= g.Intn(2); i++ {
			ns := fmt.Sprintf("n%d", i)
			sub := []string{"inc", "inc/deep", "."}[g.Intn(3)]
			p := filepath.Join(abs, sub, fmt.Sprintf("inc%s%d%d.yml", kind, depth, i))
			ref, _ := filepath.Rel(abs, p)
			if g.chance(0.3) {
				ref = p
			}
			inc := g.file(p, fmt.Sprintf("%s%c", kind, 'p'+i), names, depth+1)
			f.Incs = append(f.Incs, IncS{ns, inc, ref})
			for n := range flatten(inc) {
				incRefs = append(incRefs, ns+":"+n)
			}
		}
		sort.Strings(incRefs)
	}
	nt := 1 + g.Intn(g.p.Tasks)
	for i := nt - 1; i >= 0; i-- {
		t := &TaskS{Name: fmt.Sprintf("t%d", i), Vars: map[string]string{}}
		tn := g.vars("v"+kind, g.Intn(4), names, t.Vars)
		t.Env = g.envMap(tn, g.p.PEnv)
		t.Silent, t.Output = g.ob(g.p.PVis), g.ob(g.p.PVis)
		t.Dir = g.dir(g.p.PDir, abs)
		t.When = g.cond(tn, g.p.PTWhen)
		if g.chance(0.2) {
			t.Alias = []string{fmt.Sprintf("al%d", i)}
		}
		refs := append([]string{}, incRefs...)
		for j := i + 1; j < nt; j++ {
			refs = append(refs, fmt.Sprintf("t%d", j))
		}
		if len(refs) > 0 && g.chance(g.p.PDeps) {
			for n := 1 + g.Intn(2); n > 0; n-- {
				t.Deps = append(t.Deps, refs[g.Intn(len(refs))])
			}
			t.Deps = uniq(t.Deps)
		}
		ni := 1 + g.Intn(g.p.Items)
		if g.p.OneBlock && i == 0 {
			ni, t.Deps, t.When = 1, nil, nil
		}
		for k := 0; k < ni; k++ {
			var it *ItemS
			switch {
			case g.p.OneBlock && i == 0 || g.chance(g.p.PPar):
				it = &ItemS{Kind: "parallel", ID: g.id(), Silent: g.ob(g.p.PVis), Output: g.ob(g.p.PVis), Limit: []int{0, 0, 1, 2, 3}[g.Intn(5)], Mode: []string{"", "interleaved", "grouped", "tabs"}[g.Intn(4)], Color: g.ob(0.4)}
				for n := 1 + g.Intn(4); n > 0; n-- {
					x := g.leaf(tn, refs, abs)
					g.common(x, tn, false)
					x.Label = fmt.Sprintf("L%d", x.ID)
					it.Items = append(it.Items, x)
				}
			case g.chance(g.p.PPrompt):
				it = g.prompt(tn)
			default:
				it = g.leaf(tn, refs, abs)
			}
			if !(g.p.OneBlock && i == 0) {
				g.common(it, tn, k == 0)
			}
			t.Run = append(t.Run, it)
			if it.Kind == "prompt" {
				tn = append(append([]string{}, tn...), it.Var)
			}
		}
		f.Tasks = append([]*TaskS{t}, f.Tasks...)
	}
	return f
}

func (g *gen) prompt(names []string) *ItemS {
	it := &ItemS{Kind: "prompt", ID: g.id(), Var: fmt.Sprintf("pr%d", g.Intn(3))}
	it.PType = []string{"confirm", "input", "select", "multiselect", "number", "input"}[g.Intn(6)]
	it.NoDefault = g.chance(0.08)
	switch it.PType {
	case "confirm":
		it.Default = []string{"true", "false", "true", "false", "TRUE", "Yes", "no", "y", "1", "0", "${{ env.EB }}"}[g.Intn(11)]
	case "input":
		it.Default = "d" + g.tmpl(names)
	case "select":
		it.Options = []string{"a", "b", "x" + g.tmpl(names)}
		it.Default = it.Options[g.Intn(3)]
	case "multiselect":
		it.Options = []string{"a", "b", "c", "B,", "c ", " d", "a=b", "x" + g.tmpl(names)}
		g.Shuffle(len(it.Options), func(i, j int) { it.Options[i], it.Options[j] = it.Options[j], it.Options[i] })
		it.Defaults = append([]string{}, it.Options[:1+g.Intn(3)]...)
	case "number":
		it.Default = []string{"0", "7", "-3"}[g.Intn(3)]
	}
	return it
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	return o
}

// Gen makes scenario number n of the profile.
func Gen(p Profile, n int, root string) *Scenario {
	seed := Seed()*1000003 + int64(n)
	sc := &Scenario{Seed: seed, Root: root, DryRun: p.DryRun}
	g := &gen{Rand: rand.New(rand.NewSource(seed)), p: p, sc: sc}
	vals := []string{"a", "b", "${{ g0 }}", "x $${{ y }}", "false", `a == "a"`, ""}
	sc.Env = map[string]string{"EA": vals[g.Intn(len(vals))], "EB": vals[g.Intn(len(vals))], "ED": []string{"d0", "d1"}[g.Intn(2)], "EABS": filepath.Join(root, "p", []string{"d0", "d1"}[g.Intn(2)])}
	for _, k := range []string{"KA", "KB", "TERM"} {
		if g.chance(0.5) {
			sc.Env[k] = "proc-" + k
		}
	}
	sc.Main = g.file(filepath.Join(root, "p", "Babfile"), "", nil, 0)
	names := []string{}
	for n := range flatten(sc.Main) {
		names = append(names, n)
	}
	sort.Strings(names)
	sc.Target = "t0"
	if !p.OneBlock && g.chance(0.25) {
		sc.Target = names[g.Intn(len(names))]
	}
	sc.Cwd = filepath.Join(root, "cwd", "x")
	if g.chance(0.4) {
		sc.NoPath = true
		sc.Cwd = filepath.Join(root, []string{"p", "p/d0/e", "p/d1"}[g.Intn(3)])
	}
	return sc
}

// Explain is the violation record of a scenario.
func (sc *Scenario) Explain(ob *Obs, ms []Mismatch) map[string]any {
	files := map[string]string{}
	var w func(f *FileS)
	w = func(f *FileS) {
		rel, _ := filepath.Rel(sc.Root, f.Path)
		files[rel] = f.YAML()
		for _, i := range f.Incs {
			w(i.File)
		}
	}
	w(sc.Main)
	return map[string]any{"files": files, "args": sc.Args(), "env": sc.Env, "seed": sc.Seed, "stdout": cut(ob.Stdout), "stderr": cut(ob.Stderr), "exit": ob.Code, "trace": ob.Trace, "mismatches": ms}
}

func cut(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// RunScenarios runs n scenarios of the profile and reports the mismatches that
// concern the property; flip, when set, reruns with a changed scenario.
func RunScenarios(r *R, prop string, p Profile, n int) error {
	if _, err := Bab(); err != nil {
		return err
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	var once sync.Once
	var ferr error
	for w := 0; w < 2*runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if r.Violations() > 5 {
					continue
				}
				if err := one(r, prop, p, i); err != nil {
					once.Do(func() { ferr = err })
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return ferr
}

func one(r *R, prop string, p Profile, i int) error {
	root := Scratch()
	defer os.RemoveAll(root)
	sc := Gen(p, i, root)
	if err := sc.Write(); err != nil {
		return err
	}
	m, ok := sc.predict()
	ob, err := sc.Run()
	if err != nil {
		return err
	}
	key := ""
	if len(m.cmds)+len(m.logs) > 0 {
		key = fmt.Sprintf("%x", hash(sc.Main.YAML()))
	}
	r.Case(key)
	if strings.Contains(ob.Stderr, "invalid YAML") {
		return fmt.Errorf("generator made an invalid file: %s\n%s", ob.Stderr, sc.Main.YAML())
	}
	all := sc.Compare(m, ok, ob)
	var ms []Mismatch
	for _, x := range all {
		if p.Kinds[x.Kind] {
			ms = append(ms, x)
		}
	}
	if len(ms) > 0 {
		r.Violation(ms[0].Kind, ms[0].What, sc.Explain(ob, ms))
	}
	return nil
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// K builds a set of mismatch kinds.
func K(ks ...string) map[string]bool {
	m := map[string]bool{"crash": true, "hang": true}
	for _, k := range ks {
		m[k] = true
	}
	return m
}
