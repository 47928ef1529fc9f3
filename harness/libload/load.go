// Package verifload: random Babfile texts with their intended content, and the
// canonical form of a loaded file (overlaid into /repo by the harnesses).
package verifload

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/bab-sh/bab/internal/babfile"
	"github.com/bab-sh/bab/internal/parser"
	"github.com/bab-sh/bab/internal/verifh"
)

// KV is an ordered mapping entry of a YAML text; V is string, bool, int, []any or []KV.
type KV struct {
	K string
	V any
}

type W struct {
	R *verifh.R
	B strings.Builder
	A map[string]string // anchored values so far
}

// anchor writes a string (or a list of strings) as an alias of an earlier equal
// value ("", alias) or with an anchor in front (prefix, "").
func (w *W) anchor(v any) (string, string) {
	key := fmt.Sprintf("%T %q", v, v)
	if n, ok := w.A[key]; ok && w.R.Intn(3) == 0 {
		return "", "*" + n
	}
	if w.R.Intn(8) != 0 {
		return "", ""
	}
	if w.A == nil {
		w.A = map[string]string{}
	}
	n := fmt.Sprintf("v%d", len(w.A))
	if _, ok := w.A[key]; ok {
		return "", ""
	}
	w.A[key] = n
	return "&" + n + " ", ""
}

func plainSafe(s string) bool {
	if s == "" || strings.TrimSpace(s) != s {
		return false
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '/' || c == '.') {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "true", "false", "yes", "no", "on", "off", "null", "y", "n", "nan", ".nan", ".inf":
		return false
	}
	return !strings.HasPrefix(s, ".")
}

func quote(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	return strings.TrimSpace(b.String())
}

func (w *W) scalar(s string) string {
	switch {
	case plainSafe(s) && w.R.Intn(2) == 0:
		return s
	case w.R.Intn(3) == 0 && !strings.ContainsAny(s, "\n\t\r\x00") && s != "":
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return quote(s)
}

func (w *W) flow(v any) string {
	switch x := v.(type) {
	case string:
		pre, al := w.anchor(x)
		if al != "" {
			return al
		}
		return pre + quote(x)
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, w.flow(e))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case []string:
		var p []string
		for _, e := range x {
			p = append(p, quote(e))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case []KV:
		var p []string
		for _, e := range x {
			p = append(p, quote(e.K)+": "+w.flow(e.V))
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	return fmt.Sprint(v)
}

// value writes v after "key:" or "-" at the given indentation.
func (w *W) value(v any, ind int) {
	pad := strings.Repeat(" ", ind)
	switch x := v.(type) {
	case string:
		pre, al := w.anchor(x)
		if al != "" {
			w.B.WriteString(" " + al + "\n")
			return
		}
		pre = " " + strings.TrimSuffix(pre, " ")
		w.B.WriteString(strings.TrimSuffix(pre, " "))
		if strings.Contains(x, "\n") && !strings.Contains(x, "\t") && strings.HasSuffix(x, "\n") && !strings.HasSuffix(x, "\n\n") && !strings.HasPrefix(x, " ") && !strings.HasPrefix(x, "\n") && w.R.Intn(2) == 0 {
			w.B.WriteString(" |\n")
			for _, l := range strings.Split(strings.TrimSuffix(x, "\n"), "\n") {
				w.B.WriteString(pad + "  " + l + "\n")
			}
			return
		}
		w.B.WriteString(" " + w.scalar(x) + "\n")
	case []string:
		pre, al := w.anchor(x)
		if al != "" {
			w.B.WriteString(" " + al + "\n")
			return
		}
		w.B.WriteString(strings.TrimSuffix(" "+strings.TrimSuffix(pre, " "), " "))
		l := make([]any, len(x))
		for i := range x {
			l[i] = x[i]
		}
		w.value(l, ind)
	case []any:
		if len(x) == 0 || w.R.Intn(3) == 0 {
			w.B.WriteString(" " + w.flow(x) + "\n")
			return
		}
		w.B.WriteString("\n")
		for _, e := range x {
			w.B.WriteString(pad + "  -")
			w.item(e, ind+4)
		}
	case []KV:
		if len(x) == 0 || w.R.Intn(4) == 0 {
			w.B.WriteString(" " + w.flow(x) + "\n")
			return
		}
		w.B.WriteString("\n")
		for _, e := range x {
			w.B.WriteString(pad + "  " + w.scalar(e.K) + ":")
			w.value(e.V, ind+2)
		}
	default:
		w.B.WriteString(" " + fmt.Sprint(v) + "\n")
	}
}

func (w *W) item(v any, ind int) {
	x, ok := v.([]KV)
	if !ok || len(x) == 0 {
		w.value(v, ind-2)
		return
	}
	if w.R.Intn(3) == 0 {
		w.B.WriteString(" " + w.flow(x) + "\n")
		return
	}
	for i, e := range x {
		if i == 0 {
			w.B.WriteString(" ")
		} else {
			w.B.WriteString(strings.Repeat(" ", ind))
		}
		w.B.WriteString(w.scalar(e.K) + ":")
		w.value(e.V, ind)
	}
}

// Text renders a document.
func Text(r *verifh.R, doc []KV) string {
	w := &W{R: r}
	for _, e := range doc {
		w.B.WriteString(e.K + ":")
		w.value(e.V, 0)
	}
	return w.B.String()
}

// ---- canonical form ----

// Canon is the canonical form of a loaded file.
func Canon(pr *parser.ParseResult, full bool) map[string]any {
	m := map[string]any{}
	if full {
		m["vars"] = strMap(pr.GlobalVars)
		m["env"] = strMap(pr.GlobalEnv)
		m["silent"] = b(pr.GlobalSilent)
		m["output"] = b(pr.GlobalOutput)
		m["dir"] = pr.GlobalDir
	}
	ts := map[string]any{}
	for n, t := range pr.Tasks {
		ts[n] = Task(t)
	}
	m["tasks"] = ts
	return m
}

func Task(t *babfile.Task) map[string]any {
	return map[string]any{"name": t.Name, "desc": t.Desc, "aliases": list(t.GetAllAliases()), "vars": strMap(t.Vars), "env": strMap(t.Env), "silent": b(t.Silent), "output": b(t.Output), "dir": t.Dir, "when": t.When, "deps": list(t.Deps), "run": items(t.Run)}
}

func items(l []babfile.RunItem) []any {
	o := []any{}
	for _, it := range l {
		o = append(o, Item(it))
	}
	return o
}

func Item(it babfile.RunItem) any {
	switch v := it.(type) {
	case babfile.CommandRun:
		return map[string]any{"kind": "cmd", "cmd": v.Cmd, "dir": v.Dir, "env": strMap(v.Env), "silent": b(v.Silent), "output": b(v.Output), "platforms": plats(v.Platforms), "when": v.When}
	case babfile.TaskRun:
		return map[string]any{"kind": "task", "task": v.Task, "silent": b(v.Silent), "output": b(v.Output), "platforms": plats(v.Platforms), "when": v.When}
	case babfile.LogRun:
		return map[string]any{"kind": "log", "log": v.Log, "level": string(v.Level), "platforms": plats(v.Platforms), "when": v.When}
	case babfile.PromptRun:
		return map[string]any{"kind": "prompt", "prompt": v.Prompt, "type": string(v.Type), "message": v.Message, "default": v.Default, "defaults": list(v.Defaults), "options": list(v.Options), "placeholder": v.Placeholder, "validate": v.Validate, "min": i(v.Min), "max": i(v.Max), "confirm": b(v.Confirm), "platforms": plats(v.Platforms), "when": v.When}
	case babfile.ParallelRun:
		lab := []any{}
		for k := range v.Items {
			lab = append(lab, v.ItemLabel(k))
		}
		return map[string]any{"kind": "parallel", "items": items(v.Items), "labels": lab, "mode": string(v.Mode), "limit": fmt.Sprint(v.Limit), "color": b(v.Color), "silent": b(v.Silent), "output": b(v.Output), "platforms": plats(v.Platforms), "when": v.When}
	}
	return fmt.Sprintf("unknown %T", it)
}

func strMap(m map[string]string) map[string]any {
	o := map[string]any{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func b(p *bool) string {
	if p == nil {
		return "unset"
	}
	return fmt.Sprint(*p)
}

func i(p *int) string {
	if p == nil {
		return "unset"
	}
	return fmt.Sprint(*p)
}

func list(l []string) []any {
	o := []any{}
	for _, x := range l {
		o = append(o, x)
	}
	return o
}

func plats(l []babfile.Platform) []any {
	o := []any{}
	for _, x := range l {
		o = append(o, string(x))
	}
	return o
}

// JSON is a deterministic text of a canonical form.
func JSON(v any) string {
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	_ = e.Encode(v)
	return bb.String()
}

// Diff is the first differing line of two canonical texts.
func Diff(a, bt string) string {
	x, y := strings.Split(a, "\n"), strings.Split(bt, "\n")
	for k := 0; k < len(x) && k < len(y); k++ {
		if x[k] != y[k] {
			lo := k - 3
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("line %d: got %q, want %q (after %q)", k, strings.TrimSpace(x[k]), strings.TrimSpace(y[k]), x[lo:k])
		}
	}
	return fmt.Sprintf("length %d, want %d", len(x), len(y))
}

// ---- generator ----

// Doc is a generated file: text, the intended content and the fault planted ("" = none).
type Doc struct {
	Text  string
	Want  map[string]any
	Fault string
	Names []string
}

type g struct {
	r      *verifh.R
	fault  string // what to plant
	place  int    // which eligible item gets it
	seen   int
	landed bool
}

var strs = []string{"a", "echo hi", "x: y", "- z", "#c", "${{ v }}", "true", "1", "é ü", "a'b", `q"q`, " lead", "trail ", "l1\nl2\n", "{x}", "[y]", "*a", "&b", "!t", "%p", "@q", "0x1f", "~", "null", "a\tb", "|", ">", "a #b", "k: v: w", "1e3", "2024-01-01", "\\n"}

func (g *g) str() string {
	s := strs[g.r.Intn(len(strs))]
	if g.r.Intn(3) == 0 {
		s += strs[g.r.Intn(len(strs))]
	}
	return s
}

func (g *g) c(p float64) bool { return g.r.Float64() < p }

func (g *g) strMap(kvs *[]KV, key string, want map[string]any) {
	m := map[string]any{}
	var o []KV
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		k := verifh.Pick(g.r, "A", "b", "C_1", "d.e", "long key", "on", "1")
		if _, dup := m[k]; dup {
			continue
		}
		if g.c(0.15) {
			v := g.r.Intn(50)
			m[k] = fmt.Sprint(v)
			o = append(o, KV{k, v})
			continue
		}
		v := g.str()
		m[k] = v
		o = append(o, KV{k, v})
	}
	*kvs = append(*kvs, KV{key, o})
	want[key] = m
}

func (g *g) bool(kvs *[]KV, key string, want map[string]any, p float64) {
	want[key] = "unset"
	if g.c(p) {
		v := g.c(0.5)
		*kvs = append(*kvs, KV{key, v})
		want[key] = fmt.Sprint(v)
	}
}

func (g *g) opt(kvs *[]KV, key string, want map[string]any, p float64) {
	want[key] = ""
	if g.c(p) {
		v := g.str()
		*kvs = append(*kvs, KV{key, v})
		want[key] = v
	}
}

func (g *g) plats(kvs *[]KV, want map[string]any) {
	want["platforms"] = []any{}
	if g.c(0.25) {
		l := verifh.Pick(g.r, []string{"linux"}, []string{"darwin", "linux"}, []string{"windows"}, []string{"windows", "darwin", "linux"})
		*kvs = append(*kvs, KV{"platforms", l})
		want["platforms"] = list(l)
	}
}

func (g *g) shuffle(kvs []KV) []KV {
	g.r.Shuffle(len(kvs), func(a, b int) { kvs[a], kvs[b] = kvs[b], kvs[a] })
	return kvs
}

// item makes one run item; inPar forbids what a parallel block forbids.
func (g *g) item(inPar bool, names []string) (any, map[string]any) {
	want := map[string]any{}
	var kvs []KV
	kind := verifh.Pick(g.r, "cmd", "cmd", "task", "log", "prompt", "parallel")
	if inPar && (kind == "prompt" || kind == "parallel") {
		kind = "cmd"
	}
	if kind == "task" && len(names) == 0 {
		kind = "log"
	}
	want["kind"] = kind
	if inPar && g.c(0.4) {
		kvs = append(kvs, KV{"label", "lab " + verifh.Pick(g.r, "x", "y", "[z]")})
	}
	switch kind {
	case "cmd":
		v := g.str()
		kvs = append(kvs, KV{"cmd", v})
		want["cmd"] = v
		g.opt(&kvs, "dir", want, 0.2)
		want["env"] = map[string]any{}
		if g.c(0.3) {
			g.strMap(&kvs, "env", want)
		}
		g.bool(&kvs, "silent", want, 0.25)
		g.bool(&kvs, "output", want, 0.25)
	case "task":
		v := names[g.r.Intn(len(names))]
		kvs = append(kvs, KV{"task", v})
		want["task"] = v
		g.bool(&kvs, "silent", want, 0.25)
		g.bool(&kvs, "output", want, 0.25)
	case "log":
		v := g.str()
		kvs = append(kvs, KV{"log", v})
		want["log"] = v
		want["level"] = "info"
		if g.c(0.5) {
			l := verifh.Pick(g.r, "debug", "info", "warn", "error")
			kvs = append(kvs, KV{"level", l})
			want["level"] = l
		}
	case "prompt":
		kvs, want = g.prompt()
	case "parallel":
		its, wi := []any{}, []any{}
		lab := []any{}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			x, w := g.item(true, names)
			its, wi = append(its, x), append(wi, w)
			lab = append(lab, label(x, w))
		}
		want["items"], want["labels"] = wi, lab
		kvs = append(kvs, KV{"parallel", its})
		want["mode"] = "interleaved"
		if g.c(0.4) {
			m := verifh.Pick(g.r, "interleaved", "grouped", "tabs")
			kvs = append(kvs, KV{"mode", m})
			want["mode"] = m
		}
		want["limit"] = "0"
		if g.c(0.4) {
			n := g.r.Intn(5)
			kvs = append(kvs, KV{"limit", n})
			want["limit"] = fmt.Sprint(n)
		}
		g.bool(&kvs, "color", want, 0.25)
		g.bool(&kvs, "silent", want, 0.25)
		g.bool(&kvs, "output", want, 0.25)
	}
	if kind != "prompt" {
		g.plats(&kvs, want)
		g.opt(&kvs, "when", want, 0.25)
	}
	kvs = g.shuffle(kvs)
	return g.plant(kind, inPar, kvs), want
}

func label(x any, w map[string]any) string {
	if kvs, ok := x.([]KV); ok {
		for _, e := range kvs {
			if s, ok := e.V.(string); ok && e.K == "label" {
				return s
			}
		}
	}
	for _, k := range []string{"task", "cmd", "log"} {
		if s, ok := w[k].(string); ok && w["kind"] == k {
			if k == "task" {
				return s
			}
			r := []rune(s)
			if len(r) > 20 {
				r = r[:20]
			}
			return string(r)
		}
	}
	return ""
}

// Prompt kinds and their constraints are C16's; here only valid ones.
func (g *g) prompt() ([]KV, map[string]any) {
	want := map[string]any{"kind": "prompt", "default": "", "defaults": []any{}, "options": []any{}, "placeholder": "", "validate": "", "min": "unset", "max": "unset", "confirm": "unset"}
	t := verifh.Pick(g.r, "confirm", "input", "select", "multiselect", "password", "number")
	n := verifh.Pick(g.r, "pv", "_x", "A9")
	msg := g.str()
	kvs := []KV{{"prompt", n}, {"type", t}, {"message", msg}}
	want["prompt"], want["type"], want["message"] = n, t, msg
	set := func(k string, v any, w any) { kvs = append(kvs, KV{k, v}); want[k] = w }
	switch t {
	case "confirm":
		if g.c(0.6) {
			set("default", "true", "true")
		}
	case "input":
		if g.c(0.5) {
			v := g.str()
			set("default", v, v)
		}
		if g.c(0.4) {
			v := g.str()
			set("placeholder", v, v)
		}
		if g.c(0.4) {
			set("validate", "^[a-z]+$", "^[a-z]+$")
		}
	case "select":
		o := []string{"one", "two: 2", "3"}
		set("options", o, list(o))
		if g.c(0.5) {
			set("default", "two: 2", "two: 2")
		}
	case "multiselect":
		o := []string{"one", "two", "b c"}
		set("options", o, list(o))
		if g.c(0.5) {
			set("defaults", []string{"b c", "one"}, list([]string{"b c", "one"}))
		}
		if g.c(0.5) {
			set("min", 1, "1")
		}
		if g.c(0.5) {
			set("max", 2, "2")
		}
	case "password":
		g.bool(&kvs, "confirm", want, 0.5)
	case "number":
		if g.c(0.5) {
			set("default", "7", "7")
		}
		if g.c(0.5) {
			set("min", -3, "-3")
		}
		if g.c(0.5) {
			set("max", 9, "9")
		}
	}
	g.plats(&kvs, want)
	g.opt(&kvs, "when", want, 0.25)
	return kvs, want
}

// Faults that must make loading fail.
var Faults = []string{"nokind", "twokinds", "platform", "level", "mode", "neglimit", "nested", "promptin", "duptask", "scalaritem", "emptyitem", "badbool", "badenv", "badlimit", "parcmd", "emptypar", "parscalar", "badvars", "taskscalar", "runscalar", "badprompt", "badstring"}

func (g *g) plant(kind string, inPar bool, kvs []KV) any {
	elig := false
	switch g.fault {
	case "nokind", "twokinds", "scalaritem", "emptyitem":
		elig = kind != "parallel"
	case "platform", "badstring":
		elig = true
	case "level":
		elig = kind == "log"
	case "badbool", "badenv":
		elig = kind == "cmd"
	case "mode", "neglimit", "badlimit", "parcmd", "emptypar", "parscalar", "nested", "promptin":
		elig = kind == "parallel"
	case "badprompt":
		elig = kind == "prompt"
	}
	if !elig {
		return kvs
	}
	g.seen++
	if g.landed || g.seen <= g.place {
		return kvs
	}
	g.landed = true
	set := func(k string, v any) {
		for n := range kvs {
			if kvs[n].K == k {
				kvs[n].V = v
				return
			}
		}
		kvs = append(kvs, KV{k, v})
	}
	switch g.fault {
	case "nokind":
		var o []KV
		for _, e := range kvs {
			if e.K != kind {
				o = append(o, e)
			}
		}
		if len(o) == 0 || g.r.Intn(3) == 0 {
			o = append(o, KV{"when", "x"})
		}
		return o
	case "twokinds":
		for {
			k := verifh.Pick(g.r, "cmd", "task", "log", "prompt")
			if k != kind {
				kvs = append(kvs, KV{k, "t0"})
				break
			}
		}
		return g.shuffle(kvs)
	case "scalaritem":
		return "just text"
	case "emptyitem":
		return []KV{}
	case "platform":
		set("platforms", verifh.Pick(g.r, []string{"linux", "beos"}, []string{"Linux"}, []string{"freebsd"}, []string{"", "linux"}))
	case "level":
		set("level", verifh.Pick(g.r, "fatal", "INFO", "warning"))
	case "badbool":
		set("silent", verifh.Pick[any](g.r, "maybe", 3, []string{"true"}))
	case "badenv":
		set("env", verifh.Pick[any](g.r, "A=b", []string{"A"}, []KV{{"A", []string{"x"}}}))
	case "mode":
		set("mode", verifh.Pick(g.r, "group", "Tabs", "parallel"))
	case "neglimit":
		set("limit", -1-g.r.Intn(3))
	case "badlimit":
		set("limit", verifh.Pick[any](g.r, "two", "1.5", []string{"1"}))
	case "parcmd":
		set(verifh.Pick(g.r, "cmd", "log", "task", "prompt"), "t0")
		return g.shuffle(kvs)
	case "emptypar":
		set("parallel", []any{})
	case "parscalar":
		set("parallel", "text")
	case "nested", "promptin":
		for n := range kvs {
			if kvs[n].K == "parallel" {
				var bad any = []KV{{"parallel", []any{[]KV{{"cmd", "x"}}}}}
				if g.fault == "promptin" {
					bad = []KV{{"prompt", "p"}, {"type", "input"}, {"message", "m"}}
				}
				l := append([]any{}, kvs[n].V.([]any)...)
				at := g.r.Intn(len(l) + 1)
				l = append(l[:at], append([]any{bad}, l[at:]...)...)
				kvs[n].V = l
			}
		}
	case "badprompt":
		set("type", "text")
	case "badstring": // a string setting that is a list or mapping
		ks := []string{"when"}
		switch kind {
		case "cmd", "task":
			ks = append(ks, kind)
		case "log":
			ks = append(ks, kind, "level")
		case "prompt":
			ks = append(ks, kind, "type", "message", "default", "placeholder", "validate")
		case "parallel":
			ks = append(ks, "mode")
		}
		if inPar {
			ks = append(ks, "label")
		}
		set(ks[g.r.Intn(len(ks))], verifh.Pick[any](g.r, []string{"x"}, []KV{{"a", "b"}}, []any{}))
	}
	return kvs
}

// Gen makes a document; with a fault it must be rejected.
func Gen(r *verifh.R, fault string) Doc {
	for {
		gg := &g{r: r, fault: fault, place: r.Intn(3)}
		d := gg.doc()
		if fault == "" || gg.landed {
			return d
		}
	}
}

func (g *g) doc() Doc {
	want := map[string]any{"vars": map[string]any{}, "env": map[string]any{}}
	var doc []KV
	if g.c(0.4) {
		g.strMap(&doc, "vars", want)
	}
	if g.c(0.4) {
		g.strMap(&doc, "env", want)
	}
	g.bool(&doc, "silent", want, 0.3)
	g.bool(&doc, "output", want, 0.3)
	g.opt(&doc, "dir", want, 0.3)
	if g.fault == "badvars" {
		g.landed = true
		doc = append(doc, KV{verifh.Pick(g.r, "vars", "env"), verifh.Pick[any](g.r, "x", []string{"a"}, []KV{{"A", []KV{{"x", "y"}}}})})
	}
	n := 1 + g.r.Intn(4)
	tasks := make([]KV, n)
	wt := map[string]any{}
	var names []string
	for k := n - 1; k >= 0; k-- {
		name := fmt.Sprintf("t%d", k)
		var kvs []KV
		w := map[string]any{"name": name, "vars": map[string]any{}, "env": map[string]any{}, "aliases": []any{}, "deps": []any{}}
		g.opt(&kvs, "desc", w, 0.4)
		var al []string
		if g.c(0.3) {
			kvs = append(kvs, KV{"alias", "x" + name})
			al = append(al, "x"+name)
		}
		if g.c(0.3) {
			kvs = append(kvs, KV{"aliases", []string{"y" + name, "z" + name}})
			al = append(al, "y"+name, "z"+name)
		}
		w["aliases"] = list(al)
		if g.c(0.3) {
			g.strMap(&kvs, "vars", w)
		}
		if g.c(0.3) {
			g.strMap(&kvs, "env", w)
		}
		g.bool(&kvs, "silent", w, 0.25)
		g.bool(&kvs, "output", w, 0.25)
		g.opt(&kvs, "dir", w, 0.25)
		g.opt(&kvs, "when", w, 0.25)
		if len(names) > 0 && g.c(0.4) {
			dp := append([]string{}, names...)
			g.r.Shuffle(len(dp), func(a, b int) { dp[a], dp[b] = dp[b], dp[a] })
			dp = dp[:1+g.r.Intn(len(dp))]
			kvs = append(kvs, KV{"deps", dp})
			w["deps"] = list(dp)
		}
		its, wi := []any{}, []any{}
		for m := 1 + g.r.Intn(4); m > 0; m-- {
			x, xw := g.item(false, names)
			its, wi = append(its, x), append(wi, xw)
		}
		var rv any = its
		if g.fault == "runscalar" && !g.landed {
			g.landed = true
			rv = "echo hi"
		}
		kvs = append(kvs, KV{"run", rv})
		w["run"] = wi
		var tv any = g.shuffle(kvs)
		if g.fault == "taskscalar" && !g.landed {
			g.landed = true
			tv = verifh.Pick[any](g.r, "echo hi", []any{"x"})
		}
		tasks[k] = KV{name, tv}
		wt[name] = w
		names = append(names, name)
	}
	if g.fault == "duptask" {
		g.landed = true
		d := tasks[g.r.Intn(len(tasks))]
		if g.c(0.5) {
			d = KV{d.K, []KV{{"run", []any{[]KV{{"cmd", "other"}}}}}}
		}
		tasks = append(tasks, d)
	}
	g.r.Shuffle(len(tasks), func(a, b int) { tasks[a], tasks[b] = tasks[b], tasks[a] })
	doc = append(doc, KV{"tasks", tasks})
	doc = g.shuffle(doc)
	want["tasks"] = wt
	sort.Strings(names)
	return Doc{Text: Text(g.r, doc), Want: want, Fault: g.fault, Names: names}
}
