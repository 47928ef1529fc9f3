From 0db9c7687fff4e8edfc8455457eaa895e98502ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 01/19] fix: interpolate escapes and references in a single
 pass

A NUL-delimited placeholder was used to protect escaped braces, so text or
variable values containing the placeholder were rewritten.
---
 internal/interpolate/interpolate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..40c55c5 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -11,7 +11,7 @@ import (
 var Pattern = regexp.MustCompile(`\$\{\{\s*([a-zA-Z_][a-zA-Z0-9_.]*)\s*\}\}`)
 var EscapePattern = regexp.MustCompile(`\$\$\{\{`)
 
-const escapePlaceholder = "\x00ESCAPED_BRACE\x00"
+var tokenPattern = regexp.MustCompile(EscapePattern.String() + "|" + Pattern.String())
 
 type Context struct {
 	Vars map[string]string
@@ -40,9 +40,11 @@ func Interpolate(input string, ctx *Context) (string, error) {
 
 	var errs []error
 
-	result := EscapePattern.ReplaceAllString(input, escapePlaceholder)
+	result := tokenPattern.ReplaceAllStringFunc(input, func(match string) string {
+		if EscapePattern.MatchString(match) {
+			return "${{"
+		}
 
-	result = Pattern.ReplaceAllStringFunc(result, func(match string) string {
 		submatch := Pattern.FindStringSubmatch(match)
 		if len(submatch) < 2 {
 			return match
@@ -57,8 +59,6 @@ func Interpolate(input string, ctx *Context) (string, error) {
 		return value
 	})
 
-	result = strings.ReplaceAll(result, escapePlaceholder, "${{")
-
 	if len(errs) > 0 {
 		return result, errs[0]
 	}
-- 
2.43.0


From a1239bdcfbb778a3149759966e430d13f033775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 02/19] fix: do not treat escaped $${{ as a reference when
 resolving variables

A variable whose value mentions itself or another variable only in escaped
form was reported as a circular or undefined reference.
---
 internal/interpolate/interpolate.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 40c55c5..ef4c64e 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -146,13 +146,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
-		for _, match := range matches {
-			if len(match) < 2 {
-				continue
-			}
-			refName := match[1]
-
+		for _, refName := range ExtractVarRefs(raw) {
 			if strings.HasPrefix(refName, "env.") {
 				continue
 			}
@@ -195,10 +189,10 @@ func ContainsVarRef(s string) bool {
 }
 
 func ExtractVarRefs(s string) []string {
-	matches := Pattern.FindAllStringSubmatch(s, -1)
+	matches := tokenPattern.FindAllStringSubmatch(s, -1)
 	refs := make([]string, 0, len(matches))
 	for _, match := range matches {
-		if len(match) >= 2 {
+		if len(match) >= 2 && match[1] != "" {
 			refs = append(refs, match[1])
 		}
 	}
-- 
2.43.0


From 95a76a453b5445e57628abfde5303b4368e4cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 03/19] fix: do not interpolate resolved task environment a
 second time

---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..170a0fa 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -303,10 +303,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	itemEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv := babfile.MergeEnvMaps(taskEnv, itemEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From f905ed97e0a202560549b4851d2998c3fa412f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 04/19] fix: split a when comparison before interpolating its
 operands

---
 internal/condition/condition.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..4291f7c 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -23,27 +23,41 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 		return Result{ShouldRun: true, Reason: "no condition"}, nil
 	}
 
+	if left, op, right, ok := splitComparison(strings.TrimSpace(condition)); ok {
+		left, err := interpolate.Interpolate(left, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		right, err := interpolate.Interpolate(right, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		return evaluateOp(left, op, right), nil
+	}
+
 	interpolated, err := interpolate.Interpolate(condition, ctx)
 	if err != nil {
 		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
 	}
 
-	interpolated = strings.TrimSpace(interpolated)
-
-	if result, ok := evaluateComparison(interpolated); ok {
-		return result, nil
-	}
-
 	return evaluateTruthy(interpolated), nil
 }
 
 func evaluateComparison(s string) (Result, bool) {
+	left, op, right, ok := splitComparison(s)
+	if !ok {
+		return Result{}, false
+	}
+	return evaluateOp(left, op, right), true
+}
+
+func splitComparison(s string) (left, op, right string, ok bool) {
 	if matches := comparisonPatternSQ.FindStringSubmatch(s); len(matches) == 4 {
 		left := strings.TrimSpace(matches[1])
 		op := matches[2]
 		right := matches[3]
 		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+		return left, op, right, true
 	}
 
 	if matches := comparisonPatternDQ.FindStringSubmatch(s); len(matches) == 4 {
@@ -51,10 +65,10 @@ func evaluateComparison(s string) (Result, bool) {
 		op := matches[2]
 		right := matches[3]
 		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+		return left, op, right, true
 	}
 
-	return Result{}, false
+	return "", "", "", false
 }
 
 func evaluateOp(left, op, right string) Result {
-- 
2.43.0


From e9fa675da33ebffee86d6db1d20bb21f20e51bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 05/19] fix: keep silent and output of parallel blocks in
 included files

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..fdbf31c 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -124,6 +124,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Mode:      v.Mode,
 				Limit:     v.Limit,
 				Color:     v.Color,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Platforms: v.Platforms,
 				When:      v.When,
 			}
-- 
2.43.0


From 562fd744a89f1e25d798d99ab5e0b26bc7373255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 06/19] fix: keep lines terminated by CRLF in parallel output

---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..baf16b2 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimRight(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From 7cb62991bffd51040eff279daae6e393b3dfda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 07/19] fix: do not let later traversal overwrite a reported
 cycle chain

---
 internal/parser/validate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..134c9fa 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
@@ -115,7 +117,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: chain,
+						Chain: slices.Clone(chain),
 					})
 					return
 				}
@@ -145,7 +147,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 				verrs.Add(&errs.CircularDepError{
 					Path:  path,
 					Type:  "dependency",
-					Chain: chain,
+					Chain: slices.Clone(chain),
 				})
 				return
 			}
-- 
2.43.0


From c803888428942f92deb3f330348fee9eb7bed3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 08/19] fix: never hand out the parent variable map as the
 resolved one

---
 internal/interpolate/interpolate.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index ef4c64e..09fa1dc 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -93,17 +93,13 @@ func ResolveVars(vars map[string]string, parentVars map[string]string) (map[stri
 }
 
 func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]string, path string, line int) (map[string]string, error) {
-	if vars == nil {
-		if parentVars == nil {
-			return make(map[string]string), nil
-		}
-		return parentVars, nil
-	}
-
 	resolved := make(map[string]string)
 	for k, v := range parentVars {
 		resolved[k] = v
 	}
+	if vars == nil {
+		return resolved, nil
+	}
 
 	resolving := make(map[string]bool)
 	resolvedSet := make(map[string]bool)
-- 
2.43.0


From a97ee010040c4783b309bd53b7edd798124d1eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 09/19] fix: do not take a directory for a Babfile

---
 internal/finder/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..83dbc57 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -27,7 +27,7 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			if info, err := os.Stat(path); err == nil && !info.IsDir() {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
-- 
2.43.0


From 795002718304673da9892dc50e5ddd2c998c3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 10/19] fix: run included tasks without a dir in their own
 Babfile's directory

---
 internal/parser/include.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index fdbf31c..d71de31 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -35,6 +35,9 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		if taskDir == "" {
 			taskDir = result.GlobalDir
 		}
+		if taskDir == "" {
+			taskDir = "."
+		}
 
 		taskSilent := task.Silent
 		if taskSilent == nil {
-- 
2.43.0


From f2db927c555e11857e31bea6764656fbc52fd248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 11/19] fix: let only SGR sequences through the parallel output
 sanitizer

---
 internal/runner/writer.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index baf16b2..46082e3 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -16,26 +16,26 @@ import (
 )
 
 func sanitizeLine(line string) string {
-	if !strings.ContainsRune(line, '\x1b') && !strings.ContainsRune(line, 0x9b) {
+	if strings.IndexByte(line, '\x1b') < 0 && strings.IndexByte(line, 0x9b) < 0 {
 		return stripControlChars(line)
 	}
 	var b strings.Builder
 	b.Grow(len(line))
 	var state byte
-	p := ansi.NewParser()
 	input := line
 	for len(input) > 0 {
-		seq, _, n, newState := ansi.DecodeSequence(input, state, p)
+		seq, _, n, newState := ansi.DecodeSequence(input, state, nil)
 		if n == 0 {
 			break
 		}
 		state = newState
 		if ansi.HasCsiPrefix(seq) {
-			if p.Command()&0xff == 'm' {
+			if isSGR(seq) {
 				b.WriteString(seq)
 			}
-		} else if !ansi.HasOscPrefix(seq) && !ansi.HasEscPrefix(seq) &&
-			!ansi.HasDcsPrefix(seq) && !ansi.HasApcPrefix(seq) {
+		} else if !ansi.HasOscPrefix(seq) && !strings.Contains(seq, "\x1b") &&
+			!ansi.HasDcsPrefix(seq) && !ansi.HasApcPrefix(seq) &&
+			!ansi.HasSosPrefix(seq) && !ansi.HasPmPrefix(seq) {
 			b.WriteString(seq)
 		}
 		input = input[n:]
@@ -43,6 +43,15 @@ func sanitizeLine(line string) string {
 	return stripControlChars(b.String())
 }
 
+func isSGR(seq string) bool {
+	params, ok := strings.CutPrefix(seq, "\x1b[")
+	if !ok {
+		params, ok = strings.CutPrefix(seq, "\x9b")
+	}
+	params, final := strings.CutSuffix(params, "m")
+	return ok && final && strings.Trim(params, "0123456789;:") == ""
+}
+
 func stripControlChars(s string) string {
 	if !strings.ContainsFunc(s, isUnsafeControl) {
 		return s
@@ -58,12 +67,12 @@ func stripControlChars(s string) string {
 }
 
 func isUnsafeControl(r rune) bool {
-	return r < 0x20 && r != '\t' && r != '\x1b'
+	return r < 0x20 && r != '\t' && r != '\x1b' || r >= 0x7f && r <= 0x9f
 }
 
 func cleanLine(line string, strip bool) string {
 	if strip {
-		return ansi.Strip(line)
+		return stripControlChars(strings.ReplaceAll(ansi.Strip(line), "\x1b", ""))
 	}
 	return sanitizeLine(line)
 }
-- 
2.43.0


From a1ffd310274d586b41b3be06e8a42c2c1fca9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 12/19] fix: honour platforms and when of parallel block items

---
 internal/runner/parallel.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..5766fdc 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"strconv"
 	"strings"
 	"sync"
@@ -69,14 +70,31 @@ func (s *syncState) snapshot() map[string]status {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
-	labels := make([]string, len(pr.Items))
+	items := make([]babfile.RunItem, 0, len(pr.Items))
+	labels := make([]string, 0, len(pr.Items))
 	maxLabelLen := 0
-	for i := range pr.Items {
-		labels[i] = pr.ItemLabel(i)
-		if len(labels[i]) > maxLabelLen {
-			maxLabelLen = len(labels[i])
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
+			continue
+		}
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
 		}
+
+		label := pr.ItemLabel(i)
+		items = append(items, item)
+		labels = append(labels, label)
+		if len(label) > maxLabelLen {
+			maxLabelLen = len(label)
+		}
+	}
+	if len(items) == 0 {
+		return nil
 	}
+	pr.Items = items
 
 	noColor := parentNoColor || !pr.UseColor()
 
-- 
2.43.0


From c4f8ede9b88bdd5a9c57f55182e9e1d7646a4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 13/19] fix: fail a parallel block whose queued items were
 cancelled

---
 internal/runner/parallel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 5766fdc..42859b4 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -160,6 +160,9 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 				select {
 				case sem <- struct{}{}:
 				case <-ctx.Done():
+					firstErrOnce.Do(func() {
+						firstErr = fmt.Errorf("parallel item %q cancelled: %w", labels[idx], ctx.Err())
+					})
 					return
 				}
 				defer func() { <-sem }()
@@ -258,6 +261,9 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 				case sem <- struct{}{}:
 				case <-ctx.Done():
 					itemErrs[idx] = context.Canceled
+					firstErrOnce.Do(func() {
+						firstErr = fmt.Errorf("parallel item %q cancelled: %w", labels[idx], ctx.Err())
+					})
 
 					program.Send(tui.ItemDoneMsg{Key: childKey, Err: context.Canceled})
 					return
-- 
2.43.0


From 77e3942559c602869527a6871e81a28b84b9d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 14/19] fix: do not run dependencies of parallel tasks skipped
 by their when

---
 internal/runner/parallel.go |  5 +++++
 internal/runner/runner.go   | 33 ++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 42859b4..88aee2c 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -365,6 +365,11 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if shouldSkip, err := r.shouldSkipTask(tr.Task, task); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 170a0fa..a07d6f3 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -155,17 +155,11 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
-		result, err := condition.Evaluate(task.When, whenCtx)
-		if err != nil {
-			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-		}
-		if !result.ShouldRun {
-			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			state.set(name, done)
-			return nil
-		}
+	if shouldSkip, err := r.shouldSkipTask(name, task); err != nil {
+		return err
+	} else if shouldSkip {
+		state.set(name, done)
+		return nil
 	}
 
 	if !r.DryRun && !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
@@ -201,6 +195,23 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	return nil
 }
 
+func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
+	if task.When == "" {
+		return false, nil
+	}
+
+	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+	result, err := condition.Evaluate(task.When, whenCtx)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+	if !result.ShouldRun {
+		log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
+		return true, nil
+	}
+	return false, nil
+}
+
 func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babfile.TaskMap, state *syncState, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	platform := runtime.GOOS
 	executed := 0
-- 
2.43.0


From 25a5a4bda4ca8135ad19d0f67bccc7310134d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 15/19] fix: evaluate a task's when with the task's own
 variables

---
 internal/runner/runner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index a07d6f3..c61b928 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -200,7 +200,12 @@ func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
 		return false, nil
 	}
 
-	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	if err != nil {
+		return false, err
+	}
+
+	whenCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-- 
2.43.0


From 1c0d676e3a71fdf85c1478ea2bbaacf600ff6fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 16/19] fix: wait for a task already running in another
 parallel branch

---
 internal/runner/parallel.go | 32 ++++++++++++++++++++++++++++----
 internal/runner/runner.go   | 17 ++++++++++++++---
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 88aee2c..f990b61 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -32,9 +32,15 @@ func pathToKey(path []int) string {
 	return strings.Join(parts, ".")
 }
 
+type taskResult struct {
+	finished chan struct{}
+	err      error
+}
+
 type syncState struct {
-	mu    sync.Mutex
-	state map[string]status
+	mu      sync.Mutex
+	state   map[string]status
+	results map[string]*taskResult
 }
 
 func (s *syncState) get(name string) status {
@@ -43,10 +49,27 @@ func (s *syncState) get(name string) status {
 	return s.state[name]
 }
 
-func (s *syncState) set(name string, st status) {
+func (s *syncState) finish(name string, err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	s.state[name] = st
+	if err == nil {
+		s.state[name] = done
+	}
+	s.results[name].err = err
+	close(s.results[name].finished)
+}
+
+func (s *syncState) wait(ctx context.Context, name string) error {
+	s.mu.Lock()
+	result := s.results[name]
+	s.mu.Unlock()
+
+	select {
+	case <-result.finished:
+		return result.err
+	case <-ctx.Done():
+		return fmt.Errorf("cancelled: %w", ctx.Err())
+	}
 }
 
 func (s *syncState) claim(name string) status {
@@ -55,6 +78,7 @@ func (s *syncState) claim(name string) status {
 	current := s.state[name]
 	if current == 0 {
 		s.state[name] = running
+		s.results[name] = &taskResult{finished: make(chan struct{})}
 	}
 	return current
 }
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index c61b928..429906b 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -30,6 +30,9 @@ const (
 	done
 )
 
+// ancestorKey marks, in a task's context, the tasks that are waiting for it.
+type ancestorKey string
+
 type Runner struct {
 	DryRun       bool
 	Babfile      string
@@ -101,7 +104,7 @@ func (r *Runner) RunWithTasks(ctx context.Context, taskName string, tasks babfil
 		}
 	}
 
-	state := &syncState{state: make(map[string]status)}
+	state := &syncState{state: make(map[string]status), results: make(map[string]*taskResult)}
 	return r.runTask(ctx, taskName, tasks, state, true, nil, nil, nil, nil, false, nil)
 }
 
@@ -137,12 +140,22 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	case done:
 		return nil
 	case running:
+		if ctx.Value(ancestorKey(name)) == nil {
+			return state.wait(ctx, name)
+		}
 		return &errs.CircularDepError{
 			Type:  "dependency",
 			Chain: buildChainSlice(name, tasks, state.snapshot()),
 		}
 	}
 
+	ctx = context.WithValue(ctx, ancestorKey(name), true)
+	err := r.runClaimedTask(ctx, name, tasks, state, isMain, overrideSilent, overrideOutput, stdout, stderr, noColor, pctx)
+	state.finish(name, err)
+	return err
+}
+
+func (r *Runner) runClaimedTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	task, ok := tasks[name]
 	if !ok {
 		available := tasks.Names()
@@ -158,7 +171,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	if shouldSkip, err := r.shouldSkipTask(name, task); err != nil {
 		return err
 	} else if shouldSkip {
-		state.set(name, done)
 		return nil
 	}
 
@@ -191,7 +203,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	state.set(name, done)
 	return nil
 }
 
-- 
2.43.0


From e6e73e078a1f7751e5beb9646b8479af3a54775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 17/19] fix: use the default of a number prompt submitted empty

---
 internal/tui/prompt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..3e2e2f8 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -287,5 +287,9 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		return "", err
 	}
 
+	if result == "" {
+		result = p.Default
+	}
+
 	return result, nil
 }
-- 
2.43.0


From eae08c99622a47dc1f7b8eaafe2b0cab60298cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 18/19] fix: reject Babfile string settings that are not
 strings

A list or mapping given for desc, alias, when, cmd, task, log, level, label
or a prompt field was silently read as an empty string, so for example
'when: [cond]' dropped the condition and ran the item.
---
 internal/parser/unmarshal.go | 62 +++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 5720a8b..a63eff9 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,16 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+func parseString(path, setting string, node *yaml.Node, target *string, verrs *errs.ValidationErrors) bool {
+	if node.Kind != yaml.ScalarNode {
+		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("%s must be a string", setting)})
+		return false
+	}
+
+	*target = node.Value
+	return true
+}
+
 func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	var root yaml.Node
 	if err := yaml.Unmarshal(data, &root); err != nil {
@@ -242,9 +252,13 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 
 		switch key.Value {
 		case keyDesc:
-			task.Desc = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: desc", taskName), val, &task.Desc, verrs) {
+				hasErrors = true
+			}
 		case keyAlias:
-			task.Alias = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: alias", taskName), val, &task.Alias, verrs) {
+				hasErrors = true
+			}
 		case keyAliases:
 			if err := val.Decode(&task.Aliases); err != nil {
 				verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: invalid aliases", taskName), Cause: err})
@@ -274,7 +288,9 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 				task.Dir = val.Value
 			}
 		case keyWhen:
-			task.When = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: when", taskName), val, &task.When, verrs) {
+				hasErrors = true
+			}
 		case keyDeps:
 			task.DepsLine = key.Line
 			if err := val.Decode(&task.Deps); err != nil {
@@ -317,17 +333,17 @@ func parseRunItems(path string, node *yaml.Node, taskName string, verrs *errs.Va
 func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string, index int, verrs *errs.ValidationErrors) bool {
 	switch key.Value {
 	case keyPrompt:
-		pf.name = val.Value
+		return parseString(path, fmt.Sprintf("task %q: run[%d]: prompt", taskName, index), val, &pf.name, verrs)
 	case keyType:
-		pf.promptType = val.Value
+		return parseString(path, fmt.Sprintf("task %q: run[%d]: type", taskName, index), val, &pf.promptType, verrs)
 	case keyMessage:
-		pf.message = val.Value
+		return parseString(path, fmt.Sprintf("task %q: run[%d]: message", taskName, index), val, &pf.message, verrs)
 	case keyDefault:
-		pf.dflt = val.Value
+		return parseString(path, fmt.Sprintf("task %q: run[%d]: default", taskName, index), val, &pf.dflt, verrs)
 	case keyPlaceholder:
-		pf.placeholder = val.Value
+		return parseString(path, fmt.Sprintf("task %q: run[%d]: placeholder", taskName, index), val, &pf.placeholder, verrs)
 	case keyValidate:
-		pf.validate = val.Value
+		return parseString(path, fmt.Sprintf("task %q: run[%d]: validate", taskName, index), val, &pf.validate, verrs)
 	case keyOptions:
 		if err := val.Decode(&pf.options); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid options", taskName, index), Cause: err})
@@ -435,7 +451,9 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 
 		switch key.Value {
 		case keyCmd:
-			rf.cmd = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: run[%d]: cmd", taskName, index), val, &rf.cmd, verrs) {
+				rf.hasErrors = true
+			}
 		case keyDir:
 			if val.Kind != yaml.ScalarNode {
 				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: run[%d]: dir must be a string", taskName, index)})
@@ -444,13 +462,23 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.dir = val.Value
 			}
 		case keyWhen:
-			rf.when = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: run[%d]: when", taskName, index), val, &rf.when, verrs) {
+				rf.hasErrors = true
+			}
 		case keyTask:
-			rf.task = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: run[%d]: task", taskName, index), val, &rf.task, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLog:
-			rf.log = val.Value
+			if !parseString(path, fmt.Sprintf("task %q: run[%d]: log", taskName, index), val, &rf.log, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLevel:
-			rf.level = babfile.LogLevel(val.Value)
+			var level string
+			if !parseString(path, fmt.Sprintf("task %q: run[%d]: level", taskName, index), val, &level, verrs) {
+				rf.hasErrors = true
+			}
+			rf.level = babfile.LogLevel(level)
 		case keyEnv:
 			if !parseEnvMap(path, val, &rf.env, verrs) {
 				rf.hasErrors = true
@@ -470,6 +498,10 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.hasErrors = true
 			}
 		case keyLabel:
+			var label string
+			if !parseString(path, fmt.Sprintf("task %q: run[%d]: label", taskName, index), val, &label, verrs) {
+				rf.hasErrors = true
+			}
 		default:
 			if !parsePromptKey(key, val, &rf.pf, path, taskName, index, verrs) {
 				rf.hasErrors = true
@@ -531,7 +563,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		pf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 		return ok
 	case keyWhen:
-		pf.when = val.Value
+		return parseString(path, fmt.Sprintf("%s: when", prefix), val, &pf.when, verrs)
 	default:
 		verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("%s: unknown key %q in parallel block", prefix, key.Value)})
 		return false
-- 
2.43.0


From aada7c96042d230061e251775345d2e0517f0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 19/19] fix: resolve YAML aliases in a Babfile

An alias given for a string setting was read as the alias's own name (so
'cmd: *c' ran the command "c") and an alias for a mapping was rejected.
Aliases are now replaced by the value they refer to when the file is loaded;
an anchor that contains itself is an error.
---
 internal/parser/unmarshal.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index a63eff9..02d2529 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -147,6 +147,30 @@ func parseString(path, setting string, node *yaml.Node, target *string, verrs *e
 	return true
 }
 
+// resolveAliases replaces every alias below node by the node it refers to.
+// inside maps the nodes seen so far to whether they are still being walked.
+func resolveAliases(path string, node *yaml.Node, inside map[*yaml.Node]bool) error {
+	inside[node] = true
+	for i, child := range node.Content {
+		if child.Kind == yaml.AliasNode {
+			child = child.Alias
+			node.Content[i] = child
+		}
+		active, seen := inside[child]
+		if active {
+			return &errs.ParseError{Path: path, Line: child.Line, Message: fmt.Sprintf("anchor %q contains itself", child.Anchor)}
+		}
+		if seen {
+			continue
+		}
+		if err := resolveAliases(path, child, inside); err != nil {
+			return err
+		}
+	}
+	inside[node] = false
+	return nil
+}
+
 func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	var root yaml.Node
 	if err := yaml.Unmarshal(data, &root); err != nil {
@@ -157,6 +181,10 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid document"}
 	}
 
+	if err := resolveAliases(path, &root, make(map[*yaml.Node]bool)); err != nil {
+		return nil, err
+	}
+
 	doc := root.Content[0]
 	if doc.Kind != yaml.MappingNode {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
-- 
2.43.0

