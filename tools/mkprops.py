import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Reference substitution is exact and single-pass",
 "Wherever text is interpolated, every ${{ name }} is replaced by that variable's value (the process environment's value for env.NAME, empty when unset), every $${{ becomes a literal ${{, and every other byte - including text that came out of a substituted value - is left unchanged. A reference to an undefined variable is an error that names it; it is never silently replaced.",
 ["inputs"],"every text, every variable map and every environment",
 "Tests sample a few dozen strings; the guarantee is about every text and every value, including values that themselves look like references, escapes or control bytes.",
 ["internal/interpolate/interpolate.go","internal/errs/interpolate.go"],[("Interpolate","internal/interpolate/interpolate.go"),("resolveVar","internal/interpolate/interpolate.go")],["result and error of interpolation","the command line, message, path or environment value a task ends up using"])
p("C02","Variable resolution is a fixpoint, independent of order",
 "Resolving variables over a parent scope gives each variable its own definition with every reference replaced by the final value of the variable it names, and keeps every parent variable that is not redefined; the outcome does not depend on the order of definition. It always terminates: a reference cycle or an undefined reference is an error and never a value. The parent scope is never changed, neither by resolving nor by later changes to the result.",
 ["inputs"],"every set of definitions, every parent scope and every iteration order of the variable maps",
 "Go map iteration order is random and reference graphs are unbounded; tests run a few small acyclic maps and one or two cycles.",
 ["internal/interpolate/interpolate.go"],[("ResolveVarsWithLocation","internal/interpolate/interpolate.go"),("ExtractVarRefs","internal/interpolate/interpolate.go")],["resolved variable map","variables visible to commands"])
p("C03","A `when` condition means what its text says",
 "An absent condition runs; a condition written as a comparison (== or != with a quoted right operand) runs exactly when its two operands, after interpolation, are equal (respectively different) strings; any other condition runs exactly when its interpolated text, trimmed of white space, is neither empty nor \"false\" in any letter case. Operator and quotes are those written in the condition: no variable value can add, remove or change them. A condition that cannot be interpolated is an error, never a decision.",
 ["inputs"],"every condition text and every variable value",
 "The tests use well-behaved values; empty values, quotes, operators, line breaks and blanks in values are what changes the decision.",
 ["internal/condition/condition.go"],[("Evaluate","internal/condition/condition.go"),("evaluateOp","internal/condition/condition.go"),("evaluateTruthy","internal/condition/condition.go")],["whether the task or item ran"])
p("C04","Run items run in order, gated by platform and condition",
 "The run items of a task are executed one after the other in the order written, each at most once, and an item - also an item inside a parallel block - is executed if and only if it applies to this platform and its condition holds with the variable values at the time it is reached (answers of earlier prompts included). The first item that fails, or a cancellation, stops the task with that failure and nothing after it is executed.",
 ["inputs","histories"],"every list of run items, platforms, conditions and variable values, and every position of the first failure",
 "The combinations of item kinds, filters and failure positions are unbounded; tests run short fixed lists.",
 ["internal/runner/runner.go","internal/runner/parallel.go","internal/babfile/run.go"],[("executeTask","internal/runner/runner.go"),("shouldSkipRunItem","internal/runner/runner.go"),("executeParallel","internal/runner/parallel.go"),("matchesPlatform","internal/babfile/run.go")],["commands executed, in order","error returned"])
p("C05","Dependencies first, each task at most once, failures stop",
 "No run item of a task starts before all the task's dependencies have completed successfully, and within one invocation no task is executed more than once, also when several parallel branches reach it at the same time; a branch that reaches a task already running goes on only when that task has finished, with its result. If a task or one of its dependencies fails, the run items that depend on it never start and the invocation fails. A task that is on its own dependency path is reported as circular; a task that merely runs in another branch is not.",
 ["inputs","schedules"],"every task graph and every interleaving of parallel branches",
 "Interleavings and graph shapes are unbounded and the tests run almost everything sequentially.",
 ["internal/runner/runner.go","internal/runner/parallel.go"],[("runTask","internal/runner/runner.go"),("preResolveDeps","internal/runner/parallel.go"),("syncState","internal/runner/parallel.go")],["order of commands","exit status"],[("task state","not started, running, done","internal/runner/parallel.go")])
p("C06","Validation accepts exactly the well-formed task graphs",
 "Loading accepts a Babfile only if every dependency and every task reference (also inside parallel blocks) names an existing task, the graph of dependencies and task references has no cycle, and every alias is unique and different from every task name; otherwise loading fails and nothing runs. Conversely a file that satisfies all of this is not rejected on these grounds.",
 ["inputs"],"every task graph and every map iteration order",
 "Cycle search walks an unbounded graph in random map order; tests contain a handful of graphs of two or three tasks.",
 ["internal/parser/validate.go","internal/parser/parser.go"],[("validateRunCycles","internal/parser/validate.go"),("validateDependencies","internal/parser/validate.go"),("validateRunItemTaskRefs","internal/parser/validate.go"),("validateAliases","internal/parser/validate.go")],["load result"])
p("C07","Included tasks are namespaced and otherwise unchanged",
 "Including a Babfile under a namespace adds each of its tasks as namespace:name, with its dependencies, task references (also inside parallel blocks) and aliases prefixed the same way and every other setting of the task and of its run items preserved. The included file's global variables, environment, silent, output and dir act as defaults for its tasks only, a task's own settings win, and a clash with an existing task name is an error.",
 ["inputs"],"every included file, namespace, nesting depth and combination of settings",
 "The fields that have to survive the rewriting multiply with nesting; tests check a few fields one level deep.",
 ["internal/parser/include.go"],[("resolveInclude","internal/parser/include.go"),("prefixTaskRuns","internal/parser/include.go")],["loaded task map"])
p("C08","Loading includes terminates; cycles and clashes are errors",
 "A Babfile that directly or indirectly includes itself is rejected with a circular-include error, while a file reached along several different include paths that form no cycle is loaded once per path. An error in an included file makes the whole load fail; no partial set of tasks is ever returned.",
 ["inputs"],"every include graph",
 "Include graphs are unbounded; tests cover one self-include and one two-file cycle.",
 ["internal/parser/parser.go","internal/parser/include.go"],[("parseFile","internal/parser/parser.go"),("resolveInclude","internal/parser/include.go")],["load result"])
p("C09","Environment layers override in the documented order",
 "The environment of a command is bab's own environment overridden by the global env, then by the task's env, then by the command's env, key by key, with every value interpolated exactly once with the variables of the task. No other key is added except the colour hints used when output is captured, which any configured value overrides.",
 ["inputs"],"every combination of environment maps, keys and values",
 "Tests check single keys at two levels; the guarantee is about every key of every layer and about values that look like references.",
 ["internal/babfile/env.go","internal/runner/runner.go"],[("MergeEnvMaps","internal/babfile/env.go"),("executeCommand","internal/runner/runner.go"),("runCommandWithWriters","internal/runner/runner.go")],["environment of the child process"])
p("C10","Commands run in the right directory or not at all",
 "A command runs in the directory given by the command, else by the task, else by the global setting, else in the directory of the Babfile that defines the task; relative directories, after interpolation, are resolved against that Babfile's directory. If the directory does not exist or is not a directory, the command is not started and the task fails.",
 ["inputs"],"every combination of dir settings, interpolated values, include locations and file-system states",
 "Precedence times relative/absolute times include location times missing directory is not enumerated by tests.",
 ["internal/runner/runner.go","internal/parser/include.go"],[("resolveDir","internal/runner/runner.go"),("executeCommand","internal/runner/runner.go")],["working directory of the child process"])
p("C11","Silent and output: the most specific setting wins",
 "Whether a command line is echoed and whether its output is shown are each decided by the most specific explicit setting - the command's own, then that of the invoking task reference or parallel block, then the task's, then the global one - and default to echoing and showing. These settings change only what is displayed, never what is executed or the result.",
 ["inputs"],"every combination of unset, true and false at every level",
 "There are 3^4 combinations for each of two settings, in plain, captured and parallel mode; tests sample a few.",
 ["internal/runner/runner.go","internal/runner/parallel.go"],[("isSilent","internal/runner/runner.go"),("isOutput","internal/runner/runner.go"),("firstNonNil","internal/runner/runner.go"),("executeCommand","internal/runner/runner.go")],["what is printed"])
p("C12","Dry run executes nothing",
 "With dry run on, no command is started, no prompt is shown and no run item has any effect, whatever the Babfile contains, at any depth of dependencies and in every kind of block; what would be executed is only logged.",
 ["inputs"],"every Babfile and every task",
 "Each kind of item at each depth has its own dry-run test of a flag; the tests check one item kind at a time.",
 ["internal/runner/runner.go","internal/runner/parallel.go"],[("executeTask","internal/runner/runner.go"),("executeCommand","internal/runner/runner.go"),("executeRunItem","internal/runner/parallel.go")],["processes started","prompts shown"])
p("C13","A parallel block runs every item and reports failure",
 "Once the dependencies of its task items have succeeded, a parallel block starts every applicable item exactly once (unless the run is cancelled before the item has its turn), never more than the limit at the same time (no limit when 0), and finishes only when all of its items have finished. It succeeds if and only if every item succeeded; if any item failed or was cancelled before it started, the block fails with an error that names an item which did not succeed.",
 ["schedules","inputs"],"every list of items, every limit and every interleaving and completion order, with and without cancellation",
 "Completion orders and cancellation points are a property of the schedule; tests observe the few schedules that happen.",
 ["internal/runner/parallel.go"],[("executeParallelInterleaved","internal/runner/parallel.go"),("executeParallelTUI","internal/runner/parallel.go")],["items executed","error of the block"])
p("C14","Parallel output keeps lines whole, in order, none lost",
 "Whatever the sizes of the pieces in which an item's output arrives, the lines shown for it are exactly the lines it wrote, in order, each once and each as one whole line under that item's label; a last line without a line end is shown when the item ends. Lines of different items never mix within a line.",
 ["inputs","schedules"],"every byte stream, every way of cutting it into pieces, every interleaving of writers",
 "Chunk boundaries are chosen by the operating system; tests write whole lines.",
 ["internal/runner/writer.go"],[("lineBuffer.process","internal/runner/writer.go"),("lineBuffer.flush","internal/runner/writer.go"),("PrefixWriter.Write","internal/runner/writer.go")],["lines written to the terminal or program"],[("partial line","bytes received since the last line end","internal/runner/writer.go")])
p("C15","Parallel output cannot drive the terminal",
 "A line shown for a parallel item never contains control characters other than tab, and every escape character in it starts a complete colour (SGR) sequence; with colours off there is no escape character at all. Printable text is never altered by this, and no input makes bab fail.",
 ["inputs"],"every byte string a child process can write",
 "The input space is all byte strings, including malformed UTF-8 and truncated or oversized escape sequences; tests try about twenty.",
 ["internal/runner/writer.go"],[("sanitizeLine","internal/runner/writer.go"),("stripControlChars","internal/runner/writer.go"),("isUnsafeControl","internal/runner/writer.go")],["lines written to the terminal or program"])
p("C16","Prompts accept only answers that satisfy their constraints",
 "A prompt definition is accepted only if it has a valid name, type and message, options where the type needs them, defaults that are among the options, min not above max, a valid pattern, and no options, defaults, validate or confirm setting on a type that does not support it. An interactive answer is accepted only if it satisfies the definition: a number is an integer within min and max (or the default when left empty), the number of selected options is within min and max, an input matches its pattern, and a confirmed password was typed twice the same.",
 ["inputs"],"every prompt definition and every answer",
 "The interactive path needs a terminal and has no tests; definitions combine thirteen fields.",
 ["internal/parser/unmarshal.go","internal/tui/prompt.go"],[("validatePromptRun","internal/parser/unmarshal.go"),("runNumber","internal/tui/prompt.go"),("runMultiselect","internal/tui/prompt.go")],["load result","value stored in the variable"])
p("C17","Without a terminal, prompts use defaults or fail",
 "When no terminal is available a prompt never waits: it yields its default (for confirm normalised to true or false, for multiselect the defaults joined by commas), and fails with an error if it has none; a password prompt always fails. The result is stored under the prompt's name for the items after it and nowhere else.",
 ["inputs"],"every prompt definition and every default",
 "Type times default presence times default text is sampled by tests for a few cases only.",
 ["internal/tui/prompt.go","internal/runner/runner.go"],[("handleNonInteractive","internal/tui/prompt.go"),("normalizeConfirmDefault","internal/tui/prompt.go")],["value of the variable","error"])
p("C18","A Babfile is loaded faithfully or rejected",
 "Every run item of an accepted Babfile is of exactly one kind (command, task, log, prompt or parallel block), carries exactly the settings written for it, and items and tasks appear in the order and under the names written. An item with no kind or several kinds, an unknown platform, log level or mode, a negative limit, a nested parallel block, a prompt inside a parallel block, or a task defined twice makes loading fail with an error, and no error found while loading is ever dropped.",
 ["inputs"],"every Babfile",
 "The grammar has about sixty keys in six contexts; tests cover each rule with one or two files.",
 ["internal/parser/unmarshal.go"],[("parseRunItem","internal/parser/unmarshal.go"),("parseRunFields","internal/parser/unmarshal.go"),("parseParallelRun","internal/parser/unmarshal.go"),("parseTasks","internal/parser/unmarshal.go")],["load result"])
p("C19","The nearest Babfile is used",
 "Without an explicit path bab uses the Babfile in the current directory or else in its nearest ancestor that has one, and within one directory the first existing file in the documented order of names; a directory is never taken for a Babfile. If there is none up to the file-system root the search ends with an error.",
 ["inputs","configurations"],"every directory depth and every set of existing names along the path",
 "Depth and name combinations are unbounded; tests look one or two levels up.",
 ["internal/finder/finder.go"],[("FindBabfile","internal/finder/finder.go")],["path of the Babfile used"])
p("C20","The update cache is replaced atomically",
 "Whatever step of saving the update cache fails or is interrupted, the cache file afterwards holds either its complete previous content or the complete new content: the new content is written to a separate file, completely written, synced and closed before it takes the cache file's place. A failed save leaves no temporary file behind, and no file other than the cache file and bab's own temporary files in the cache directory is ever removed or overwritten.",
 ["fault_sequences","crash_points"],"every outcome of every file operation and every crash point",
 "Failures of write, sync, close and rename and crashes between them are not produced by tests.",
 ["internal/update/cache.go"],[("saveCache","internal/update/cache.go"),("cleanupTempFiles","internal/update/cache.go")],["cache directory content"])
p("C21","Update notices appear only for newer releases",
 "An update notice is given only when the known latest release is a valid version strictly newer than the running one, and it names exactly these two versions; with checks disabled (BAB_NO_UPDATE_CHECK=1, CI set to true or 1, development build) there is no notice, no cache access and no network access. A cache entry that is unreadable, incomplete or from the future is treated as absent, and a failed or empty answer of the server never overwrites the cache.",
 ["inputs","configurations","fault_sequences"],"every pair of version strings, environment and cache content",
 "Tests sample version pairs; the environment, cache and server answers combine freely.",
 ["internal/update/update.go","internal/update/cache.go"],[("CheckCached","internal/update/update.go"),("ForceCheck","internal/update/update.go"),("shouldSkip","internal/update/update.go"),("isNewer","internal/update/update.go"),("loadCache","internal/update/cache.go")],["notice shown","cache file","network requests"])
p("C22","The task picker selects what it highlights",
 "At every moment of an interactive session, after any sequence of keys, typed text and window resizes, the cursor points at one of the listed tasks (or nothing is listed) and the highlighted task is within the visible window. Pressing enter selects exactly the highlighted task, leaving by escape or ctrl+c selects none, and with an empty query every task is listed, once.",
 ["histories","inputs"],"every sequence of events and every window size",
 "Event histories are unbounded; tests drive short ones.",
 ["internal/tui/picker/model.go","internal/tui/picker/update.go","internal/tui/picker/match.go"],[("moveCursor","internal/tui/picker/model.go"),("adjustScroll","internal/tui/picker/model.go"),("Update","internal/tui/picker/update.go"),("search","internal/tui/picker/match.go")],["selected task","rendered window"],[("cursor/offset","highlighted row and first visible row","internal/tui/picker/model.go")])
p("C23","The parallel display shows each item's own state",
 "In the parallel display every event changes only the item it names (and, for clearing, that item's children), events for unknown items change nothing, an item's lines are its output in order (the most recent ones where the display is limited), and an item is shown as failed exactly when it ended with an error that is not a cancellation. Ctrl+c cancels the work exactly once and the active tab is always an existing item.",
 ["histories"],"every sequence of display events and keys",
 "Event histories are unbounded; tests send a few events.",
 ["internal/tui/parallel.go","internal/tui/parallel_tabs.go"],[("handleMsg","internal/tui/parallel.go"),("removeItemTree","internal/tui/parallel.go"),("updateViewport","internal/tui/parallel_tabs.go"),("statusIcon","internal/tui/parallel.go")],["model state","rendered view"],[("items","state of each displayed item","internal/tui/parallel.go")])
p("C24","Completion and listing offer exactly the loadable tasks",
 "Shell completion for the task argument offers exactly the task names and aliases that start with what was typed, each with its description, in sorted order, and nothing once a task is given or when the Babfile cannot be loaded. Every task name and alias that is offered can be run, and running an alias runs the task it belongs to.",
 ["inputs"],"every set of tasks, aliases and typed prefixes",
 "Tests use two or three tasks and no aliases.",
 ["cmd/complete.go","internal/parser/parser.go","internal/runner/runner.go"],[("completeTaskNames","cmd/complete.go"),("buildAliasMap","internal/parser/parser.go"),("resolveTaskName","internal/runner/runner.go")],["completions","task executed"])
p("C25","The exit status tells success from failure",
 "bab exits with status 0 if the requested action succeeded (or the run was interrupted by the user, or the task picker left without a choice) and with status 1 otherwise; an error returned by a command, task, prompt, parallel block or load is never replaced by success on its way to the exit status.",
 ["inputs","fault_sequences"],"every task graph, item kind and position of the failure",
 "Every level of the call chain passes the error on separately; tests check single levels.",
 ["main.go","cmd/root.go","internal/runner/runner.go","internal/runner/parallel.go"],[("run","main.go"),("isCancellation","main.go"),("runTask","internal/runner/runner.go"),("executeTask","internal/runner/runner.go"),("executeCommand","internal/runner/runner.go")],["exit status"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
