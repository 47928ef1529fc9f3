prop("C01", "interpolate.resolveVar and interpolate.Interpolate, for every text and every variable table: the result is the text's literals with each token replaced once, errors name an undefined reference of the text; interpolatePrompt: each text of a prompt that may hold references is interpolated once and everything else kept",
     "150000 random texts and 2500 Babfile runs compared with an independent reading of the token rule", LIB + ["os.Getenv is a function of the name during one call"])
prop("C02", "ExtractVarRefs, the recursive resolver inside ResolveVarsWithLocation, ResolveVarsWithLocation and ResolveVars, for all definitions, parent scopes and iteration orders: the result is fresh, keeps the parent's other variables, gives each definition the value of its text over the result itself, in an order where every definition refers to earlier ones only; recursion terminates; an error is a real cycle (its chain is one) or a real undefined reference; lemmas: substitution depends only on what the text refers to, and such a result is unique (independent of order)",
     "random definition graphs resolved in process, with cycles, undefined names and parents, compared with an independent resolver", LIB + ["Interpolate's contract, proved under C01", "ranks may be taken non-negative (the definitions are finitely many)"])
prop("C03", "evaluateOp, evaluateTruthy, splitComparison, Evaluate and Runner.shouldSkipRunItem decide every condition text as stated, operator and quotes taken from the text as written",
     "120000 random conditions in process, 2500 generated Babfiles run", LIB + ["Interpolate's contract, proved under C01"])
prop("C09", "MergeEnvMaps, MergeEnv, interpolateEnv, and executeCommand at the point where the command is started: the environment is bab's own, then hints, then exactly the merged configured keys, each value interpolated once",
     "2500 generated Babfiles whose commands report their environment", LIB + ["os/exec uses the last entry of a repeated key", "the task env handed to executeCommand is the merge of global and task env (run by the scenarios)"])
prop("C10", "resolveDir for every setting and file system state, and executeCommand at the point where the command is started: its directory is the one the rules give and it exists",
     "2500 generated Babfiles whose commands report their directory", LIB + ["the file system does not change between the check and the start of the command"])
prop("C11", "firstNonNil, isSilent, isOutput, executeCommand at the start of a command (echo count, where output goes) and executeRunItem handing the settings on to commands and referenced tasks",
     "2500 generated Babfiles whose echoed lines and shown output are compared", LIB + ["output.Cmd and output.RenderCmd print what they are given"])
prop("C17", "normalizeConfirmDefault and handleNonInteractive, for every prompt definition: the default in the stated form, or an error that is ErrNoTTY; RunPrompt asks nothing without a terminal; executeTask stores the answer under the prompt's name for the items after it", "prompt definitions run without a terminal through the built bab", LIB)
prop("C20", "saveCache as a protocol over the file operations it makes (every path, every failure of a step): the cache file's place is taken only by a new file that was wholly written, synced and closed; nothing else is created, overwritten or removed, and the temporary file is removed when the save fails; cleanupTempFiles removes only bab's own temporary files", "saves with injected failures in scratch directories", LIB + ["rename(2) replaces a file atomically and fsync(2) makes it durable"])
prop("C21", "shouldSkip, isNewer, loadCache, CheckCached, ForceCheck, fetchLatestVersion, refreshCache, StartBackgroundRefresh: when a notice is given and what it names, when nothing is read or sent, what is never saved", "version pairs, cache contents and server answers run in process", LIB + ["github.com/hashicorp/go-version decides validity and order of versions"])
prop("C22", "New, search, updateMatches, moveCursor, adjustScroll and Update keep the picker's invariant for every message, and enter/escape select as stated", "random key and resize sequences in process", LIB + ["searchAliases and fuzzy matching return indices of the list they are given", "the text input component does not change the picker's own fields"])
prop("C24", "completeTaskNames (what is offered, for every set of tasks and aliases and every prefix) and resolveTaskName", "generated Babfiles whose completions and listings are compared", LIB + ["LoadTasks's result, sort.Strings"])
prop("C25", "main.run, every handler of the command line (execute, run, runTask, runList, runValidate, runCompletion, runInteractive) and every function of a run down to the started command (Run, RunWithTasks, runTask, runClaimedTask, executeTask, executeParallel, preResolveDeps, executeRunItem, executeCommand): an error of a step is an error of its caller, and the status is 0 exactly when none reached main or it is a cancellation",
     "the built bab run on generated Babfiles and command lines whose success or failure is known", LIB + ["the results of executeParallelTUI and executeParallelInterleaved, proved under C13", "cobra hands the error of the handler on"])
prop("C04", "executeTask (each run item in its round, at most once, in order, exactly when it is due with the variables of that moment, nothing after a failure), executeParallel (exactly the due items are handed on, in order) and that running changes no task (frames of runTask, runClaimedTask, executeRunItem, preResolveDeps, syncState)",
     "generated Babfiles with platforms, conditions, prompts and failures run by the built bab", LIB + ["Evaluate and shouldSkipRunItem, proved under C03", "a run item is one of the five kinds (only the parser makes them)"])
prop("C05", "the book-keeping of claimed tasks (claim, finish, get, snapshot, wait) as a rely-guarantee protocol over its mutex, the goroutines of both kinds of parallel blocks, runTask, runClaimedTask and every function of a run between them: a task is executed by the one activation that claimed it, its run items only when all its dependencies completed, a waiting branch goes on only with the result, circular exactly when the task is on the own path",
     "generated task graphs run by the built bab, also from several parallel branches", LIB + ["mutual exclusion of sync.Mutex; a receive from a channel nobody sends on returns when it is closed", "rely-guarantee composition of the goroutines of a parallel block: each is proved to keep the protocol, and after WaitGroup.Wait it holds"])
prop("C12", "runTask of the command line hands --dry-run on; Run, RunWithTasks, runTask, runClaimedTask, executeTask, executeParallel, preResolveDeps, executeRunItem and executeCommand, each with the same Runner: with DryRun no command is started, no prompt asked, no log item printed, nothing written by a run item, no referenced task entered, no file changed",
     "generated Babfiles with every kind of item run with --dry-run by the built bab in a scratch directory whose files are compared", LIB + ["the two parallel collectors are not entered in a dry run (proved at their call)"])
prop("C13", "executeParallel (what is handed on: the due items, in order, labels, limit; its result), executeParallelInterleaved and executeParallelTUI (one goroutine per item, counted before it starts, semaphore of the limit's capacity, return only after Wait, the error returned) and the goroutine of an item in each (item run once while holding a slot, slot released, a failure or cancellation always recorded and named, nothing recorded otherwise, itemErrs and the end message right), ItemLabel",
     "generated parallel blocks run by the built bab whose overlap, order and failures are observed", LIB + ["parallel composition: what every item's goroutine is proved to do holds for all of them after WaitGroup.Wait; sync.Once runs one function, channels of capacity n hold n", "captured variables are not written by the block once an item has started"])
prop("C19", "FindBabfile (for every file system and working directory: the found path is the first existing regular file, in the documented order of names, of the nearest ancestor; otherwise every directory up to the root was looked at and the error is ErrBabfileNotFound), LoadTasks (explicit path as given, else the nearest) and its callers handing on the given path",
     "directory trees with files and directories of these names searched by the built bab", LIB + ["the file system does not change during the search"])
prop("C16", "the validators of a definition (validatePromptBasics, Options, Constraints, TypeSpecific, validatePromptRun: accepted exactly when every rule holds, an error reported otherwise, the accepted item has exactly the fields written), RunPrompt, runNumber, runInput, runSelect, runMultiselect, runPassword, runConfirm: the validator given to the form accepts exactly what the definition allows for every text or selection, it is given before the form runs, and the answer returned is the one the form was left with",
     "generated prompt definitions loaded by the built bab; prompts answered on a pseudo-terminal", LIB + ["huh: a form that ends without error leaves an answer its validator accepted, a select's answer is one of its options", "a prompt that is run went through validatePromptRun"])
prop("C06", "validateDependencies, validateRunTaskRefs, validateRunItemTaskRefs, validateAliases, validateRunCycles and both its recursive closures, validateAll, Parse, for every task graph and map order: accepted exactly when every dependency and reference exists, every alias is unique and no task's name, and the tasks can be ordered so that each refers only to earlier ones; a rejected cycle is a real one, and Parse returns only tasks that were accepted",
     "random task graphs with cycles, missing references and alias clashes validated in process", LIB + ["parseFile returns a table of tasks without nil entries (proved under C08)", "partial correctness of the cycle search (its termination is not proved)"])
prop("C07", "resolveInclude for every included file, namespace and combination of settings (which tasks are added and under what names, every field, merged variables and environment, defaults, clashes, no other task touched), prefixTaskRuns with parallel blocks, prefixDeps, prefixAlias, prefixAliases, MergeVarMaps, MergeEnvMaps",
     "random pairs of including and included files loaded in process and compared field by field", LIB + ["parseFile's result is new memory without nil tasks", "blocks nested in blocks are rejected before (C18)"])
prop("C08", "parseFile, resolveInclude (mutually recursive, with a measure that goes down at every call), chainFromVisited, buildAliasMap and Parse: a file is rejected as circular exactly when it is on its own include path, each include is resolved once with the path being the including files, the path is restored, any failure is an error and an error comes without a result",
     "random include graphs of files loaded in process", LIB + ["there are finitely many readable files", "unmarshalBabfile returns a schema or an error that is no include cycle", "files are the same when their paths are (the file system is not consulted)"])
prop("C18", "parseString, parseEnvMap, parseVarMap, parseBool, parsePlatforms, the Valid methods, countRunTypes, buildLogRun, parsePromptKey, parseRunFields, validatePromptRun, parseParallelKey, validateParallelItems, extractParallelLabels, parseRunItem, parseRunItems, parseParallelRun, parseTask, parseTasks, parseIncludes, resolveAliases, unmarshalBabfile, for every YAML tree: each is accepted exactly when every setting in it is well-formed, an error is reported whenever it is not, and what is returned holds exactly what the last entry of each setting says, in the order and under the names written; a Babfile is loaded exactly when nothing in it was refused",
     "generated Babfiles, with one fault or none, loaded by the built bab and compared with an independent reading of the text", LIB + ["yaml.v3: the tree it builds has an even number of children in each mapping, no shared or missing children, aliases that name a node which is no alias; what Decode makes of one node (text, number, boolean, list) is a function of the node", "a setting's key and its settings are compared as the yaml library hands them over"])
prop("C14", "lineBuffer.process and flush, for every content of the buffer and every piece of output: each complete line of what was kept and what arrived is handed on whole, once, in order, and exactly the rest is kept, to be handed on when the item ends; resolveCR; PrefixWriter and KeyLineWriter (Write, Flush and their emitters: one write or message per line, with the writer's own prefix or key, under its lock), their constructors, and the goroutine of an item (its own writers with its label, place and lock, both emptied after the item has ended)",
     "random byte streams cut at random places through both writers, also concurrently", LIB + ["mutual exclusion of sync.Mutex, one write per fmt.Fprintln", "a function that shows a line does not touch the buffer it came from", "that the lines of a stream do not depend on how it is cut follows from process's contract by induction over the pieces"])
prop("C23", "handleMsg (for every message and state: the named item alone changes, unknown keys change nothing, lines, ending, registration, clearing of whole trees, cancellation once), removeItemTree, statusIcon (the mark is the one of the item's state), newBaseModel, both models' constructors and Update (every message handed on once; tab keys), updateViewport, buildContent, renderView, View, renderItem, renderCompactLine (every known item, in order, with its own mark; the active tab exists; no panic)",
     "random message and key sequences whose views are compared with a model of the display", LIB + ["the tree of items is finite (a child's key extends its parent's), so that removeItemTree ends", "how the library lays out and cuts what is rendered"])
prop("C15", "isUnsafeControl, stripControlChars, isSGR, sanitizeLine, cleanLine, for every line: no character of the result is a control character other than tab and escape, every escape character in it starts a complete colour sequence (none at all with colours off), no printable piece is dropped, and no panic occurs",
     "random byte strings built from control characters, escape sequences and text", LIB + ["ansi.DecodeSequence returns a non-empty prefix of what it is given; a piece without control characters is none of the sequences the library tells apart", "a colour sequence stays one when control characters beside it are taken out"])
