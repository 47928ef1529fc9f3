// C14: parallel output keeps lines whole, in order, none lost.
// The bytes of a writer that have not been shown are those since its last line
// end; more bytes are taken in line by line, the rest is kept for the next time.
fun clean(string, bool) string
def has(s, c) = strings.IndexByte(s, c) >= 0
func runner.cleanLine(line, strip) (r)
  trusted
  ensures r == clean(line, strip)

func runner.resolveCR(raw) (r)
  ensures [plain] imp(!has(raw, 13), r == raw)
  ensures [one line] !has(r, 13)
  nopanic
fun cr(string) string
on return runner.resolveCR(s) (r)
  assume r == cr(s)

ghost local text string = ""
ghost local shown int = 0
def rest() = taken()[shown:]
def taken() = old(string(lb.partial)) + old(string(data))
def end() = bytes.IndexByte(rest(), 10)
ghost local stopped bool = false
on call param.2(line) in runner.lineBuffer.process
  check [whole line] !stopped && end() >= 0 && line == clean(cr(rest()[0:end()]), lb.strip)
  set shown = shown + end() + 1
on return param.2(line) (e) in runner.lineBuffer.process
  set stopped = e != nil
func runner.lineBuffer.process(lb, data, emit) (n, err)
  requires lb != nil && emit != nil
  ensures [taken] n == len(data)
  ensures [kept] imp(err == nil, string(lb.partial) == rest() && end() < 0)
  ensures [error] iff(stopped, err != nil)
  ensures [colours] lb.strip == old(lb.strip)
  modifies lb.partial
  loop !stopped && 0 <= shown && shown <= len(taken())
  loop (b phi []byte) string(b) == rest()
  loop lb.strip == old(lb.strip)
  loop len(lb.partial) == 0
  nopanic
// the end of the item: what is left is a line of its own
ghost local lasts int = 0
ghost local lasterr error = nil
on call param.1(line) in runner.lineBuffer.flush
  check [last line] lasts == 0 && len(old(lb.partial)) > 0 && line == clean(cr(string(old(lb.partial))), lb.strip)
  set lasts = lasts + 1
on return param.1(line) (e) in runner.lineBuffer.flush
  set lasterr = e
func runner.lineBuffer.flush(lb, emit) (err)
  requires lb != nil && emit != nil
  ensures [shown] lasts == ite(len(old(lb.partial)) > 0, 1, 0)
  ensures [nothing left] len(lb.partial) == 0
  ensures [error] err == lasterr
  modifies lb.partial
  nopanic

// a writer shows a line by one write, under the lock of its block
ghost local locked bool = false
ghost local uses int = 0
on call sync.Mutex.Lock(m) in runner.PrefixWriter.Write
  check [its lock] m == pw.mu && !locked
  set locked = true
on call sync.Mutex.Unlock(m) in runner.PrefixWriter.Write
  check [its lock] m == pw.mu && locked
  set locked = false
on call runner.lineBuffer.process(l, d, e) in runner.PrefixWriter.Write
  check [under the lock] locked && uses == 0 && l == &pw.buf && string(d) == string(p)
  set uses = uses + 1
func runner.PrefixWriter.Write(pw, p) (n, err)
  requires pw != nil && pw.mu != nil
  ensures [taken] n == len(p) && uses == 1 && !locked
  modifies pw.buf
on call sync.Mutex.Lock(m) in runner.PrefixWriter.Flush
  check [its lock] m == pw.mu && !locked
  set locked = true
on call sync.Mutex.Unlock(m) in runner.PrefixWriter.Flush
  check [its lock] m == pw.mu && locked
  set locked = false
on call runner.lineBuffer.flush(l, e) in runner.PrefixWriter.Flush
  check [under the lock] locked && uses == 0 && l == &pw.buf
  set uses = uses + 1
func runner.PrefixWriter.Flush(pw) (err)
  requires pw != nil && pw.mu != nil
  ensures [nothing left] len(pw.buf.partial) == 0 && uses == 1 && !locked
  modifies pw.buf
ghost local writes int = 0
ghost local werr error = nil
on call fmt.Fprintln(w, a) in runner.PrefixWriter.Write$1
  check [one whole line] writes == 0 && w == pw.dest && len(a) == 1 && is(a[0], string) && as(a[0], string) == pw.prefix + line
  set writes = writes + 1
on return fmt.Fprintln(w, a) (n, e) in runner.PrefixWriter.Write$1
  set werr = e
func runner.PrefixWriter.Write$1(line) (err)
  requires pw != nil
  ensures [shown] writes == 1 && err == werr
on call fmt.Fprintln(w, a) in runner.PrefixWriter.Flush$1
  check [one whole line] writes == 0 && w == pw.dest && len(a) == 1 && is(a[0], string) && as(a[0], string) == pw.prefix + line
  set writes = writes + 1
on return fmt.Fprintln(w, a) (n, e) in runner.PrefixWriter.Flush$1
  set werr = e
func runner.PrefixWriter.Flush$1(line) (err)
  requires pw != nil
  ensures [shown] writes == 1 && err == werr
// the writers of the displays send a line as one message
on call sync.Mutex.Lock(m) in runner.KeyLineWriter.Write
  check [its lock] m == &kw.mu && !locked
  set locked = true
on call sync.Mutex.Unlock(m) in runner.KeyLineWriter.Write
  check [its lock] m == &kw.mu && locked
  set locked = false
on call runner.lineBuffer.process(l, d, e) in runner.KeyLineWriter.Write
  check [under the lock] locked && uses == 0 && l == &kw.buf && string(d) == string(p)
  set uses = uses + 1
func runner.KeyLineWriter.Write(kw, p) (n, err)
  requires kw != nil
  ensures [taken] n == len(p) && uses == 1 && !locked
  modifies kw.buf
on call sync.Mutex.Lock(m) in runner.KeyLineWriter.Flush
  check [its lock] m == &kw.mu && !locked
  set locked = true
on call sync.Mutex.Unlock(m) in runner.KeyLineWriter.Flush
  check [its lock] m == &kw.mu && locked
  set locked = false
on call runner.lineBuffer.flush(l, e) in runner.KeyLineWriter.Flush
  check [under the lock] locked && uses == 0 && l == &kw.buf
  set uses = uses + 1
func runner.KeyLineWriter.Flush(kw)
  requires kw != nil
  ensures [nothing left] len(kw.buf.partial) == 0 && uses == 1 && !locked
  modifies kw.buf
def message(m, k, l) = is(m, tui.ItemOutputMsg) && as(m, tui.ItemOutputMsg).Key == k && as(m, tui.ItemOutputMsg).Line == l
on call tea.Program.Send(p, m) in runner.KeyLineWriter.Write$1
  check [one whole line] writes == 0 && p == kw.program && message(m, kw.key, line)
  set writes = writes + 1
func runner.KeyLineWriter.Write$1(line) (err)
  requires kw != nil
  ensures [shown] writes == 1 && err == nil
on call tea.Program.Send(p, m) in runner.KeyLineWriter.Flush$1
  check [one whole line] writes == 0 && p == kw.program && message(m, kw.key, line)
  set writes = writes + 1
func runner.KeyLineWriter.Flush$1(line) (err)
  requires kw != nil
  ensures [shown] writes == 1 && err == nil
func runner.NewKeyLineWriter(key, program, strip) (w)
  ensures [empty] w != nil && fresh(w) && w.key == key && w.program == program && w.buf.strip == strip && len(w.buf.partial) == 0
func runner.NewPrefixWriter(label, pad, c, dest, mu, strip) (w)
  ensures [empty] w != nil && fresh(w) && w.dest == dest && w.mu == mu && w.buf.strip == strip && len(w.buf.partial) == 0

// an item of a block writes to its own writers, which are emptied when it has ended
ghost local ran bool = false
ghost local ended bool = false
ghost local flushed int = 0
def writer(o) = as(o, *runner.PrefixWriter)
ghost local o1 *runner.PrefixWriter = nil
ghost local o2 *runner.PrefixWriter = nil
on call runner.NewPrefixWriter(l, w, c, d, m, s) in runner.Runner.executeParallelInterleaved$1
  check [its label] l == labels[idx] && s == noColor && ref(m) == ref(mu)
on call runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeParallelInterleaved$1
  check [its writers] !ran && is(o, *runner.PrefixWriter) && is(e2, *runner.PrefixWriter) && writer(o) != nil && writer(e2) != nil && writer(o) != writer(e2)
  check [where] writer(o).dest == outDest && writer(e2).dest == errDest && writer(o).mu == writer(e2).mu
  set ran = true
  set o1 = writer(o)
  set o2 = writer(e2)
on return runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) (e) in runner.Runner.executeParallelInterleaved$1
  set ended = true
on call runner.PrefixWriter.Flush(w) in runner.Runner.executeParallelInterleaved$1
  check [ended] ended && (w == o1 || w == o2)
  set flushed = ite(w == o1, flushed + 1, flushed + 10)
func runner.Runner.executeParallelInterleaved$1(idx, runItem)
  requires r != nil && task != nil && state != nil && 0 <= idx && idx < len(labels)
  ensures [flushed] imp(ran, ended && flushed == 11)
  modifies everything
func runner.Runner.executeRunItem(r, ctx, item, task, tasks, state, taskVars, taskEnv, oS, oO, stdout, stderr, noColor, pctx) (err)
  trusted
  modifies allmaps(map[string]runner.status), allmaps(map[string]*runner.taskResult), allof(runner.taskResult)
func runner.colorForPath(p) (c)
  trusted
ghost local itemKey string = ""
ghost local made *runner.KeyLineWriter = nil
on return runner.pathToKey(p) (k) in runner.Runner.executeParallelTUI$1
  check [its place] len(p) == len(basePath) + 1 && p[len(basePath)] == idx && all(j, 0, len(basePath), p[j] == basePath[j])
  set itemKey = k
on call runner.NewKeyLineWriter(k, p, s) in runner.Runner.executeParallelTUI$1
  check [its key] k == itemKey && p == program && s == noColor
on return runner.NewKeyLineWriter(k, p, s) (w) in runner.Runner.executeParallelTUI$1
  set made = w
on call runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) in runner.Runner.executeParallelTUI$1
  check [its writer] !ran && made != nil && is(o, *runner.KeyLineWriter) && is(e2, *runner.KeyLineWriter) && as(o, *runner.KeyLineWriter) == made && as(e2, *runner.KeyLineWriter) == made
  set ran = true
on return runner.Runner.executeRunItem(rr, c, i, t, ts, s, tv, te, a, b, o, e2, nc, p) (e) in runner.Runner.executeParallelTUI$1
  set ended = true
on call runner.KeyLineWriter.Flush(w) in runner.Runner.executeParallelTUI$1
  check [ended] ended && w == made && flushed == 0
  set flushed = flushed + 1
on call tea.Program.Send(p, m) in runner.Runner.executeParallelTUI$1
  check [its messages] p == program && ite(is(m, tui.ItemDoneMsg), as(m, tui.ItemDoneMsg).Key == itemKey && imp(ran, flushed == 1), is(m, tui.ItemStartMsg) && as(m, tui.ItemStartMsg).Key == itemKey && !ran)
func runner.Runner.executeParallelTUI$1(idx, runItem)
  requires r != nil && task != nil && state != nil && 0 <= idx && idx < len(labels) && len(labels) == len(itemErrs)
  ensures [flushed] imp(ran, ended && flushed == 1)
  modifies everything
func runner.pathToKey(p) (k)
  trusted
