// C15: parallel output cannot drive the terminal.
def unsafe(r) = r != 9 && r != 27 && (r < 32 || 127 <= r && r <= 159)
def has(s, c) = strings.IndexByte(s, c) >= 0
func runner.isUnsafeControl(r) (u)
  ensures [controls] iff(u, unsafe(r))
  nopanic

// safe(s): no character of s is a control character other than tab and escape
fun safe(string) bool
axiom trig(safe(""), safe(""))
axiom all(a, string, all(r, int, trig(safe(a + chr(r)) == (safe(a) && !unsafe(r)), safe(a + chr(r)))))
// text(s, i): the characters of s before place i that are safe
fun text(string, int) string
axiom all(s, string, trig(text(s, 0) == "", text(s, 0)))
axiom all(s, string, all(i, int, trig(imp(0 <= i && i < len(s), text(s, i + runewidth(s, i)) == ite(unsafe(runeat(s, i)), text(s, i), text(s, i) + chr(runeat(s, i)))), runeat(s, i))))
// noesc(s): there is no escape character in s; colours(s): every escape character of s starts a complete colour sequence
fun noesc(string) bool
fun colours(string) bool
axiom trig(noesc("") && colours(""), noesc(""))
axiom all(s, string, trig(noesc(s) == !strings.Contains(s, "\x1b"), noesc(s)))
axiom all(s, string, trig(noesc(s) == !has(s, 27), noesc(s)))
axiom all(s, string, trig(imp(noesc(s), colours(s)), colours(s)))
axiom all(a, string, all(r, int, trig(noesc(a + chr(r)) == (noesc(a) && r != 27), noesc(a + chr(r)))))
axiom all(s, string, all(i, int, trig(imp(noesc(s) && 0 <= i && i < len(s), runeat(s, i) != 27), runeat(s, i))))
// a colour sequence is complete in itself, and stays so beside others
fun isSGRseq(string) bool
axiom all(s, string, trig(imp(isSGRseq(s), colours(s)), isSGRseq(s)))
axiom all(a, string, all(b, string, trig(imp(colours(a) && colours(b), colours(a + b)), colours(a + b))))
// a colour sequence has no control character but its escape character, so that taking others out leaves it whole
axiom all(s, string, trig(imp(colours(s), colours(text(s, len(s)))), text(s, len(s))))
on return strings.ContainsFunc(s, f) (r) in runner.stripControlChars
  check [controls] f == runner.isUnsafeControl
  assume iff(r, !safe(s))
func runner.stripControlChars(s) (r)
  ensures [safe] safe(r)
  ensures [escapes] imp(noesc(s), noesc(r)) && imp(colours(s), colours(r))
  ensures [kept] ite(safe(s), r == s, r == text(s, len(s)))
  loop (b new strings.Builder) safe(b)
  loop (b new strings.Builder) imp(noesc(s), noesc(b))
  loop (b new strings.Builder) b == text(s, $p)
  nopanic

// what a colour sequence is
def body(s) = ite(strings.HasPrefix(s, "\x1b["), s[2:], s[1:])
def params(s) = body(s)[0:len(body(s))-1]
axiom all(s, string, trig(isSGRseq(s) == ((strings.HasPrefix(s, "\x1b[") || strings.HasPrefix(s, "\x9b")) && strings.HasSuffix(body(s), "m") && strings.Trim(params(s), "0123456789:;") == ""), isSGRseq(s)))
func runner.isSGR(seq) (r)
  ensures [colour] iff(r, isSGRseq(seq))
  nopanic

// taking a line apart: the library returns the next piece of the rest and its length
fun csi(string) bool
fun osc(string) bool
fun dcs(string) bool
fun apc(string) bool
fun sos(string) bool
fun pm(string) bool
extern ansi.HasCsiPrefix(s) (r)
  ensures r == csi(s)
extern ansi.HasOscPrefix(s) (r)
  ensures r == osc(s)
extern ansi.HasDcsPrefix(s) (r)
  ensures r == dcs(s)
extern ansi.HasApcPrefix(s) (r)
  ensures r == apc(s)
extern ansi.HasSosPrefix(s) (r)
  ensures r == sos(s)
extern ansi.HasPmPrefix(s) (r)
  ensures r == pm(s)
// printable: a piece without any control character
fun printable(string) bool
axiom all(s, string, trig(imp(printable(s), noesc(s) && !csi(s) && !osc(s) && !dcs(s) && !apc(s) && !sos(s) && !pm(s)), printable(s)))
ghost local at int = 0
ghost local piece string = ""
ghost local wrote bool = false
on call ansi.DecodeSequence(s, st, p) in runner.sanitizeLine
  check [rest] s == line[at:] && at < len(line)
on return ansi.DecodeSequence(s, st, p) (seq, w, n, st2) in runner.sanitizeLine
  assume 0 < n && n <= len(s) && seq == s[0:n]
  set at = at + n
  set piece = seq
  set wrote = false
on call strings.Builder.WriteString(b, s) in runner.sanitizeLine
  check [whole piece] s == piece && !wrote && (noesc(s) || isSGRseq(s))
  set wrote = true
on back in runner.sanitizeLine
  check [text kept] imp(printable(piece), wrote)
  check [strings dropped] imp(osc(piece) || dcs(piece) || apc(piece) || sos(piece) || pm(piece), !wrote || csi(piece))
  check [colours kept] imp(csi(piece), iff(wrote, isSGRseq(piece)))
func runner.sanitizeLine(line) (r)
  ensures [safe] safe(r)
  ensures [escapes] colours(r)
  ensures [plain] imp(safe(line) && noesc(line) && !has(line, 155), r == line)
  ensures [all] at == 0 && noesc(line) && !has(line, 155) || at == len(line)
  loop 0 <= at && at <= len(line)
  loop (i phi string) i == line[at:]
  loop (b new strings.Builder) colours(b)
  nopanic
on call strings.ReplaceAll(s, o, n) in runner.cleanLine
  check [no escape] o == "\x1b" && n == ""
on return strings.ReplaceAll(s, o, n) (r) in runner.cleanLine
  assume noesc(r)
func runner.cleanLine(line, strip) (r)
  ensures [safe] safe(r)
  ensures [escapes] colours(r)
  ensures [no colour] imp(strip, noesc(r))
  nopanic
