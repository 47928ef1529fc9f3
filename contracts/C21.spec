// C21: update notices appear only for newer releases.
def off(v) = os.Getenv("BAB_NO_UPDATE_CHECK") == "1" || os.Getenv("CI") == "true" || os.Getenv("CI") == "1" || v == "dev" || v == ""

// the version library: which texts are versions, and their order
fun validVersion(string) bool
fun later(string, string) bool
fun vtext(int) string
axiom !validVersion("")
extern version.NewVersion(s) (v, err)
  ensures iff(err == nil, validVersion(s))
  ensures imp(err == nil, v != nil && vtext(ref(v)) == s)
extern version.Version.GreaterThan(v, o) (r)
  ensures r == later(vtext(ref(v)), vtext(ref(o)))
fun bare(string) string
axiom all(s, string, trig(bare(s) == ite(hasprefix(s, "v"), s[1:len(s)], s), bare(s)))
def newer(l, c) = validVersion(bare(l)) && validVersion(bare(c)) && later(bare(l), bare(c))

func update.shouldSkip(v) (r)
  ensures [off] iff(r, off(v))
  nopanic

func update.isNewer(latest, current) (r)
  ensures [newer] iff(r, newer(latest, current))
  nopanic

// the cache entry: complete and not from the future, else absent
fun after(time.Time, time.Time) bool
ghost now time.Time
extern time.Time.After(a, b) (r)
  ensures r == after(a, b)
on return time.Now() (t)
  set now = t
func update.loadCache() (c)
  ensures [complete] imp(c != nil, c.LatestVersion != "")
  ensures [future] imp(c != nil, !after(c.CheckedAt, now))
  modifies now
  nopanic

func update.CheckCached(v) (r)
  ensures [off] imp(off(v), r == nil)
  ensures [versions] imp(r != nil, r.CurrentVersion == v && newer(r.LatestVersion, v))
  modifies now
  nopanic
on call update.loadCache() in update.CheckCached
  check [access] !off(v)

// what the server said
ghost local got bool = false
ghost name string = ""
func update.fetchLatestVersion(ctx, cached) (version, etag, err)
  ensures [error] imp(err != nil, version == "" && etag == "")
on return update.fetchLatestVersion(ctx, cached) (ver, etag, e)
  set got = e == nil
  set name = ver
on call update.saveCache(c)
  check [answer] got && name != ""
  check [entry] c.LatestVersion == name && c.CheckedAt == now

func update.saveCache(c)
  trusted
  modifies c.CheckedAt

func update.refreshCache(ctx, cached)
  modifies now, name

func update.ForceCheck(v) (r)
  ensures [off] imp(off(v), r == nil && !got)
  ensures [versions] imp(r != nil, got && r.CurrentVersion == v && r.LatestVersion == name && newer(name, v))
  modifies now, name

on call update.fetchLatestVersion(cx, ca) in update.ForceCheck
  check [network] !off(v)

// nothing is started in the background when checks are off
on call go() in update.StartBackgroundRefresh
  check [background] !off(currentVersion)
on call update.loadCache() in update.StartBackgroundRefresh
  check [access2] !off(currentVersion)
func update.StartBackgroundRefresh(ctx, currentVersion)
  modifies now
