// C20: the update cache is replaced atomically.
// Protocol of a save: a new temporary file in the cache directory gets the whole
// new content, is synced and closed, and only then takes the cache file's place;
// it is removed when that does not happen.
fun fname(int) string
extern os.File.Name(f) (n)
  ensures n == fname(ref(f))
extern json.Marshal(v) (d, err)
extern os.CreateTemp(dir, pattern) (f, err)
  ensures imp(err == nil, f != nil)

ghost path string = ""
ghost data string = ""
ghost made bool = false
ghost tmp int = 0
ghost wrote bool = false
ghost synced bool = false
ghost closed bool = false
ghost placed bool = false
ghost removed bool = false

on return paths.CacheFile(n) (p, e)
  set path = p
on return json.Marshal(v) (d, e)
  set data = str(d)
on call os.CreateTemp(d, p)
  check [dir] d == filepath.Dir(path) && !made
on return os.CreateTemp(d, p) (f, e)
  set made = e == nil
  set tmp = ref(f)
on call os.File.Write(f, b)
  check [whole] made && ref(f) == tmp && !wrote && !closed && str(b) == data
on return os.File.Write(f, b) (n, e)
  set wrote = e == nil
on return os.File.Sync(f) (e)
  set synced = wrote && !closed && e == nil && ref(f) == tmp
on return os.File.Close(f) (e)
  set closed = e == nil && ref(f) == tmp
on call os.Rename(a, b)
  check [complete] wrote && synced && closed
  check [place] a == fname(tmp) && b == path
on return os.Rename(a, b) (e)
  set placed = e == nil
on call os.Remove(n) in update.saveCache
  check [own] made && n == fname(tmp) && !placed
on return os.Remove(n) (e) in update.saveCache
  set removed = true
on call os.WriteFile(n, d, m)
  check [direct] false
on call os.OpenFile(n, d, m)
  check [direct2] false
on call os.Create(n)
  check [direct3] false
on call os.Truncate(n)
  check [direct4] false

// left-over files of earlier saves: only bab's own
ghost entry string = ""
on return fs.DirEntry.Name(e) (n)
  set entry = n
on call os.Remove(n) in update.cleanupTempFiles
  check [leftover] n == joinpath(dir, entry) && hasprefix(entry, "update-check-") && strings.HasSuffix(entry, ".tmp")
func update.cleanupTempFiles(dir)
  modifies entry

func update.saveCache(c)
  requires !made && !wrote && !synced && !closed && !placed && !removed
  ensures [clean] imp(made, placed || removed)
  ensures [kept] imp(removed, !placed)
  modifies c.CheckedAt, path, data, made, tmp, wrote, synced, closed, placed, removed, entry
