// contracts shared by the properties about running tasks: what running may
// change is bab's book-keeping of claimed tasks, and nothing else.
import C03

func babfile.matchesPlatform(platforms, platform) (r)
  ensures [applies] iff(r, len(platforms) == 0 || ex(i, 0, len(platforms), platforms[i] == platform))
  loop all(i, 0, $i, platforms[i] != platform)
  nopanic

def plats(i) = ite(is(i, babfile.CommandRun), as(i, babfile.CommandRun).Platforms,
  ite(is(i, babfile.TaskRun), as(i, babfile.TaskRun).Platforms,
  ite(is(i, babfile.LogRun), as(i, babfile.LogRun).Platforms,
  ite(is(i, babfile.PromptRun), as(i, babfile.PromptRun).Platforms, as(i, babfile.ParallelRun).Platforms))))
def applies(l) = len(l) == 0 || ex(i, 0, len(l), l[i] == runtime.GOOS)
// an item is due when it applies here and its condition holds
def decided(i, v) = imp(applies(plats(i)), evalOK(itemWhen(i), v))
def due(i, v) = applies(plats(i)) && evalOK(itemWhen(i), v) && holds(itemWhen(i), v)

// the tasks of a loaded file
def wfTasks(ts) = all(k, string, imp(in(k, ts), ts[k] != nil))
