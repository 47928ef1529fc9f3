def isFirst(vals, i) = 0 <= i && i < len(vals) && vals[i] != nil && all(j, 0, i, vals[j] == nil)

func runner.firstNonNil(vals) (r)
  loop (i int) all(j, 0, i, vals[j] == nil)
  ensures [none] imp(all(j, 0, len(vals), vals[j] == nil), r == nil)
  ensures [first] all(i, 0, len(vals), imp(isFirst(vals, i), r == vals[i]))
  nopanic

func runner.isSilent(vals) (r)
  loop (i int) all(j, 0, i, vals[j] == nil)
  ensures [default] imp(all(j, 0, len(vals), vals[j] == nil), !r)
  ensures [first] all(i, 0, len(vals), imp(isFirst(vals, i), r == *vals[i]))
  nopanic

func runner.isOutput(vals) (r)
  loop (i int) all(j, 0, i, vals[j] == nil)
  ensures [default] imp(all(j, 0, len(vals), vals[j] == nil), r)
  ensures [first] all(i, 0, len(vals), imp(isFirst(vals, i), r == *vals[i]))
  nopanic
