// C01: a time-indexed sequence.  Abstract state: the index of the first element
// and the list of values.  Values are vectors or matrices (flattened); the
// bookkeeping never looks inside them.
module seq {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"

  var first: int
  var vals: List[List[int]]
  var nr: int          // rows and columns of the elements
  var nc: int
  var kind: int        // 0: sequence of matrices, 1: sequence of vectors
  var dead: bool       // a call has been refused: only a new object may follow
  var ev: Ev
  var obs: Obs
  // observation of the last public query result, for the invariant
  pure def nextIx(f: int, v: List[List[int]]): int = f + v.length()
  pure def lastIx(f: int, v: List[List[int]]): int = f + v.length() - 1
  pure def has(f: int, v: List[List[int]], k: int): bool = k >= f and k < nextIx(f, v)
  pure def allVals(v: List[List[int]]): List[int] = v.foldl(List(), (l, x) => l.concat(x))

  // what the user sees after any accepted operation: size, first, last, next,
  // membership around both ends, all values through indexing
  pure def look(f: int, v: List[List[int]]): Obs =
    okObs(List(v.length(), f, lastIx(f, v), nextIx(f, v),
               b2i(has(f, v, f - 1)), b2i(has(f, v, f)), b2i(has(f, v, lastIx(f, v))), b2i(has(f, v, nextIx(f, v)))),
          allVals(v))

  action goTo(e: Ev, f: int, v: List[List[int]]): bool = all {
    ev' = e, obs' = look(f, v), first' = f, vals' = v, nr' = nr, nc' = nc, kind' = kind, dead' = false
  }
  action refuse(e: Ev): bool = all {
    ev' = e, obs' = REJ, first' = first, vals' = vals, nr' = nr, nc' = nc, kind' = kind, dead' = true
  }

  action init = all {
    ev' = NOEV, obs' = ANY, first' = 0, vals' = List(), nr' = 1, nc' = 1, kind' = 0, dead' = true
  }
  // a new object: default constructed, or of a given size and first index
  action create = {
    nondet s = oneOf(0.to(SEEDS))
    val kd = rint(s, 0, 0, 1)
    val r = rint(s, 1, 1, 3)
    val c = if (kd == 1) 1 else rint(s, 2, 1, 2)
    all {
      ev' = event("new", List(kd, r, c), List()), obs' = look(0, List()),
      first' = 0, vals' = List(), nr' = r, nc' = c, kind' = kd, dead' = false
    }
  }
  action createSized = {
    nondet s = oneOf(0.to(SEEDS))
    val n = rint(s, 3, 0, 4)
    val f = rint(s, 4, -5, 9)
    val kd = rint(s, 0, 0, 1)
    val r = rint(s, 1, 1, 3)
    val c = if (kd == 1) 1 else rint(s, 2, 1, 2)
    // values of a sized object are unspecified until stored: store them all
    val v = range(0, n).foldl(List(), (l, k) => l.append(rvec(s, 10 + k, r * c)))
    all {
      ev' = event("newSized", List(kd, r, c, n, f), allVals(v)), obs' = look(f, v),
      first' = f, vals' = v, nr' = r, nc' = c, kind' = kd, dead' = false
    }
  }
  action setValue = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rvec(s, 1, nr * nc)
    // around the range, or anywhere when empty
    val k = if (rint(s, 2, 0, 3) == 0) rint(s, 3, first - 3, nextIx(first, vals) + 3)
            else rint(s, 4, first, nextIx(first, vals))
    val e = event("setValue", List(k), x)
    if (has(first, vals, k)) goTo(e, first, vals.replaceAt(k - first, x))
    else if (vals == List()) goTo(e, k, List(x))
    else if (k == nextIx(first, vals)) goTo(e, first, vals.append(x))
    else refuse(e)
  }
  action pushBack = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rvec(s, 1, nr * nc)
    goTo(event("pushBack", List(), x), first, vals.append(x))
  }
  action popFront = {
    nondet odd = oneOf(Set(0, 1))
    val e = event("popFront", List(), List())
    if (vals == List()) all { odd == 0, refuse(e) } else goTo(e, first + 1, vals.tail())
  }
  // reading one index; the result is part of the observation
  action getAt = {
    nondet s = oneOf(0.to(SEEDS))
    nondet cst = oneOf(Set(0, 1))
    val k = if (vals == List() or rint(s, 5, 0, 7) == 0) rint(s, 3, first - 1, nextIx(first, vals))
            else rint(s, 3, first, lastIx(first, vals))
    val e = event("get", List(k, cst), List())
    if (has(first, vals, k)) all {
      ev' = e, obs' = okObs(List(nr, nc), vals[k - first]),
      first' = first, vals' = vals, nr' = nr, nc' = nc, kind' = kind, dead' = false }
    else refuse(e)
  }
  // writing through the reference returned by indexing
  action writeRef = {
    nondet s = oneOf(0.to(SEEDS))
    val k = rint(s, 3, first, lastIx(first, vals))
    val x = rvec(s, 1, nr * nc)
    all { vals != List(), goTo(event("writeRef", List(k), x), first, vals.replaceAt(k - first, x)) }
  }
  action ends = all {
    vals != List(),
    ev' = event("ends", List(), List()), obs' = okObs(List(), vals[0].concat(vals[vals.length() - 1])),
    first' = first, vals' = vals, nr' = nr, nc' = nc, kind' = kind, dead' = false
  }
  action array = all {
    ev' = event("getArray", List(), List()), obs' = okObs(List(vals.length()), allVals(vals)),
    first' = first, vals' = vals, nr' = nr, nc' = nc, kind' = kind, dead' = false
  }
  // keep indices up to t
  action truncateAfter = {
    nondet s = oneOf(0.to(SEEDS))
    val t = rint(s, 3, first - 2, nextIx(first, vals) + 1)
    val e = event("truncateAfter", List(t), List())
    goTo(e, first, if (t < first) List() else if (t >= lastIx(first, vals)) vals else vals.slice(0, t - first + 1))
  }
  // keep indices from t on
  action truncateBefore = {
    nondet s = oneOf(0.to(SEEDS))
    val t = rint(s, 3, first - 2, nextIx(first, vals) + 2)
    val e = event("truncateBefore", List(t), List())
    val drop = imin(vals.length(), imax(0, t - first))
    if (drop == 0) goTo(e, first, vals)
    else if (drop == vals.length()) goTo(e, nextIx(first, vals), List())
    else goTo(e, first + drop, vals.slice(drop, vals.length()))
  }
  action resize = {
    nondet s = oneOf(0.to(SEEDS))
    val n = rint(s, 3, 0, vals.length() + 2)
    val x = rvec(s, 1, nr * nc)
    val e = event("resize", List(n), x)
    goTo(e, first, if (n <= vals.length()) vals.slice(0, n)
                 else range(vals.length(), n).foldl(vals, (l, k) => l.append(x)))
  }
  action setFirst = {
    nondet f = oneOf((-6).to(12))
    goTo(event("setFirst", List(f), List()), f, vals)
  }
  action setLast = {
    nondet t = oneOf((-6).to(12))
    goTo(event("setLast", List(t), List()), t - vals.length() + 1, vals)
  }
  action clear = goTo(event("clear", List(), List()), nextIx(first, vals), List())
  action reset = goTo(event("reset", List(), List()), 0, List())
  // a copy is independent of the original
  action copyMutate = {
    nondet s = oneOf(0.to(SEEDS))
    goTo(event("copyMutate", List(), rvec(s, 1, nr * nc)), first, vals)
  }

  action ops = any {
    setValue, setValue, setValue, pushBack, pushBack, pushBack, pushBack, pushBack, pushBack, popFront, popFront, getAt, writeRef, ends, array,
    truncateAfter, truncateBefore, resize, setFirst, setLast, clear, reset, copyMutate
  }
  action step = if (dead) any { create, createSized } else any { ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, any { create, createSized } }

  // the representation is one contiguous block of complete elements, and an
  // element is found at exactly the indices of the block
  val inv = and {
    nextIx(first, vals) - first == vals.length(),
    vals.foldl(true, (b, x) => b and x.length() == nr * nc),
    range(first - 2, nextIx(first, vals) + 2).foldl(true, (b, k) =>
      b and (has(first, vals, k) iff (k - first >= 0 and k - first < vals.length())))
  }
}
