// C10: the logger.  Slots are variables of the supported types; each may live at
// either of two addresses.  A record is a time-indexed sequence (see seq.qnt).
module logger {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"

  type Slot = { tracked: bool, named: bool, loc: int, v: List[int], first: int, recs: List[List[int]] }
  type Line = { k: int, v: List[int] }
  var sl: List[Slot]
  var fs: List[List[Line]]    // file of each slot
  var hasFile: List[bool]
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val N = 9
  // types of the slots: 0 matrix (any shape) 1 vector (any length) 2 Matrix3
  // 3 Vector3 4 int 5 unsigned 6 long 7 double 8 float
  pure def sixDigits(s: int, i: int): int = {
    val h = rnd(s, i)
    val m = (h / 4) % 1999999 - 999999
    val c = h % 4
    if (c == 0) ofInt(m) else if (c == 1) dec(m, 2) else if (c == 2) dec(m, 4) else ofInt(m % 10)
  }
  pure def sixVec(s: int, i: int, n: int): List[int] = range(0, n).foldl(List(), (l, k) => l.append(sixDigits(s, 100 * i + k)))
  // number of rows of the dynamic ones follows from the number of values: matrices have 2 columns
  pure def value(s: int, ty: int): List[int] =
    if (ty == 0) sixVec(s, 1, 2 * rint(s, 0, 1, 3))
    else if (ty == 1) sixVec(s, 1, rint(s, 0, 1, 4))
    else if (ty == 2) sixVec(s, 1, 9)
    else if (ty == 3) sixVec(s, 1, 3)
    else if (ty == 4) List(ofInt(rint(s, 1, -999999, 999999)))
    else if (ty == 5) List(ofInt(rint(s, 1, 0, 429496) * 10000))
    else if (ty == 6) List(ofInt(rint(s, 1, -999999, 999999) * 1000000))
    else if (ty == 7) List(sixDigits(s, 1))
    else List(ofDy(rint(s, 1, -7999, 7999), 3))
  pure def fresh(ty: int): Slot = { tracked: false, named: false, loc: 0, v: value(ty, ty), first: 0, recs: List() }
  pure val START: List[Slot] = range(0, 9).foldl(List(), (l, i) => l.append(fresh(i)))
  pure def allVals(v: List[List[int]]): List[int] = v.foldl(List(), (l, x) => l.concat(x))

  pure def look(s: List[Slot]): Obs = okObs(
    s.foldl(List(), (l, x) => if (x.tracked) l.concat(List(1, x.first, x.recs.length())) else l.append(0)),
    s.foldl(List(), (l, x) => if (x.tracked) l.concat(allVals(x.recs)) else l))
  pure def pushed(x: Slot): Slot = if (x.tracked) x.with("recs", x.recs.append(x.v)) else x
  pure def cleared(x: Slot): Slot = x.with("first", x.first + x.recs.length()).with("recs", List())

  action goTo(e: Ev, s: List[Slot]): bool = all { ev' = e, obs' = look(s), sl' = s, fs' = fs, hasFile' = hasFile, dead' = false }
  action refuse(e: Ev): bool = all { ev' = e, obs' = REJ, sl' = sl, fs' = fs, hasFile' = hasFile, dead' = true }
  pure val NOFILES: List[List[Line]] = range(0, 9).foldl(List(), (l, i) => l.append(List()))
  pure val NONE: List[bool] = range(0, 9).foldl(List(), (l, i) => l.append(false))

  action init = all { ev' = NOEV, obs' = ANY, sl' = START, fs' = NOFILES, hasFile' = NONE, dead' = true }
  action create = all { ev' = event("new", START.foldl(List(), (l, x) => l.append(x.v.length())), START.foldl(List(), (l, x) => l.concat(x.v))), obs' = look(START),
                        sl' = START, fs' = NOFILES, hasFile' = NONE, dead' = false }
  action change = {
    nondet i = oneOf(0.to(N - 1))
    nondet s = oneOf(0.to(SEEDS))
    val x = value(s, i)
    goTo(event("change", List(i, x.length()), x), sl.replaceAt(i, sl[i].with("v", x)))
  }
  // several variables change
  action changeAll = {
    nondet s = oneOf(0.to(SEEDS))
    val xs = range(0, N).foldl(List(), (l, i) => l.append(value(s / 64 + 7919 * i, i)))
    goTo(event("changeAll", xs.foldl(List(), (l, x) => l.append(x.length())), allVals(xs)),
         range(0, N).foldl(List(), (l, i) => l.append(sl[i].with("v", xs[i]))))
  }
  action track = {
    nondet i = oneOf(0.to(N - 1))
    nondet nm = oneOf(Set(0, 1))
    nondet how = oneOf(0.to(2)) // by reference, pointer, pointer to const
    all { not(sl[i].tracked),
      goTo(event("record", List(i, nm, how), List()),
        sl.replaceAt(i, { tracked: true, named: nm == 1, loc: sl[i].loc, v: sl[i].v, first: 0, recs: List() })) }
  }
  action trackUnsupported = {
    nondet t = oneOf(0.to(2))
    refuse(event("recordUnsupported", List(t), List()))
  }
  action pushAll = goTo(event("push", List(), List()), sl.foldl(List(), (l, x) => l.append(pushed(x))))
  action pushOne = {
    nondet i = oneOf(0.to(N - 1))
    nondet how = oneOf(0.to(2))
    all { sl[i].tracked, goTo(event("pushOne", List(i, how), List()), sl.replaceAt(i, pushed(sl[i]))) }
  }
  action pushUntracked = {
    nondet i = oneOf(0.to(N - 1))
    nondet how = oneOf(0.to(2))
    all { not(sl[i].tracked), refuse(event("pushOne", List(i, how), List())) }
  }
  action clearLogs = goTo(event("clearLogs", List(), List()), sl.foldl(List(), (l, x) => l.append(cleared(x))))
  action clearTracking = goTo(event("clearTracking", List(), List()),
    sl.foldl(List(), (l, x) => l.append(x.with("tracked", false).with("recs", List()).with("first", 0))))
  // the variable now lives at its other address
  action move = {
    nondet i = oneOf(0.to(N - 1))
    all { sl[i].tracked, goTo(event("move", List(i), List()), sl.replaceAt(i, sl[i].with("loc", 1 - sl[i].loc))) }
  }
  action moveUntracked = {
    nondet i = oneOf(0.to(N - 1))
    all { not(sl[i].tracked), refuse(event("move", List(i), List())) }
  }
  action getUntracked = {
    nondet i = oneOf(0.to(N - 1))
    nondet cst = oneOf(Set(0, 1))
    all { not(sl[i].tracked), refuse(event("getUntracked", List(i, cst), List())) }
  }
  pure def linesOf(x: Slot): List[Line] = range(0, x.recs.length()).foldl(List(), (l, k) => l.append({ k: x.first + k, v: x.recs[k] }))
  action save = {
    nondet clr = oneOf(Set(0, 1))
    nondet app = oneOf(Set(0, 1))
    val s2 = sl.foldl(List(), (l, x) => l.append(if (x.tracked and x.named and clr == 1) cleared(x) else x))
    all {
      ev' = event("save", List(clr, app), List()), obs' = look(s2), sl' = s2, dead' = false,
      fs' = range(0, N).foldl(List(), (l, i) => l.append(
        if (not(sl[i].tracked and sl[i].named)) fs[i]
        else (if (app == 1) fs[i] else List()).concat(linesOf(sl[i])))),
      hasFile' = range(0, N).foldl(List(), (l, i) => l.append(hasFile[i] or (sl[i].tracked and sl[i].named)))
    }
  }
  pure def contig(f: List[Line]): bool = range(0, f.length()).foldl(true, (b, k) => b and f[k].k == f[0].k + k)
  action readBack = {
    nondet i = oneOf(0.to(N - 1))
    val f = fs[i]
    all { not(hasFile[i]) or contig(f),
      ev' = event("readBack", List(i), List()),
      obs' = if (not(hasFile[i])) okObs(List(0), List())
             else okObs(List(1, if (f == List()) 0 else f[0].k, f.length()), f.foldl(List(), (l, x) => l.concat(x.v))),
      sl' = sl, fs' = fs, hasFile' = hasFile, dead' = false }
  }
  // all files at once
  action readAll = all {
    ev' = event("readAll", List(), List()),
    range(0, N).foldl(true, (b, i) => b and contig(fs[i])),
    obs' = okObs(range(0, N).foldl(List(), (l, i) => if (not(hasFile[i])) l.append(0)
                 else l.concat(List(1, if (fs[i] == List()) 0 else fs[i][0].k, fs[i].length()))),
                 range(0, N).foldl(List(), (l, i) => l.concat(fs[i].foldl(List(), (m, x) => m.concat(x.v))))),
    sl' = sl, fs' = fs, hasFile' = hasFile, dead' = false }
  action ops = any { change, changeAll, changeAll, track, track, track, pushAll, pushAll, pushAll, pushOne, clearLogs, move, save, save, readBack, readAll }
  action rare = any { clearTracking, clearTracking, trackUnsupported, getUntracked, pushUntracked, moveUntracked }
  action step = if (dead) create else any { ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, rare }

  // untracked variables have no record; numbering never runs backwards
  val inv = sl.foldl(true, (b, x) => b and x.first >= 0 and (not(x.tracked) implies x.recs == List()))
}
