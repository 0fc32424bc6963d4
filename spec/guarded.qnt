// C03: guarded values (optionally with a time stamp).  Three slots of the same
// type, so that copies between them are observable.
module guarded {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"

  // known: a value has been stored at some time; set: it may be read
  type Slot = { isSet: bool, known: bool, v: List[int], t: int }
  var kind: int      // which of the library's guarded types
  var sl: List[Slot]
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val NSLOT = 3
  pure val UNSET: Slot = { isSet: false, known: false, v: List(), t: 0 }
  // 0 guarded 3-vector, 1 guarded scalar reporting by exception, 2 guarded matrix
  // 3 time-stamped vector, 4 time-stamped 3x3 matrix, 5 guarded quaternion coefficients (as 4-vector)
  pure def len(k: int): int = if (k == 0) 3 else if (k == 1) 1 else if (k == 2) 4 else if (k == 3) 3 else if (k == 4) 9 else 4
  pure def stamped(k: int): bool = k == 3 or k == 4

  // what the user sees: set flags of all slots, and value and time of the set ones
  pure def look(k: int, s: List[Slot]): Obs = okObs(
    s.foldl(List(), (l, x) => l.append(b2i(x.isSet)).append(if (x.isSet and stamped(k)) x.t else 0)),
    s.foldl(List(), (l, x) => if (x.isSet) l.concat(x.v) else l))

  action goTo(e: Ev, k: int, s: List[Slot]): bool = all { ev' = e, obs' = look(k, s), kind' = k, sl' = s, dead' = false }
  action refuse(e: Ev): bool = all { ev' = e, obs' = REJ, kind' = kind, sl' = sl, dead' = true }

  action init = all { ev' = NOEV, obs' = ANY, kind' = 0, sl' = List(UNSET, UNSET, UNSET), dead' = true }
  action create = {
    nondet k = oneOf(0.to(5))
    goTo(event("new", List(k), List()), k, List(UNSET, UNSET, UNSET))
  }
  // built from a value (and a time)
  action createFrom = {
    nondet k = oneOf(0.to(5))
    nondet s = oneOf(0.to(SEEDS))
    nondet t = oneOf((-3).to(7))
    val x = rvec(s, 1, len(k))
    goTo(event("newFrom", List(k, t), x), k, List({ isSet: true, known: true, v: x, t: t }, UNSET, UNSET))
  }
  action store = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    nondet t = oneOf((-3).to(7))
    val x = rvec(s, 1, len(kind))
    goTo(event("assign", List(i, t), x), kind, sl.replaceAt(i, { isSet: true, known: true, v: x, t: t }))
  }
  // through the reference obtained while switching it to set (guarded types)
  action assignRef = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val x = rvec(s, 1, len(kind))
    all { not(stamped(kind)),
      goTo(event("assignRef", List(i), x), kind, sl.replaceAt(i, { isSet: true, known: true, v: x, t: sl[i].t })) }
  }
  // through the checked reference: only while set
  action writeThrough = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val x = rvec(s, 1, len(kind))
    val e = event("writeThrough", List(i), x)
    if (sl[i].isSet) goTo(e, kind, sl.replaceAt(i, sl[i].with("v", x))) else refuse(e)
  }
  action reset = {
    nondet i = oneOf(0.to(NSLOT - 1))
    goTo(event("reset", List(i), List()), kind, sl.replaceAt(i, sl[i].with("isSet", false)))
  }
  // switching the flag keeps the stored value
  action flag = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet b = oneOf(Set(0, 1))
    all { b == 0 or sl[i].known,
      goTo(event("flag", List(i, b), List()), kind, sl.replaceAt(i, sl[i].with("isSet", b == 1))) }
  }
  action copy = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(Set(0, 1)) // copy construction, copy assignment
    goTo(event("copy", List(i, j, how), List()), kind, sl.replaceAt(i, sl[j]))
  }
  action read = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(3))
    val e = event("read", List(i, how), List())
    if (not(sl[i].isSet)) refuse(e)
    else all { ev' = e, obs' = okObs(List(), sl[i].v), kind' = kind, sl' = sl, dead' = false }
  }
  action getTime = {
    nondet i = oneOf(0.to(NSLOT - 1))
    val e = event("getTime", List(i), List())
    all { stamped(kind),
      if (not(sl[i].isSet)) refuse(e)
      else all { ev' = e, obs' = okObs(List(sl[i].t), List()), kind' = kind, sl' = sl, dead' = false } }
  }
  action setIndex = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet t = oneOf((-3).to(7))
    val e = event("setIndex", List(i, t), List())
    all { stamped(kind),
      if (not(sl[i].isSet)) refuse(e) else goTo(e, kind, sl.replaceAt(i, sl[i].with("t", t))) }
  }
  action good = any { store, store, assignRef, reset, flag, copy, copy }
  action step = if (dead) any { create, createFrom }
    else any { good, good, good, good, store, writeThrough, read, getTime, setIndex, createFrom }

  // a readable value has been stored, and has the size of its type
  val inv = sl.foldl(true, (b, x) => b and (x.isSet implies (x.known and x.v.length() == len(kind))))
}
