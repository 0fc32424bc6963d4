// C11: orientations and the agreement of their representations.
module orientation {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import rot.* from "./rot"
  import common.* from "./common"

  type Ori = { isSet: bool, q: List[int] }
  var sl: List[Ori]
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val NSLOT = 3
  pure val UNSET: Ori = { isSet: false, q: QID }
  pure def rotOf(p: List[int]): Ori = { isSet: true, q: p }

  // may roll-pitch-yaw be read back (away from gimbal lock)
  pure def rpyOk(x: Ori): int = b2i(x.isSet and iabs(qmat(x.q)[2][0]) < dec(995, 3))
  // is the rotation vector unique (away from half turns)
  pure def rvOk(q: List[int]): bool = qangle(q) < dec(3139, 3)

  // every representation of every slot: the matrix, and how far the quaternion,
  // rotation vector, angle-axis and roll-pitch-yaw are from describing it
  pure def look(s: List[Ori]): Obs = okObs(
    s.foldl(List(), (l, x) => l.append(b2i(x.isSet))),
    s.foldl(List(), (l, x) => if (not(x.isSet)) l
      else l.concat(flat(qmat(x.q))).concat(List(0, 0, 0, 0, ONE, qangle(x.q), qangle(x.q)))))
  pure def flags(s: List[Ori]): List[int] = s.foldl(List(), (l, x) => l.append(rpyOk(x)))

  action goTo(o: str, ii: List[int], rr: List[int], s: List[Ori]): bool = all {
    ev' = event(o, flags(s).concat(ii), rr), obs' = look(s), sl' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], b: Obs): bool = all {
    ev' = event(o, flags(sl).concat(ii), rr), obs' = b, sl' = sl, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all {
    ev' = event(o, flags(sl).concat(ii), rr), obs' = REJ, sl' = sl, dead' = true }

  action init = all { ev' = NOEV, obs' = ANY, sl' = List(UNSET, UNSET, UNSET), dead' = true }
  action create = goTo("new", List(), List(), List(UNSET, UNSET, UNSET))

  // how: 0 construct, 1 assign
  action fromRotVec = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    nondet s = oneOf(0.to(SEEDS))
    val v = rrotvec(s, 1)
    goTo("rotvec", List(i, how), v, sl.replaceAt(i, rotOf(qexp(v))))
  }
  // how: 2 setValue from a 4-vector
  action fromQuat = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(2))
    nondet s = oneOf(0.to(SEEDS))
    // possibly close to the previous value
    val q = if (sl[i].isSet and rint(s, 5, 0, 3) == 0) nearQ(s, 2, sl[i].q) else rquat(s, 1)
    goTo("quat", List(i, how), q, sl.replaceAt(i, rotOf(q)))
  }
  action fromMat = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    nondet s = oneOf(0.to(SEEDS))
    val q = if (sl[i].isSet and rint(s, 5, 0, 3) == 0) nearQ(s, 2, sl[i].q) else rquat(s, 1)
    goTo("mat", List(i, how), flat(qmat(q)), sl.replaceAt(i, rotOf(q)))
  }
  action fromBoth = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    nondet s = oneOf(0.to(SEEDS))
    val q = rquat(s, 1)
    goTo("both", List(i, how), q.concat(flat(qmat(q))), sl.replaceAt(i, rotOf(q)))
  }
  action fromAngleAxis = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    nondet s = oneOf(0.to(SEEDS))
    val u = vnormalize(vadd(ruvec(s, 1, 3), List(0, 0, dec(11, 1))))
    val a = rangle(s, 2)
    goTo("aa", List(i, how), List(a).concat(u), sl.replaceAt(i, rotOf(qexp(vscale(a, u)))))
  }
  action fromRpy = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val r = rangle(s, 1)
    val p = rangle(s, 2)
    val y = rangle(s, 3)
    goTo("rpy", List(i), List(r, p, y), sl.replaceAt(i, rotOf(rpyQ(r, p, y))))
  }
  // how: 0 default, 1 as quaternion, 2 as matrix, 3 static, 4 static both
  action zero = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(3))
    goTo("zero", List(i, how), List(), sl.replaceAt(i, rotOf(QID)))
  }
  action copy = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    goTo("copy", List(i, j, how), List(), sl.replaceAt(i, sl[j]))
  }
  // how: 0 operator, 1 constructor, 2 in place (target distinct from the operands)
  action product = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    nondet k = oneOf(0.to(NSLOT - 1))
    nondet how0 = oneOf(0.to(2))
    val how = if (i == j or i == k) how0 % 2 else how0
    if (not(sl[j].isSet) or not(sl[k].isSet)) refuse("product", List(i, j, k, how), List())
    else goTo("product", List(i, j, k, how), List(), sl.replaceAt(i, rotOf(qmul(sl[j].q, sl[k].q))))
  }
  action inverse = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    if (not(sl[j].isSet)) refuse("inverse", List(i, j), List())
    else goTo("inverse", List(i, j), List(), sl.replaceAt(i, rotOf(qconj(sl[j].q))))
  }
  action integrate = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val v = rrotvec(s, 1)
    if (not(sl[i].isSet)) refuse("integrate", List(i), v)
    else goTo("integrate", List(i), v, sl.replaceAt(i, rotOf(qmul(qexp(v), sl[i].q))))
  }
  // integrating and differentiating back
  action integDiff = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val v = rrotvec(s, 1)
    all { sl[i].isSet, rvOk(qexp(v)),
      say("integDiff", List(i), v, okObs(List(), qlog(qexp(v)))) }
  }
  // the rotation vector leading from slot i to slot j
  action differentiate = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    if (not(sl[i].isSet) or not(sl[j].isSet)) refuse("differentiate", List(i, j), List())
    else {
      val d = qmul(sl[j].q, qconj(sl[i].q))
      if (rvOk(d)) say("differentiate", List(i, j, 1), List(), okObs(List(), qlog(d)))
      else say("differentiate", List(i, j, 0), List(), okObs(List(), flat(qmat(d)).append(qangle(d))))
    }
  }
  action applyV = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val v = rvec(s, 1, 3)
    if (not(sl[i].isSet)) refuse("apply", List(i), v)
    else say("apply", List(i), v, okObs(List(), qrotV(sl[i].q, v)))
  }
  // read one representation on the object itself (fills its lazily kept ones)
  // what: 0 matrix 1 quaternion 2 vector4 3 rotation vector 4 rpy 5 angle-axis 6/7 conversion operators
  action read = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet what = oneOf(0.to(7))
    if (not(sl[i].isSet)) refuse("read", List(i, what), List())
    else all { what != 4 or rpyOk(sl[i]) == 1,
      say("read", List(i, what), List(), okObs(List(), flat(qmat(sl[i].q)))) }
  }
  action sync = {
    nondet i = oneOf(0.to(NSLOT - 1))
    if (not(sl[i].isSet)) refuse("sync", List(i), List())
    else goTo("sync", List(i), List(), sl)
  }
  action reset = {
    nondet i = oneOf(0.to(NSLOT - 1))
    goTo("reset", List(i), List(), sl.replaceAt(i, UNSET))
  }
  // random rotations are rotations (value not predicted)
  action random = {
    nondet how = oneOf(0.to(2))
    say("random", List(how), List(), okObs(List(1), List(0, 0, 0)))
  }
  action assignOne = any { fromRotVec, fromQuat, fromMat, fromBoth, fromAngleAxis, fromRpy, zero, fromMat }
  val holes = sl.foldl(0, (n, x) => if (x.isSet) n else n + 1)
  action step = if (dead) create
    else if (holes > 0) any { assignOne, assignOne, assignOne, assignOne, assignOne, ops }
    else ops
  action ops = any { assignOne, assignOne, assignOne, copy, product, product, product, inverse, integrate, integrate,
      integDiff, differentiate, differentiate, applyV, read, read, read, sync, any { reset, random } }

  // composition laws on the specification itself: unit norm, associativity with the inverse
  val inv = sl.foldl(true, (b, x) => b and iabs(norm2(x.q) - ONE) < 2^60
    and vmaxabs(vsub(qmul(x.q, qconj(x.q)), QID)) < 2^60
    and vmaxabs(vsub(flat(mmt(qmat(x.q), qmat(x.q))), flat(idM(3)))) < 2^60)
}
