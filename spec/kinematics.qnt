// C12: rigid-body kinematics with optional quantities: composition, inverse,
// integration, update from new data, vector form.
module kinematics {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import rot.* from "./rot"
  import common.* from "./common"
  import kine.* from "./kine"

  var sl: List[Kine]
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val NSLOT = 3
  pure def look(s: List[Kine]): Obs = okObs(s.foldl(List(), (l, x) => l.append(mask(x))),
    s.foldl(List(), (l, x) => l.concat(vals(x))))

  // ---- transitions ----
  action goTo(o: str, ii: List[int], rr: List[int], s: List[Kine]): bool = all {
    ev' = event(o, ii, rr), obs' = look(s), sl' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], b: Obs): bool = all {
    ev' = event(o, ii, rr), obs' = b, sl' = sl, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all {
    ev' = event(o, ii, rr), obs' = REJ, sl' = sl, dead' = true }

  // a random subset, full and empty over-represented
  pure def rmask(s: int, i: int): int = {
    val c = rint(s, 3000 + i, 0, 5)
    val m = rint(s, 3100 + i, 0, 63)
    if (c <= 2) 63 else if (c == 3) 63 - 2^(rint(s, 3200 + i, 0, 5)) else m
  }
  pure def rkine(s: int, f: int): Kine = {
    pos: if (bit(f, 0)) rvec(s, 1, 3) else List(), ori: if (bit(f, 1)) rquat(s, 2) else List(),
    lv: if (bit(f, 2)) rvec(s, 3, 3) else List(), av: if (bit(f, 3)) rvec(s, 4, 3) else List(),
    la: if (bit(f, 4)) rvec(s, 5, 3) else List(), aa: if (bit(f, 5)) rvec(s, 6, 3) else List() }
  action init = all { ev' = NOEV, obs' = ANY, sl' = List(EMPTY, EMPTY, EMPTY), dead' = true }
  action create = goTo("new", List(), List(), List(EMPTY, EMPTY, EMPTY))
  // whole value, field by field; how: representation of the orientation
  action fill = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(3))
    nondet s = oneOf(0.to(SEEDS))
    val f = rmask(s, 1)
    val k = rkine(s, f)
    goTo("fill", List(i, f, how), flatK(k), sl.replaceAt(i, k))
  }
  // some fields only
  action putSome = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(3))
    nondet s = oneOf(0.to(SEEDS))
    val f = rint(s, 1, 1, 63)
    val k = rkine(s, f)
    goTo("put", List(i, f, how), flatK(k), sl.replaceAt(i, over(sl[i], k)))
  }
  action drop = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet b = oneOf(0.to(5))
    goTo("drop", List(i, 2^b), List(), sl.replaceAt(i, without(sl[i], 2^b)))
  }
  action resetAll = {
    nondet i = oneOf(0.to(NSLOT - 1))
    goTo("reset", List(i), List(), sl.replaceAt(i, EMPTY))
  }
  pure val ZERO: Kine = { pos: zeroV(3), ori: QID, lv: zeroV(3), av: zeroV(3), la: zeroV(3), aa: zeroV(3) }
  action setZero = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(2))
    nondet s = oneOf(0.to(SEEDS))
    val f = rmask(s, 1)
    goTo("setZero", List(i, f, how), List(), sl.replaceAt(i, over(sl[i], without(ZERO, 63 - f))))
  }
  action copy = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    goTo("copy", List(i, j, how), List(), sl.replaceAt(i, sl[j]))
  }
  // how: 0 constructor, 1 in place; short: one value missing
  action fromVector = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(1))
    nondet short = oneOf(0.to(11))
    nondet s = oneOf(0.to(SEEDS))
    val f = rmask(s, 1)
    val k = rkine(s, f)
    val v = flatK(k)
    if (short == 0 and f > 0) refuse("fromVector", List(i, f, how), seg(v, 0, v.length() - 1))
    else goTo("fromVector", List(i, f, how), v, sl.replaceAt(i, if (how == 0) k else over(sl[i], k)))
  }
  action toVector = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet s = oneOf(0.to(SEEDS))
    val m = mask(sl[i])
    val c = rint(s, 1, 0, 9)
    val f = if (c == 0) rmask(s, 1) else range(0, 6).foldl(0, (a, b) => if (bit(m, b) and rint(s, 10 + b, 0, 3) > 0) a + 2^b else a)
    val ok = range(0, 6).foldl(true, (a, b) => a and (not(bit(f, b)) or bit(m, b)))
    if (ok) say("toVector", List(i, f), List(), okObs(List(), vals(without(sl[i], 63 - f))))
    else refuse("toVector", List(i, f), List())
  }
  action toVectorAll = {
    nondet i = oneOf(0.to(NSLOT - 1))
    say("toVectorAll", List(i), List(), okObs(List(), vals(sl[i])))
  }
  // there and back with the same flags
  action roundTrip = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    goTo("roundTrip", List(i, j, mask(sl[j])), List(), sl.replaceAt(i, over(sl[i], sl[j])))
  }
  // how: 0 operator, 1 constructor, 2 in place
  action product = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    nondet k = oneOf(0.to(NSLOT - 1))
    nondet how0 = oneOf(0.to(2))
    val how = if (i == j or i == k) how0 % 2 else how0
    all { small(sl[j]), small(sl[k]),
      if (not(defined2(sl[j], sl[k]))) refuse("product", List(i, j, k, how), List())
      else goTo("product", List(i, j, k, how), List(), sl.replaceAt(i, compose(sl[j], sl[k]))) }
  }
  action inverse = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    all { small(sl[j]),
      if (not(has(sl[j].ori))) refuse("inverse", List(i, j), List())
      else goTo("inverse", List(i, j), List(), sl.replaceAt(i, inverted(sl[j]))) }
  }
  action integrate = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet d = oneOf(1.to(24))
    all { small(sl[i]),
      goTo("integrate", List(i), List(ofDy(d, 4)), sl.replaceAt(i, integrated(sl[i], ofDy(d, 4)))) }
  }
  action update = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet j = oneOf(0.to(NSLOT - 1))
    nondet d = oneOf(1.to(24))
    nondet s = oneOf(0.to(SEEDS))
    val f = rmask(s, 1)
    val dt = ofDy(d, 4)
    all { i != j, small(sl[i]), small(sl[j]),
      not(has(sl[i].ori)) or not(has(sl[j].ori)) or rvOk(qmul(sl[j].ori, qconj(sl[i].ori))),
      if (not(updateOk(sl[i], sl[j], f)))
        if (rint(s, 77, 0, 7) == 0) refuse("update", List(i, j, f), List(dt)) else fillUpd(i, s, j, dt, f)
      else goTo("update", List(i, j, f), List(dt), sl.replaceAt(i, upd(sl[i], sl[j], dt, f))) }
  }
  // make slot i complete instead of refusing too often
  action fillUpd(i: int, s: int, j: int, dt: int, f: int): bool = {
    val k = rkine(s, 63)
    goTo("fill", List(i, 63, f % 4), flatK(k), sl.replaceAt(i, k))
  }
  // sparse new data, so that every update rule is exercised
  action updateFrom = {
    nondet i = oneOf(0.to(NSLOT - 1))
    nondet how = oneOf(0.to(3))
    nondet d = oneOf(1.to(24))
    nondet s = oneOf(0.to(SEEDS))
    val nf = rint(s, 5, 0, 63)
    val f = rmask(s, 1)
    val n0 = rkine(s, nf)
    // possibly close to the present value
    val n1 = if (has(n0.ori) and has(sl[i].ori) and rint(s, 6, 0, 2) == 0) n0.with("ori", nearQ(s, 7, sl[i].ori)) else n0
    val n = if (has(n1.pos) and has(sl[i].pos) and rint(s, 8, 0, 2) == 0) n1.with("pos", vadd(sl[i].pos, vscale(ofDy(1, rint(s, 9, 4, 20)), ruvec(s, 10, 3)))) else n1
    val dt = ofDy(d, 4)
    all { small(sl[i]), updateOk(sl[i], n, f),
      not(has(sl[i].ori)) or not(has(n.ori)) or rvOk(qmul(n.ori, qconj(sl[i].ori))),
      goTo("updateFrom", List(i, f, nf, how), List(dt).concat(flatK(n)), sl.replaceAt(i, upd(sl[i], n, dt, f))) }
  }
  val holes = sl.foldl(0, (n, x) => if (mask(x) != 0) n else n + 1)
  action ops = any { fill, fill, putSome, any { drop, resetAll, copy }, setZero, fromVector, toVector, toVectorAll, roundTrip,
      product, product, inverse, inverse, integrate, integrate, update, update, updateFrom, updateFrom, updateFrom }
  action step = if (dead) create else if (holes > 0) any { fill, fill, fill, fromVector, ops } else ops

  // composing with the inverse gives the identity, on both sides, for what is available
  pure def isId(x: Kine): bool = vmaxabs(x.pos) < 2^70 and vmaxabs(x.lv) < 2^70 and vmaxabs(x.av) < 2^70 and vmaxabs(x.la) < 2^70
    and vmaxabs(x.aa) < 2^70 and vmaxabs(vsub(flat(qmat(x.ori)), flat(idM(3)))) < 2^70
  val inv = if (has(sl[0].ori) and small(sl[0])) isId(compose(sl[0], inverted(sl[0]))) and isId(compose(inverted(sl[0]), sl[0])) else true
}
