// C16: the tilt estimator.  State: velocity x1, intermediate tilt x2p, tilt x2 (unit).
module tilt {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"

  type Mat = List[List[int]]
  type T = { al: int, be: int, ga: int, dt: int, ps: List[int], Rs: Mat, vs: List[int], ws: List[int], vc: List[int],
             set: bool, x: List[int], t: int,
             raw: bool, // the tilt is as it was given
             pend: List[List[int]] } // measurements of times t+1, t+2, ...
  var m: T
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val G = dec(98, 1)
  pure def advance(s: T, y: List[int]): T = {
    val ya = seg(y, 0, 3)
    val yg = seg(y, 3, 3)
    val x1 = seg(s.x, 0, 3)
    val xp = seg(s.x, 3, 3)
    val x2 = seg(s.x, 6, 3)
    // velocity of the sensor in its own frame
    val v = vadd(mtv(s.Rs, vadd(s.vc, s.vs)), crossV(vsub(yg, mtv(s.Rs, s.ws)), mtv(s.Rs, s.ps)))
    val e = vsub(v, x1)
    val d1 = vadd(vadd(vsub(crossV(x1, yg), vscale(G, xp)), ya), vscale(s.al, e))
    val dp = vsub(crossV(xp, yg), vscale(s.be, e))
    val d2 = crossV(x2, vsub(yg, vscale(s.ga, crossV(x2, xp))))
    s.with("x", vadd(x1, vscale(s.dt, d1)).concat(vadd(xp, vscale(s.dt, dp))).concat(vnormalize(vadd(x2, vscale(s.dt, d2)))))
     .with("t", s.t + 1).with("raw", false)
  }
  pure def upTo(s: T, n: int): T = {
    val a = range(0, n).foldl(s, (q, k) => advance(q, s.pend[k]))
    a.with("pend", s.pend.slice(n, s.pend.length()))
  }
  pure def params(s: T): List[int] = List(s.al, s.be, s.ga, s.dt).concat(s.ps).concat(flat(s.Rs)).concat(s.vs).concat(s.ws).concat(s.vc)
  pure def look(s: T): Obs =
    if (s.set) okObs(List(1, s.t), params(s).concat(s.x)) else okObs(List(0), params(s))
  pure val NEW: T = { al: ONE, be: ONE, ga: ONE, dt: dec(5, 3), ps: zeroV(3), Rs: idM(3), vs: zeroV(3), ws: zeroV(3), vc: zeroV(3),
                      set: false, x: zeroV(9), t: 0, raw: true, pend: List() }
  action goTo(o: str, ii: List[int], rr: List[int], s: T): bool = all { ev' = event(o, ii, rr), obs' = look(s), m' = s, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }
  action init = all { ev' = NOEV, obs' = ANY, m' = NEW, dead' = true }
  action create = {
    nondet s = oneOf(0.to(SEEDS))
    goTo("new", List(), List(rpos(s, 1), rpos(s, 2), rpos(s, 3)), NEW.with("al", rpos(s, 1)).with("be", rpos(s, 2)).with("ga", rpos(s, 3)))
  }
  // the given tilt may be off the unit sphere: one step brings it back
  pure def rstate(s: int): List[int] = {
    val l = if (rint(s, 8, 0, 2) > 0) ONE else ofDy(rint(s, 7, 8, 100), 5)
    rvec(s, 1, 6).concat(qrotV(rquat(s, 3), List(0, 0, l)))
  }
  action setState = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(3))
    val x = rstate(s)
    val k = if (not(m.set)) rint(s, 9, 0, 5) else if (c == 0) imax(0, m.t - rint(s, 9, 1, 3)) else if (c == 1) m.t + rint(s, 9, 0, m.pend.length()) else m.t
    val past = m.set and k < m.t
    goTo("state", List(k), x, m.with("set", true).with("raw", true).with("x", x).with("t", k)
      .with("pend", if (past or not(m.set)) List() else m.pend.slice(imin(k - m.t, m.pend.length()), m.pend.length())))
  }
  action setCurrent = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rstate(s)
    if (m.set) goTo("current", List(), x, m.with("x", x).with("raw", true)) else refuse("current", List(), x)
  }
  action gain = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(3))
    val v = if (w == 3) ofDy(1 + rnd(s, 1) % 40, 10) else rpos(s, 1)
    goTo("gain", List(w), List(v), if (w == 0) m.with("al", v) else if (w == 1) m.with("be", v) else if (w == 2) m.with("ga", v) else m.with("dt", v))
  }
  action kine = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(4))
    val v = rvec(s, 1, 3)
    val r = qmat(rquat(s, 2))
    if (w == 0) goTo("kine", List(0), v, m.with("ps", v))
    else if (w == 1) goTo("kine", List(1), flat(r), m.with("Rs", r))
    else if (w == 2) goTo("kine", List(2), v, m.with("vs", v))
    else if (w == 3) goTo("kine", List(3), v, m.with("ws", v))
    else goTo("kine", List(4), v, m.with("vc", v))
  }
  action kineAll = {
    nondet s = oneOf(0.to(SEEDS))
    val r = qmat(rquat(s, 2))
    val v = range(0, 4).foldl(List(), (l, k) => l.append(rvec(s, 11 + k, 3)))
    goTo("kineAll", List(), v[0].concat(flat(r)).concat(v[1]).concat(v[2]).concat(v[3]),
      m.with("ps", v[0]).with("Rs", r).with("vs", v[1]).with("ws", v[2]).with("vc", v[3]))
  }
  // through the accelerometer/gyrometer call or the generic one
  action measure = {
    nondet s = oneOf(0.to(SEEDS))
    nondet how = oneOf(0.to(2))
    val y = rvec(s, 1, 6)
    all { m.set, m.pend.length() < 6, goTo("measure", List(how, m.t + 1 + m.pend.length()), y, m.with("pend", m.pend.append(y))) }
  }
  action remeasure = {
    nondet s = oneOf(0.to(SEEDS))
    nondet how = oneOf(0.to(1))
    val y = rvec(s, 1, 6)
    val k = rint(s, 2, 0, imax(0, m.pend.length() - 1))
    all { m.set, m.pend.length() > 0, goTo("measure", List(how, m.t + 1 + k), y, m.with("pend", m.pend.replaceAt(k, y))) }
  }
  action measureGap = {
    nondet s = oneOf(0.to(SEEDS))
    val k = m.t + m.pend.length() + rint(s, 2, 2, 4)
    all { m.set, refuse("measure", List(0, k), rvec(s, 1, 6)) }
  }
  action estimate = {
    nondet all_ = oneOf(Set(true, false))
    nondet s = oneOf(0.to(SEEDS))
    val n = if (all_) m.pend.length() else rint(s, 1, 0, m.pend.length())
    all { m.set, goTo("estimate", List(m.t + n), List(), upTo(m, n)) }
  }
  action estimateAll = all { m.set, goTo("estimateAll", List(), List(), upTo(m, m.pend.length())) }
  action tooFar = {
    nondet n = oneOf(1.to(2))
    if (m.set) refuse("estimate", List(m.t + m.pend.length() + n), List()) else refuse("estimate", List(n), List())
  }
  action past = all { m.set, m.t > 0, refuse("estimate", List(m.t - 1), List()) }
  action unset = goTo("unset", List(), List(), m.with("set", false).with("pend", List()))
  action ops = any { measure, measure, measure, remeasure, estimate, estimate, estimateAll, gain, kine, kineAll, setState, setCurrent }
  action rare = any { setState, measureGap, tooFar, past, unset, setCurrent }
  action step = if (dead) create else if (not(m.set)) any { setState, setState, setState, gain, kine, kineAll, rare }
    else any { ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, rare }

  val inv = all {
    (m.set and not(m.raw)) implies iabs(norm(seg(m.x, 6, 3)) - ONE) < dec(1, 15),
    m.pend.length() <= 6
  }
}
