// C20: inertial state-space models.  Kinds: 0 inertial unit with acceleration input,
// 1 with magnetometer (accelerations vanish), 2 same as 0 with a quaternion, 3 flexibility
// with fixed contacts (accelerations stay), 4 stabilised flexibility, 5 planar elastic pendulum.
module imusys {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"
  import motion.* from "./motion"

  type S = { kind: int, dt: int, pn: List[int], mn: List[int], ct: Mat, par: List[int],
             q0: List[int] } // orientation of the last evaluation; noises: bias, empty = none
  var m: S
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val FIELD = List(0, ofInt(28), dec(-337, 1))
  // ------------------------------------------------------------------ motion
  // spring and damper of the stabilised flexibility: 25 x + x'
  pure def spring(x: List[int], v: List[int]): List[int] = vneg(vadd(vmulInt(25, x), v))
  pure def after(kind: int, dt: int, x: X, u: List[int]): X =
    if (kind == 4) move(dt, x.with("a", spring(x.p, x.v)).with("b", spring(qlog(x.q), x.w)))
    else {
      val y = move(dt, x)
      if (kind == 1) y.with("a", zeroV(3)).with("b", zeroV(3))
      else if (kind == 3) y
      else y.with("a", seg(u, 0, 3)).with("b", seg(u, 3, 3))
    }
  pure def pendulum(s: S, x: List[int], u: int): List[int] = {
    val k = s.par[0]
    val mass = s.par[1]
    val h = s.par[2]
    val c = mul(cosF(x[1]), x[0]) - mul(sinF(x[1]), h)
    // angular momentum balance about the joint of the mass at (p, h) in the turning frame
    val torque = -mul(k, x[1]) - mul(mul(mass, dec(98, 1)), c) + mul(mass, mul(h, u) - 2 * mul(x[3], mul(x[0], x[2])))
    val acc = div(torque, mul(mass, sq(x[0]) + sq(h)))
    vadd(x, vscale(s.dt, List(x[2], x[3], u, acc)))
  }
  pure def readings(kind: int, x: X): List[int] =
    qrotTV(x.q, vadd(x.a, G)).concat(qrotTV(x.q, x.w)).concat(if (kind == 1) qrotTV(x.q, FIELD) else List())

  // ------------------------------------------------------------------ layout
  pure def rx(s: int, i: int): X = { p: rvec(s, i, 3), q: rquat(s, i + 1), v: rvec(s, i + 2, 3), w: rvec(s, i + 3, 3), a: rvec(s, i + 4, 3), b: rvec(s, i + 5, 3) }
  // the orientation may be the one of the previous evaluation, or close to it
  pure def qAlt(s: int, q0: List[int]): List[int] = {
    val c = rint(s, 95, 0, 7)
    if (c < 4) rquat(s, 2) else if (c == 4) q0
      else qmul(qexp(vscale(ofDy(1, if (c < 7) rint(s, 96, 20, 25) else rint(s, 96, 4, 19)), ruvec(s, 97, 3))), q0)
  }
  pure def rxFrom(s: int, q0: List[int]): X = rx(s, 1).with("q", qAlt(s, q0))
  pure def vecOf(kind: int, x: X): List[int] =
    x.p.concat(if (kind == 2) x.q else qlog(x.q)).concat(x.v).concat(x.w).concat(x.a).concat(x.b)
  // orientations are compared as matrices
  pure def seen(x: X): List[int] = x.p.concat(flat(qmat(x.q))).concat(x.v).concat(x.w).concat(x.a).concat(x.b)
  pure def xSize(kind: int): int = if (kind == 5) 4 else if (kind == 2) 19 else 18
  pure def inSize(kind: int): int = if (kind == 5) 1 else if (kind == 1) 0 else if (kind >= 3) 15 else 6
  pure def outSize(s: S): int = if (s.kind == 5) 0 else if (s.kind == 1) 9 else 6 + 3 * s.ct.length()
  pure def addV(a: List[int], b: List[int]): List[int] = if (b == List()) a else vadd(a, b)

  pure def look(s: S): Obs = okObs(List(xSize(s.kind), inSize(s.kind), outSize(s), b2i(s.pn != List()), b2i(s.mn != List())), List())
  pure val NEW: S = { kind: 0, dt: ONE, pn: List(), mn: List(), ct: List(), par: List(0, ONE, ONE), q0: List(0, 0, 0, ONE) }
  action goTo(o: str, ii: List[int], rr: List[int], s: S): bool = all { ev' = event(o, ii, rr), obs' = look(s), m' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], ob: Obs): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = m, dead' = false }
  action sayAt(o: str, ii: List[int], rr: List[int], ob: Obs, q: List[int]): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = m.with("q0", q), dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }
  action init = all { ev' = NOEV, obs' = ANY, m' = NEW, dead' = true }
  pure def rdt(s: int): int = ofDy(1 + rnd(s, 77) % 64, 7)
  action create = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kd = oneOf(0.to(5))
    val d = if (kd == 3 or kd == 4) rdt(s) else ONE
    goTo("new", List(kd), List(d), NEW.with("kind", kd).with("dt", d))
  }
  action period = {
    nondet s = oneOf(0.to(SEEDS))
    goTo("dt", List(), List(rdt(s)), m.with("dt", rdt(s)))
  }
  // noises of zero deviation: the bias; orientations are left alone
  action processNoise = {
    nondet s = oneOf(0.to(SEEDS))
    nondet on = oneOf(Set(true, false))
    val b = rvec(s, 1, xSize(m.kind))
    val b1 = if (m.kind == 5) b else setSeg(b, 3, zeroV(if (m.kind == 2) 4 else 3))
    if (on) goTo("processNoise", List(1), b1, m.with("pn", b1)) else goTo("processNoise", List(0), List(), m.with("pn", List()))
  }
  action measureNoise = {
    nondet s = oneOf(0.to(SEEDS))
    nondet on = oneOf(Set(true, false))
    val b = rvec(s, 1, if (m.kind == 1) 9 else 6)
    all { m.kind != 5, if (on) goTo("measureNoise", List(1), b, m.with("mn", b)) else goTo("measureNoise", List(0), List(), m.with("mn", List())) }
  }
  action contacts = {
    nondet n = oneOf(0.to(3))
    all { m.kind == 3 or m.kind == 4,
      goTo("contacts", List(n), List(), m.with("ct", range(0, n).foldl(List(), (l, i) => l.append(if (i < m.ct.length()) m.ct[i] else zeroV(3))))) }
  }
  action contact = {
    nondet s = oneOf(0.to(SEEDS))
    val i = rint(s, 9, 0, imax(0, m.ct.length() - 1))
    val c = rvec(s, 1, 3)
    all { m.ct.length() > 0, goTo("contact", List(i), c, m.with("ct", m.ct.replaceAt(i, c))) }
  }
  action badContact = {
    nondet s = oneOf(0.to(SEEDS))
    all { m.kind == 3 or m.kind == 4, refuse("contact", List(m.ct.length() + rint(s, 1, 0, 2)), rvec(s, 1, 3)) }
  }
  action param = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(2))
    val v = ofDy(8 + rnd(s, 1) % 256, 5)
    all { m.kind == 5, goTo("param", List(w), List(v), m.with("par", m.par.replaceAt(w, v))) }
  }
  pure def uVec(s: int, k: int): List[int] = if (k == 1) List() else rvec(s, 30, if (k == 5) 1 else 6)
  pure def flexU(u: X): List[int] = u.p.concat(qlog(u.q)).concat(u.v).concat(u.w).concat(u.a)
  action dynamics = {
    nondet s = oneOf(0.to(SEEDS))
    nondet k = oneOf(0.to(9))
    nondet sc = oneOf(0.to(3))
    val x = rxFrom(s, m.q0)
    val kd = m.kind
    if (kd == 5) {
      val y = rvec(s, 1, 4)
      val u = rreal(s, 2)
      say("dynamics", List(k), y.concat(List(u)), okObs(List(1), addV(pendulum(m, y, u), m.pn)))
    } else {
      val u = uVec(s, kd)
      val y = after(kd, m.dt, x, u)
      // a quaternion that lost its unit norm comes out proper
      val x1 = if (kd == 2 and sc == 0) x.with("q", vscale(ofDy(5, 2), x.q)) else x
      val e = vecOf(kd, x1).concat(if (kd >= 3) flexU(rx(s, 50)) else u)
      val n = if (m.pn == List()) zeroV(xSize(kd)) else m.pn
      val o = if (kd == 2) 7 else 6
      sayAt("dynamics", List(k), e, okObs(List(1), seen({ p: vadd(y.p, seg(n, 0, 3)), q: y.q, v: vadd(y.v, seg(n, o, 3)), w: vadd(y.w, seg(n, o + 3, 3)),
        a: vadd(y.a, seg(n, o + 6, 3)), b: vadd(y.b, seg(n, o + 9, 3)) })), x.q)
    }
  }
  action measure = {
    nondet s = oneOf(0.to(SEEDS))
    nondet k = oneOf(0.to(9))
    val x = rxFrom(s, m.q0)
    val u = rx(s, 50)
    val kd = m.kind
    if (kd == 5) say("measure", List(k), rvec(s, 1, 5), okObs(List(), List()))
    else if (kd >= 3) sayAt("measure", List(k), vecOf(kd, x).concat(flexU(u)),
      okObs(List(), addV(flexReadings(x, u), m.mn).concat(contactsAt(m.ct, x))), x.q)
    else sayAt("measure", List(k), vecOf(kd, x).concat(uVec(s, kd)), okObs(List(), addV(readings(kd, x), m.mn)), x.q)
  }
  // several evaluations in a row: each is a function of its own arguments
  // (the second flexibility evaluation reuses the orientation of the first)
  action twice = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(s, 1)
    val x2 = { p: rvec(s, 81, 3), q: qAlt(s, x.q), v: rvec(s, 82, 3), w: rvec(s, 83, 3), a: rvec(s, 84, 3), b: rvec(s, 85, 3) }
    val kd = m.kind
    val u = uVec(s, kd)
    all { kd < 3, m.pn == List(),
      say("twice", List(), vecOf(kd, x).concat(vecOf(kd, x2)).concat(u),
        okObs(List(1), seen(after(kd, m.dt, x, u)).concat(addV(readings(kd, x2), m.mn)).concat(seen(after(kd, m.dt, x2, u))).concat(addV(readings(kd, x), m.mn)))) }
  }
  action badSize = {
    nondet w = oneOf(0.to(2))
    nondet d = oneOf(Set(-1, 1))
    all { w == 2 implies (m.kind != 1 and m.kind != 3 and m.kind != 4), w == 1 implies m.kind != 5,
      refuse("badSize", List(w, xSize(m.kind) + (if (w == 2) 0 else d), inSize(m.kind) + (if (w == 2) d else 0)), List()) }
  }
  // ------------------------------------------------------------------ manifold of kind 2
  pure def plus(x: X, t: List[int]): X = { p: vadd(x.p, seg(t, 0, 3)), q: qmul(qexp(seg(t, 3, 3)), x.q), v: vadd(x.v, seg(t, 6, 3)),
    w: vadd(x.w, seg(t, 9, 3)), a: vadd(x.a, seg(t, 12, 3)), b: vadd(x.b, seg(t, 15, 3)) }
  pure def minus(x: X, y: X): List[int] = vsub(x.p, y.p).concat(qlog(qmul(x.q, qconj(y.q)))).concat(vsub(x.v, y.v)).concat(vsub(x.w, y.w))
    .concat(vsub(x.a, y.a)).concat(vsub(x.b, y.b))
  pure def tv(s: int): List[int] = rvec(s, 60, 3).concat(rrotvec(s, 61)).concat(rvec(s, 62, 12))
  action sum = {
    nondet s = oneOf(0.to(SEEDS))
    val t = tv(s)
    all { m.kind == 2, say("sum", List(), vecOf(2, rx(s, 1)).concat(t), okObs(List(1), seen(plus(rx(s, 1), t)))) }
  }
  action diffState = {
    nondet s = oneOf(0.to(SEEDS))
    nondet same = oneOf(0.to(2))
    val x = rx(s, 1)
    val y = if (same == 0) x else if (same == 1) plus(x, vscale(ofDy(1, 12), tv(s))) else rx(s, 11)
    val d = minus(x, y)
    all { m.kind == 2, norm(seg(d, 3, 3)) < ofDy(25, 3), say("difference", List(), vecOf(2, x).concat(vecOf(2, y)), okObs(List(), d)) }
  }
  // derivatives of the maps, by symmetric differences much finer than the tolerance
  pure val H = 2^75
  pure def jac(cols: Mat): List[int] = flat(transpM(cols))
  action jacobianA = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(s, 1)
    val u = zeroV(6)
    all { m.kind == 2, say("jacobianA", List(), vecOf(2, x), okObs(List(18, 18), jac(range(0, 18).foldl(List(), (l, j) => l.append(
      vmulInt(2^34, minus(after(2, m.dt, plus(x, vset(zeroV(18), j, H)), u), after(2, m.dt, plus(x, vset(zeroV(18), j, -H)), u)))))))) }
  }
  action jacobianC = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(s, 1)
    all { m.kind == 2, say("jacobianC", List(), vecOf(2, x), okObs(List(6, 18), jac(range(0, 18).foldl(List(), (l, j) => l.append(
      vmulInt(2^34, vsub(readings(2, plus(x, vset(zeroV(18), j, H))), readings(2, plus(x, vset(zeroV(18), j, -H)))))))))) }
  }
  // default arithmetics
  action plain = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(2))
    nondet n = oneOf(1.to(5))
    val a = rvec(s, 1, n)
    val b = rvec(s, 2, n)
    say("plain", List(w, n), a.concat(b), okObs(List(), if (w == 0) vadd(a, b) else vsub(a, b)))
  }
  action set_ = any { period, processNoise, measureNoise, contacts, contact, contact, contact, param, param }
  action ask = any { dynamics, dynamics, dynamics, measure, measure, measure, twice, sum, diffState, plain, jacobianC }
  action step = if (dead) create else any { set_, set_, set_, ask, ask, ask, ask, ask, ask, ask, ask, ask, ask, jacobianA, any { badContact, badSize } }
  val inv = m.dt > 0
}
