// C19 (model): the functor of the elastic flexibility under arbitrary sequences of settings and evaluations.
module flexsys {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"
  import motion.* from "./motion"
  import elastic.* from "./elastic"

  type S = { e: E, pn: List[int], mn: List[int] } // noises: bias, empty = none
  var m: S
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure def look(s: S): Obs = okObs(List(35, uSize(s.e), ySize(s.e), s.e.nc, b2i(s.e.wf), b2i(s.e.wb), b2i(s.e.wa), b2i(s.pn != List()), b2i(s.mn != List())),
    List(s.e.mass).concat(flat(s.e.kfe)).concat(flat(s.e.kfv)).concat(flat(s.e.kte)).concat(flat(s.e.ktv)))
  action goTo(o: str, ii: List[int], rr: List[int], s: S): bool = all { ev' = event(o, ii, rr), obs' = look(s), m' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], ob: Obs): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = m, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }
  action nothing = all { false, say("nothing", List(), List(), ANY) }
  action init = all { ev' = NOEV, obs' = ANY, m' = { e: E0, pn: List(), mn: List() }, dead' = true }
  pure def rdt(s: int): int = ofDy(1 + rnd(s, 77) % 64, 7)
  pure def rk(s: int, i: int): Mat = { val c = rint(s, 60 + i, 0, 2)  if (c == 0) diagM(range(0, 3).foldl(List(), (l, j) => l.append(rpos(s, 61 + 3 * i + j)))) else rmat(s, 60 + i, 3, 3) }
  action create = {
    nondet s = oneOf(0.to(SEEDS))
    val md = imin(2, rint(s, 5, 0, 8))
    val model = if (md == 2) 1 else if (md == 1) 2 else 0
    val e = E0.with("dt", rdt(s)).with("model", model).with("pe", List(runit(s, 1), runit(s, 2), ofInt(10)))
    goTo("new", List(model), List(e.dt).concat(e.pe), { e: e, pn: List(), mn: List() })
  }
  action period = {
    nondet s = oneOf(0.to(SEEDS))
    goTo("dt", List(), List(rdt(s)), m.with("e", m.e.with("dt", rdt(s))))
  }
  action mass = {
    nondet s = oneOf(0.to(SEEDS))
    goTo("mass", List(), List(rpos(s, 1)), m.with("e", m.e.with("mass", rpos(s, 1))))
  }
  pure def withK(e: E, w: int, k: Mat): E = if (w == 0) e.with("kfe", k) else if (w == 1) e.with("kfv", k) else if (w == 2) e.with("kte", k) else if (w == 3) e.with("ktv", k)
    else if (w == 4) e.with("rfe", k) else if (w == 5) e.with("rfv", k) else if (w == 6) e.with("rte", k) else e.with("rtv", k)
  action stiffness = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(7))
    goTo("stiffness", List(w), flat(rk(s, w)), m.with("e", withK(m.e, w, rk(s, w))))
  }
  action contacts = {
    nondet n = oneOf(0.to(2))
    goTo("contacts", List(n), List(), m.with("e", m.e.with("nc", n)).with("mn", List()))
  }
  action model = {
    nondet n = oneOf(0.to(5))
    val k = if (n == 0) 0 else if (n == 1) 2 else 1
    goTo("model", List(k), List(), m.with("e", m.e.with("model", k)))
  }
  pure def withFlag(e: E, w: int, b: bool): E = if (w == 0) e.with("wf", b) else if (w == 1) e.with("wb", b) else if (w == 2) e.with("wa", b) else e.with("wu", b)
  action flag = {
    nondet w = oneOf(0.to(3))
    nondet b = oneOf(Set(true, false))
    goTo("flag", List(w, b2i(b)), List(), m.with("e", withFlag(m.e, w, b)).with("mn", List()))
  }
  // noises of zero deviation: the bias; orientations are left alone
  action processNoise = {
    nondet s = oneOf(0.to(SEEDS))
    nondet on = oneOf(Set(true, false))
    val b = setSeg(rvec(s, 1, 35), 3, zeroV(3))
    if (on) goTo("processNoise", List(1), b, m.with("pn", b)) else goTo("processNoise", List(0), List(), m.with("pn", List()))
  }
  action measureNoise = {
    nondet s = oneOf(0.to(SEEDS))
    nondet on = oneOf(Set(true, false))
    val n = ySize(m.e)
    val b = if (m.e.wa) setSeg(rvec(s, 1, n), n - 3, zeroV(3)) else rvec(s, 1, n)
    if (on) goTo("measureNoise", List(1), b, m.with("mn", b)) else goTo("measureNoise", List(0), List(), m.with("mn", List()))
  }
  // ------------------------------------------------------------------ evaluations
  // few distinct orientations, so that successive evaluations share some of them
  pure def rx(s: int): List[int] = rvec(s, 1, 3).concat(rrotvec(rint(s, 3, 0, 5), 2)).concat(rvec(s, 4, 29))
  // the inertia about the origin of a body with that mass and centre of mass
  pure def ru(e: E, s: int, x: List[int]): List[int] = {
    val u = rvec(s, 10, uSize(e))
    val c = comOf(e, x, u)
    val S = skew(c)
    // (with a bias of the centre of mass, also for its neighbours)
    val J = msub(if (e.wb) madd(rspd(s, 11, 3), scalM(3, mul(e.mass, ONE + norm(c) / 16))) else rspd(s, 11, 3), mscale(e.mass, mm(S, S)))
    val v = setSeg(setSeg(u, 9, List(J[0][0], J[1][1], J[2][2], J[0][1], J[0][2], J[1][2])), 30, rrotvec(rint(s, 12, 0, 5), 3))
    range(0, e.nc).foldl(v, (l, i) => setSeg(l, 51 + 12 * i, rrotvec(rint(s, 13 + i, 0, 5), 4)))
  }
  // position, orientation as a matrix, the rest
  pure def seen(x: List[int]): List[int] = seg(x, 0, 3).concat(flat(qmat(rotOf(x)))).concat(seg(x, 6, x.length() - 6))
  pure def seenY(e: E, y: List[int]): List[int] =
    if (e.wa) seg(y, 0, y.length() - 3).concat(flat(qmat(qexp(vec3(y, y.length() - 3))))) else y
  pure def addV(a: List[int], b: List[int]): List[int] = if (b == List()) a else vadd(a, b)
  pure def turn(x: List[int]): bool = norm(vec3(x, 3)) < dec(313, 2)
  action dynamics = {
    nondet s = oneOf(0.to(SEEDS))
    nondet k = oneOf(0.to(9))
    val x = rx(s)
    val u = ru(m.e, s, x)
    if (m.e.model == 0) refuse("dynamics", List(k), x.concat(u))
    else {
      val y = advance(m.e, x, u)
      if (not(turn(y))) nothing else say("dynamics", List(k), x.concat(u), okObs(List(1), seen(addV(y, m.pn))))
    }
  }
  action measure = {
    nondet s = oneOf(0.to(SEEDS))
    nondet k = oneOf(0.to(9))
    val x = rx(s)
    val u = ru(m.e, s, x)
    say("measure", List(k), x.concat(u), okObs(List(), seenY(m.e, addV(sensed(m.e, x, u), m.mn))))
  }
  // w: 0 accelerations, 1 contact wrenches, 2 momentum rates from the forces, 3 from the motion
  action derived = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(3))
    val x = rx(s)
    val u = ru(m.e, s, x)
    if (w == 1 and m.e.model == 0) nothing
    else say("derived", List(w), x.concat(u), okObs(List(), if (w == 0) accelerations(m.e, x, u) else if (w == 1) seg(elasticWrenches(m.e, x, u, rotOf(x)), 0, 6 * m.e.nc)
      else momentaRate(m.e, x, u)))
  }
  // values that double precision follows
  pure def tame(v: List[int]): bool = vmaxabs(v) < ofInt(100000)
  action runge = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(s)
    val u = ru(m.e, s, x)
    val dt = ofDy(1 + rnd(s, 78) % 32, 9)
    if (m.e.model == 0) nothing else {
      val y = rk4(m.e, x, u, dt)
      if (not(turn(y)) or not(tame(y)) or vmaxabs(accelerations(m.e, x, u)) > ofInt(3000)) nothing else say("runge", List(), x.concat(u).concat(List(dt)), okObs(List(), seen(y)))
    }
  }
  // derivatives of the last evaluations of both maps
  action jacobians = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(s)
    val z = rx(s + 1)
    val u = ru(m.e, s, x)
    val v = ru(m.e, s + 1, z)
    val dx = range(0, 35).foldl(List(), (l, i) => l.append(ofDy(1, rint(s, 900 + i, 6, 10))))
    val r = rvec(s, 30, 35)
    if (m.e.model == 0 or m.pn != List() or m.mn != List()) nothing
    else {
      val y = advance(m.e, x, u)
      val w = sensed(m.e, z, v)
      if (not(tame(y)) or not(tame(w)) or vmaxabs(accelerations(m.e, x, u)) > ofInt(3000) or vmaxabs(accelerations(m.e, z, v)) > ofInt(3000) or norm(vec3(y, 3)) > dec(30, 1) or (m.e.wa and norm(vec3(w, w.length() - 3)) > dec(30, 1))) nothing
      else say("jacobians", List(), x.concat(u).concat(z).concat(v).concat(dx).concat(r),
        okObs(List(35, 35, ySize(m.e), 35), mv(jacA(m.e, x, u, dx), r).concat(mv(jacC(m.e, z, v, dx), r))))
    }
  }
  action badSize = {
    nondet w = oneOf(0.to(1))
    nondet d = oneOf(Set(-1, 1))
    nondet x = oneOf(Set(true, false))
    refuse("badSize", List(w, 35 + (if (x) d else 0), uSize(m.e) + (if (x) 0 else d)), List())
  }
  action set_ = any { period, mass, stiffness, stiffness, stiffness, contacts, contacts, model, flag, flag, flag, processNoise, measureNoise }
  action ask = any { dynamics, dynamics, dynamics, dynamics, measure, measure, measure, measure, derived, derived, derived, runge }
  action step = if (dead) create else any { set_, set_, set_, set_, ask, ask, ask, ask, ask, ask, ask, jacobians, badSize }
  val inv = m.e.dt > 0
}
