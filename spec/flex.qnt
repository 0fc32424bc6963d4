// C19 (estimators): flexibility estimators, kind 0 with fixed contacts, kind 1 with an elastic model.
// The state is that of the filter plus the settings in force; every estimation is the extended
// Kalman step from the data last given, with those settings.
module flex {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"
  import motion.* from "./motion"
  import elastic.* from "./elastic"

  type S = {
    kind: int, e: E, ct: Mat, dx: List[int],
    t: int, x: List[int], last: List[int], P: Mat, Q: Mat,
    R: Mat, nf: int, na: bool,          // measurement covariance; its force blocks, its pose block
    vc: int, fv: Mat, av: int,          // variances of virtual, force and pose measurements
    yn: int, y: List[int],              // pending measurement at t + 1: 0 none, 1 numbers, 2 not a number
    u0: List[int], u1: List[int],       // inputs at t and t + 1, empty = absent
    on: bool, lim: bool, limF: List[int], limT: List[int],
    px: List[int], py: List[int], inn: List[int], A: Mat, C: Mat, ok: bool, cnd: int // conditioning of the last estimation
  }
  var m: S
  var dead: bool
  var ev: Ev
  var obs: Obs

  // ------------------------------------------------------------------ the two models
  pure def n(s: S): int = if (s.kind == 0) 18 else 35
  pure def nu(s: S): int = if (s.kind == 0) 15 else uSize(s.e)
  pure def ny(s: S): int = if (s.kind == 0) 6 + 3 * s.ct.length() else ySize(s.e)
  // what the user gives: the displacements of fixed contacts are known to be zero
  pure def nyGiven(s: S): int = if (s.kind == 0) 6 else ySize(s.e)
  pure def xOf(x: List[int]): X = { p: vec3(x, 0), q: qexp(vec3(x, 3)), v: vec3(x, 6), w: vec3(x, 9), a: vec3(x, 12), b: vec3(x, 15) }
  pure def uOf(u: List[int]): X = { p: vec3(u, 0), q: qexp(vec3(u, 3)), v: vec3(u, 6), w: vec3(u, 9), a: vec3(u, 12), b: zeroV(3) }
  pure def f(s: S, x: List[int], u: List[int]): List[int] =
    if (s.kind == 0) {
      val y = move(s.e.dt, xOf(x))
      y.p.concat(qlog(y.q)).concat(y.v).concat(y.w).concat(y.a).concat(y.b)
    } else advance(s.e, x, u)
  pure def h(s: S, x: List[int], u: List[int]): List[int] =
    if (s.kind == 0) flexReadings(xOf(x), uOf(u)).concat(contactsAt(s.ct, xOf(x))) else sensed(s.e, x, u)
  pure def derF(s: S, u: List[int]): Mat =
    if (s.kind == 1) jacA(s.e, s.x, u, s.dx)
    else {
      val y = f(s, s.x, u)
      transpM(range(0, 18).foldl(List(), (l, j) => {
        val z = f(s, s.x.replaceAt(j, s.x[j] + s.dx[j]), u)
        l.append(range(0, 18).foldl(List(), (c, i) => c.append(div(z[i] - y[i], s.dx[j]))))
      }))
    }
  pure def derH(s: S, x: List[int], u: List[int]): Mat =
    if (s.kind == 1) jacC(s.e, x, u, s.dx)
    else {
      val y = h(s, x, u)
      transpM(range(0, 18).foldl(List(), (l, j) => {
        val z = h(s, x.replaceAt(j, x[j] + s.dx[j]), u)
        l.append(range(0, y.length()).foldl(List(), (c, i) => c.append(div(z[i] - y[i], s.dx[j]))))
      }))
    }

  // ------------------------------------------------------------------ covariances
  pure def defaultQ(s: S): Mat = {
    val c8 = constV(3, dec(1, 8))
    val c4 = constV(3, dec(1, 4))
    val c2 = constV(3, dec(1, 2))
    if (s.kind == 0) diagM(c8.concat(c8).concat(c4).concat(c4).concat(c2).concat(c2))
    else diagM(c8.concat(c8).concat(c8).concat(c8).concat(constV(12, dec(1, 4)))
      .concat(constV(6, if (s.e.wu) dec(1, 2) else 0)).concat(constV(2, if (s.e.wb) dec(25, 11) else 0)).concat(constV(3, if (s.e.wa) dec(1, 8) else 0)))
  }
  pure val RIMU: Mat = scalM(6, dec(1, 6))
  pure def blocksF(s: S): int = if (s.e.wf) s.e.nc else 0
  // the measurement covariance for the measurements now in use: what was there stays, new parts get their variances
  pure def fitR(s: S): S = {
    val k = blocksF(s)
    val keep = 6 + 6 * imin(k, s.nf)
    val base = setBlock(zeroM(ySize(s.e), ySize(s.e)), 0, 0, block(s.R, 0, 0, keep, keep))
    val r1 = range(0, k).foldl(base, (r, i) => if (i < s.nf) r else setBlock(r, 6 + 6 * i, 6 + 6 * i, s.fv))
    val at = 6 + 6 * k
    val was = 6 + 6 * s.nf
    val r2 = if (not(s.e.wa)) r1
      else if (not(s.na)) setBlock(r1, at, at, scalM(6, s.av))
      else setBlock(setBlock(setBlock(r1, at, at, block(s.R, was, was, 6, 6)), at, 0, block(s.R, was, 0, 6, keep)), 0, at, block(s.R, 0, was, keep, 6))
    s.with("R", r2).with("nf", k).with("na", s.e.wa)
  }
  // covariance of all the measurements of the filter
  pure def fullR(s: S): Mat =
    if (s.kind == 1) s.R
    else range(0, ny(s)).foldl(List(), (r, i) => r.append(range(0, ny(s)).foldl(List(), (l, j) => l.append(if (i < 6 and j < 6) s.R[i][j] else if (i == j) s.vc else 0))))
  pure def resetCov(s: S): S =
    if (s.kind == 0) s.with("R", RIMU).with("Q", defaultQ(s)).with("P", scalM(18, dec(1, 2)))
    else { val r = fitR(s.with("R", RIMU).with("nf", 0).with("na", false))  r.with("Q", defaultQ(s)).with("P", defaultQ(s)) }

  // ------------------------------------------------------------------ estimation
  pure def regulate(x: List[int]): List[int] = setSeg(x, 3, qlog(qexp(vec3(x, 3))))
  pure def clamp(v: int, l: int): int = imax(-l, imin(l, v))
  pure def saturate(s: S, x: List[int]): List[int] =
    if (s.kind == 0 or not(s.lim)) x
    else range(0, 35).foldl(List(), (l, i) => l.append(if (i < 12 or i >= 24) x[i] else { val k = (i - 12) % 6  clamp(x[i], if (k < 3) s.limF[k] else s.limT[k - 3]) }))
  pure def canPredict(s: S): bool = s.kind == 0 or (s.u0 != List() and s.e.model != 0)
  pure def canSense(s: S): bool = s.u1 != List()
  pure def predictX(s: S): List[int] = f(s, s.x, s.u0)
  // the data of the past is dropped
  pure def moveOn(s: S): S = s.with("t", s.t + 1).with("u0", s.u1).with("u1", List()).with("yn", 0).with("y", List())
  // how far the covariance of the innovations goes beyond that of the noise
  pure def conditioning(sm: Mat, rm: Mat): int = range(0, sm.length()).foldl(0, (c, i) => imax(c, if (rm[i][i] <= 0) ofInt(1000000000) else div(sm[i][i], rm[i][i])))
  // an inertia that is one of a body, with a margin
  pure def sound(s: S, x: List[int], u: List[int]): bool = if (s.kind == 0) true else {
    val c = comOf(s.e, x, u)
    val K = skew(c)
    val J = sym6(u, 9)
    val M = msub(madd(J, mscale(s.e.mass, mm(K, K))), scalM(3, s.e.mass / 16))
    val d2 = mul(M[0][0], M[1][1]) - mul(M[0][1], M[1][0])
    val d3 = mul(M[2][2], d2) - mul(M[1][2], mul(M[0][0], M[2][1]) - mul(M[0][1], M[2][0])) + mul(M[0][2], mul(M[1][0], M[2][1]) - mul(M[1][1], M[2][0]))
    M[0][0] > 0 and d2 > 0 and d3 > 0
  }
  pure def estimate(s: S): S =
    if (not(s.on)) {
      val z = s.with("x", zeroV(n(s))).with("last", zeroV(n(s)))
      if (s.yn == 0) z else z.with("yn", 0).with("y", List()).with("u0", List()).with("u1", List()).with("P", s.Q)
    }
    else if (s.yn == 0) s
    else if (not(canPredict(s)) or not(canSense(s))) s.with("ok", false)
    else {
      val a = derF(s, s.u0)
      val xb = predictX(s)
      val c = derH(s, xb, s.u1)
      val yb = h(s, xb, s.u1)
      val pb = madd(s.Q, mm(a, mmt(s.P, a)))
      val cp = mm(c, pb)
      val sm = madd(fullR(s), mmt(cp, c))
      val kt = solveM(sm, cp) // transpose of the gain
      val p1 = symM(mm(msub(idM(n(s)), mm(transpM(kt), c)), pb))
      val s1 = moveOn(s).with("cnd", conditioning(sm, fullR(s))).with("P", p1).with("px", xb).with("py", yb).with("A", a).with("C", c)
      if (s.yn == 2) {
        val back = s1.with("x", s.last).with("inn", List())
        val r = if (s.kind == 0) back.with("x", regulate(s.last)).with("last", regulate(s.last)) else back
        if (s.t + 1 > 1) resetCov(r) else r
      } else {
        val inn = mtv(kt, vsub(s.y, yb))
        val x1 = saturate(s, regulate(vadd(xb, inn)))
        s1.with("x", x1).with("last", x1).with("inn", inn)
      }
    }
  // away from the half turn, where rotation vectors jump, and from values that double precision does not follow
  pure def awayFrom(v: List[int]): bool = iabs(norm(v) - PI) > dec(1, 2) and iabs(norm(v) - 3 * PI) > dec(1, 2)
  pure def tame(s: S, r: S): bool =
    s.yn == 0 or not(s.on) or not(r.ok) or (r.cnd < (if (s.kind == 0) ofInt(100000) else ofInt(4000000)) and sound(s, s.x, s.u0) and sound(s, r.px, s.u1) and (s.yn == 2 or sound(s, r.x, s.u1)) and awayFrom(vec3(s.x, 3)) and awayFrom(vec3(r.px, 3)) and (r.inn == List() or (awayFrom(vec3(vadd(r.px, r.inn), 3)) and awayFrom(vec3(r.x, 3)))) and
      vmaxabs(r.px) < ofInt(10000) and vmaxabs(r.py) < ofInt(10000) and vmaxabs(r.x) < ofInt(10000) and
      (s.kind == 0 or not(s.e.wa) or (awayFrom(seg(r.py, r.py.length() - 3, 3)) and norm(seg(r.py, r.py.length() - 3, 3)) < dec(305, 2))))

  // ------------------------------------------------------------------ observations
  pure def lookI(s: S): List[int] = List(s.t, n(s), nu(s), nyGiven(s), ny(s), b2i(s.yn > 0), b2i(s.u0 != List()) + b2i(s.u1 != List()))
  pure def diagRoots(p: Mat): List[int] = range(0, p.length()).foldl(List(), (l, i) => l.append(if (p[i][i] <= 0) ONE else roughRoot(p[i][i])))
  // power of two around the square root
  pure def roughRoot(v: int): int = range(0, 130).foldl(1, (r, i) => if (r * r / ONE < v and r < 2 ^ 120) 2 * r else r)
  pure def scaled(p: Mat, d: List[int]): List[int] =
    range(0, p.length()).foldl(List(), (l, i) => range(0, p.length()).foldl(l, (k, j) => k.append(div(p[i][j], mul(d[i], d[j])))))
  // covariances are compared relatively to the deviations
  pure def covR(p: Mat): List[int] = scaled(p, diagRoots(p))
  pure def seenX(s: S, x: List[int]): List[int] = vec3(x, 0).concat(flat(qmat(qexp(vec3(x, 3))))).concat(seg(x, 6, x.length() - 6))
  pure def seenOri(x: List[int]): List[int] = vec3(x, 3)

  pure def look(s: S): Obs = okObs(lookI(s), s.x)
  action goTo(o: str, ii: List[int], rr: List[int], s: S): bool = all { ev' = event(o, ii, rr), obs' = look(s), m' = s, dead' = false }
  action goSay(o: str, ii: List[int], rr: List[int], s: S, ob: Obs): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], ob: Obs): bool = goSay(o, ii, rr, m, ob)
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }
  action nothing = all { false, say("nothing", List(), List(), ANY) }
  pure val EMPTY: S = { kind: 0, e: E0, ct: List(), dx: List(), t: 0, x: List(), last: List(), P: List(), Q: List(), R: List(), nf: 0, na: false,
    vc: dec(1, 10), fv: scalM(6, dec(1, 4)), av: dec(1, 4), yn: 0, y: List(), u0: List(), u1: List(),
    on: true, lim: true, limF: vscale(mul(dec(98, 1), HRP2), List(ofInt(100), ofInt(100), ofInt(1000))), limT: vscale(mul(dec(98, 1), HRP2), List(ofInt(10), ofInt(10), ofInt(100))),
    px: List(), py: List(), inn: List(), A: List(), C: List(), ok: true, cnd: 0 }
  action init = all { ev' = NOEV, obs' = ANY, m' = EMPTY, dead' = true }
  pure def rdt(s: int): int = ofDy(1 + rnd(s, 77) % 16, 9)
  pure def made(k: int, s: int): S = {
    val z = EMPTY.with("kind", k).with("e", E0.with("dt", rdt(s)))
    val nn = n(z)
    val r = z.with("x", zeroV(nn)).with("last", zeroV(nn)).with("dx", range(0, nn).foldl(List(), (l, i) => l.append(ofDy(1, rint(s, 900 + i, 10, 14)))))
    val q = resetCov(r)
    q.with("P", q.Q)
  }
  action create(k: int): bool = {
    nondet s = oneOf(0.to(SEEDS))
    val z = made(k, s)
    goTo("new", List(k), List(z.e.dt).concat(z.dx), z)
  }
  // ------------------------------------------------------------------ data
  pure def small(s: int, i: int, k: int, e: int): List[int] = range(0, k).foldl(List(), (l, j) => l.append(ofDy(rint(s, 1000 * (i + 1) + j, -64, 64), 6 + e)))
  pure def gu(s: S, d: int): List[int] =
    if (s.kind == 0) small(d, 1, 3, 0).concat(small(d, 2, 12, 0))
    else {
      val u = small(d, 3, nu(s), 1)
      val c = comOf(s.e, s.x, u)
      val K = skew(c)
      val J = msub(madd(rspd(d, 11, 3), scalM(3, mul(s.e.mass, ONE / 4 + norm(c) / 2))), mscale(s.e.mass, mm(K, K)))
      setSeg(u, 9, List(J[0][0], J[1][1], J[2][2], J[0][1], J[0][2], J[1][2]))
    }
  action measureInput = {
    nondet d = oneOf(0.to(SEEDS))
    val u = gu(m, d)
    goTo("measInput", List(), u, m.with("u1", u).with("u0", if (m.u0 == List() and m.u1 == List()) u else m.u0))
  }
  action input = {
    nondet d = oneOf(0.to(SEEDS))
    val u = gu(m, d)
    if (m.u0 == List() and m.u1 != List()) nothing else goTo("input", List(), u, m.with("u0", u))
  }
  // near what the sensors would see
  pure def gy(s: S, d: int): List[int] = {
    val y = if (s.u1 != List() and canPredict(s)) h(s, predictX(s), s.u1) else zeroV(ny(s))
    range(0, nyGiven(s)).foldl(List(), (l, i) => l.append(ofDy(div(y[i], ONE * 1024) / 2^90, 10) + ofDy(rint(d, 70 + i, -40, 40), 8)))
  }
  action measurement = {
    nondet d = oneOf(0.to(SEEDS))
    val y = gy(m, d)
    val bad = rint(d, 3, 0, 14) == 0
    goTo("measure", List(b2i(bad), rint(d, 4, 0, nyGiven(m) - 1)), y,
      m.with("yn", if (bad) 2 else 1).with("y", y.concat(zeroV(ny(m) - nyGiven(m)))))
  }
  action badData = {
    nondet w = oneOf(0.to(2))
    nondet d = oneOf(Set(-1, 1))
    refuse("badData", List(w, if (w == 0) nyGiven(m) + d else nu(m) + d), List())
  }
  // both inputs and a measurement, as in a control loop
  action cycle = {
    nondet d = oneOf(0.to(SEEDS))
    val v = gu(m, d + 1)
    val z = if (m.u0 == List()) m.with("u0", gu(m, d)) else m
    val s = z.with("u1", v)
    val y = gy(s, d)
    if (m.u0 == List() and m.u1 != List()) nothing
    else goTo("cycle", List(b2i(m.u0 == List())), (if (m.u0 == List()) s.u0 else List()).concat(v).concat(y), s.with("yn", 1).with("y", y.concat(zeroV(ny(s) - nyGiven(s)))))
  }
  // ------------------------------------------------------------------ results
  // w: 0 state vector, 1 homogeneous matrix
  action result = {
    nondet w = oneOf(0.to(1))
    nondet d = oneOf(0.to(SEEDS))
    val r = estimate(m)
    if (not(r.ok)) (if (rint(d, 1, 0, 3) == 0) refuse("result", List(w), List()) else nothing)
    else if (not(tame(m, r))) nothing
    else goSay("result", List(w, b2i(r.inn != List() and m.yn == 1)), diagRoots(r.P), r, okObs(lookI(r),
      (if (w == 0) seenX(r, r.last) else flat(qmat(qexp(vec3(r.last, 3)))).concat(vec3(r.last, 0))).concat(r.x)
      .concat(covR(r.P)).concat(if (r.inn != List() and m.yn == 1) r.inn else List())))
  }
  // the same behind other questions.  w: 0 simulated measurement, 1 contact wrenches, 2, 3 momentum rates, 4 accelerations
  action consequence = {
    nondet w = oneOf(0.to(4))
    nondet d = oneOf(0.to(SEEDS))
    val quiet = not(m.on) and (w == 2 or w == 3)
    val r = if (quiet) m else estimate(m)
    val need = if (w == 1) true else quiet or r.u0 != List()
    if (m.kind == 0 and w > 0) nothing
    else if (not(r.ok) or not(need)) (if (rint(d, 1, 0, 5) == 0) refuse("consequence", List(w), List()) else nothing)
    else if (not(tame(m, r)) or (need and r.u0 != List() and not(sound(r, r.x, r.u0)))) nothing
    else goSay("consequence", List(w), List(), r, okObs(lookI(r), r.x.concat(
      if (w == 0) h(r, r.x, r.u0) else if (w == 1) seg(r.x, 12, 6 * r.e.nc)
      else if (quiet) zeroV(6) else if (w == 4) accelerations(r.e, r.x, r.u0) else momentaRate(r.e, r.x, r.u0))))
  }
  // w: 0 predicted state, 1 predicted measurement
  action prediction = {
    nondet w = oneOf(0.to(1))
    nondet d = oneOf(0.to(SEEDS))
    if (not(canPredict(m)) or (w == 1 and not(canSense(m)))) (if (rint(d, 1, 0, 5) == 0) refuse("prediction", List(w), List()) else nothing)
    else {
      val xb = predictX(m)
      val yb = if (w == 1) h(m, xb, m.u1) else List()
      val s = m.with("px", xb).with("py", if (w == 1) yb else m.py)
      if ((m.kind == 1 and not(sound(m, m.x, m.u0) and (w == 0 or sound(m, xb, m.u1)))) or not(awayFrom(vec3(m.x, 3))) or not(awayFrom(vec3(xb, 3))) or vmaxabs(xb) > ofInt(10000)) nothing
      else goSay("prediction", List(w), List(), s, okObs(lookI(s), if (w == 0) xb else yb))
    }
  }
  // w: 0 prediction, 1 predicted measurement of the last step
  action lastPrediction = {
    nondet w = oneOf(0.to(1))
    val v = if (w == 0) m.px else m.py
    if (v == List()) nothing else say("lastPrediction", List(w), List(), okObs(lookI(m), v))
  }
  // w: 0 pending measurement, 1 input, 2 measurement input
  action given = {
    nondet w = oneOf(0.to(2))
    nondet d = oneOf(0.to(SEEDS))
    val v = if (w == 0) (if (m.yn == 2) List() else m.y) else if (w == 1) m.u0 else m.u1
    if (w == 0 and m.yn == 2) nothing
    else if (v == List()) (if (rint(d, 1, 0, 5) == 0) refuse("given", List(w), List()) else nothing)
    else say("given", List(w), List(), okObs(lookI(m), v))
  }
  // w: 0 state covariance, 1 process noise, 2 measurement noise, 3 settings
  action settings = {
    nondet w = oneOf(0.to(3))
    val p = if (w == 0) m.P else if (w == 1) m.Q else m.R
    if (w < 3) say("settings", List(w), diagRoots(p), okObs(lookI(m).concat(List(p.length())), covR(p)))
    else if (m.kind == 0) say("settings", List(w), List(), okObs(lookI(m), List(m.vc * 1000000)))
    else say("settings", List(w), List(), okObs(lookI(m).concat(List(m.e.nc, b2i(m.e.wf), b2i(m.e.wa), b2i(m.e.wu), b2i(m.e.wb), b2i(m.lim))),
      List(m.e.mass).concat(flat(m.e.kfe)).concat(flat(m.e.kfv)).concat(flat(m.e.kte)).concat(flat(m.e.ktv)).concat(m.limF).concat(m.limT)))
  }
  // observability of the last step: products with a vector
  action observability = {
    nondet d = oneOf(0.to(SEEDS))
    val r = small(d, 5, 35, 0)
    if (m.kind == 0 or m.C == List()) nothing
    else { val a = mv(m.A, r)  say("observability", List(), r, okObs(lookI(m), mv(m.C, r).concat(mv(m.C, a)).concat(a))) }
  }
  // ------------------------------------------------------------------ settings of both
  pure def sizeOf(s: S, b: S): S = { // a changed number of measurements or inputs drops the pending ones
    val c = if (ny(s) == ny(b)) s else s.with("yn", 0).with("y", List()).with("C", List())
    if (nu(s) == nu(b)) c else c.with("u0", List()).with("u1", List())
  }
  action contacts = {
    nondet k = oneOf(0.to(2))
    val s = if (m.kind == 0) m.with("ct", range(0, k).foldl(List(), (l, i) => l.append(if (i < m.ct.length()) m.ct[i] else zeroV(3))))
      else m.with("e", m.e.with("nc", k))
    val r = sizeOf(s, m)
    goTo("contacts", List(k), List(), if (m.kind == 1) fitR(r) else r)
  }
  action period = {
    nondet d = oneOf(0.to(SEEDS))
    goTo("dt", List(), List(rdt(d)), m.with("e", m.e.with("dt", rdt(d))))
  }
  pure def gx(s: S, d: int): List[int] =
    if (s.kind == 0) setSeg(small(d, 1, 18, 1), 3, if (rint(d, 2, 0, 4) == 0) rrotvec(d, 2) else small(d, 2, 3, 0))
    else setSeg(setSeg(small(d, 1, 35, 1), 6, small(d, 3, 6, 3)), 3, if (rint(d, 2, 0, 5) == 0) rrotvec(d, 2) else small(d, 2, 3, 1))
  // w: 0 state, 1 position and rotation vector, 2 homogeneous matrix
  action guess = {
    nondet d = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(2))
    val x = gx(m, d)
    val v = if (w == 0) x else seg(if (w == 2) regulate(x) else x, 0, 6).concat(zeroV(n(m) - 6))
    if (not(awayFrom(vec3(v, 3)))) nothing
    else goTo("guess", List(w), if (w == 0) x else if (w == 1) seg(v, 0, 6) else {
        val R = qmat(qexp(vec3(v, 3)))
        R[0].append(v[0]).concat(R[1].append(v[1])).concat(R[2].append(v[2])).concat(List(0, 0, 0, ONE))
      }, m.with("x", v).with("last", v))
  }
  // a full-rank covariance of that order of magnitude
  pure def gcov(d: int, i: int, k: int, e: int): Mat = {
    val b = range(0, k).foldl(List(), (l, a) => l.append(range(0, 2).foldl(List(), (r, c) => r.append(ofDy(rint(d, 1000 * (i + 1) + 2 * a + c, -16, 16), 4)))))
    mscale(ofDy(1, e), madd(mmt(b, b), scalM(k, ONE / 4)))
  }
  action setP = {
    nondet d = oneOf(0.to(SEEDS))
    val p = gcov(d, 1, n(m), rint(d, 1, 6, 10))
    goTo("P", List(), flat(p), m.with("P", p))
  }
  action setQ = {
    nondet d = oneOf(0.to(SEEDS))
    val q = gcov(d, 1, n(m), rint(d, 1, 6, 12))
    goTo("Q", List(), flat(q), m.with("Q", q))
  }
  action setR = {
    nondet d = oneOf(0.to(SEEDS))
    val full = rint(d, 1, 0, 2) > 0
    val sz = if (full) nyGiven(m) else imin(nyGiven(m), 6 * rint(d, 2, 1, 3))
    val r = gcov(d, 1, sz, rint(d, 1, 4, 8))
    val k = imin(blocksF(m), sz / 6 - 1)
    goTo("R", List(sz), flat(r), if (m.kind == 0) m.with("R", r) else fitR(m.with("R", r).with("nf", k).with("na", m.e.wa and sz == ySize(m.e))))
  }
  action badR = refuse("badR", List(nyGiven(m) + (if (m.kind == 0) 1 else 3)), List())
  action reset = goTo("resetCov", List(), List(), resetCov(m))
  action setBoth = any { contacts, contacts, period, guess, guess, setP, setQ, setR, setR, reset }
  action ask = any { prediction, lastPrediction, given, settings, consequence, observability }
  action data = any { measureInput, input, measurement }

  // ------------------------------------------------------------------ with fixed contacts
  action contactAt = {
    nondet d = oneOf(0.to(SEEDS))
    val i = rint(d, 1, 0, imax(0, m.ct.length() - 1))
    val c = small(d, 2, 3, 0)
    if (m.ct == List()) nothing else goTo("contactAt", List(i), c, m.with("ct", m.ct.replaceAt(i, c)))
  }
  action badContact = refuse("contactAt", List(m.ct.length()), zeroV(3))
  action virtualCov = {
    nondet d = oneOf(0.to(SEEDS))
    goTo("virtualCov", List(), List(ofDy(rint(d, 1, 1, 255), 14)), m.with("vc", ofDy(rint(d, 1, 1, 255), 14)))
  }
  action setFixed = any { contactAt, contactAt, contactAt, virtualCov, setBoth, setBoth, setBoth }
  action stepFixed = if (dead) create(0) else any { cycle, cycle, cycle, cycle, cycle, result, result, result, result, result, result, result, setFixed, setFixed, setFixed, ask, ask, data, data, anyBad }
  action anyBad = any { badData, badR, if (m.kind == 0) badContact else badData, nothing, nothing, nothing, nothing, nothing }

  // ------------------------------------------------------------------ with an elastic model
  action model = {
    nondet k = oneOf(0.to(5))
    goTo("model", List(if (k == 0) 2 else 1), List(), m.with("e", m.e.with("model", if (k == 0) 2 else 1)))
  }
  pure def rk(s: int, i: int): Mat = { val c = rint(s, 60 + i, 0, 2)  if (c == 0) diagM(range(0, 3).foldl(List(), (l, j) => l.append(rpos(s, 61 + 3 * i + j)))) else madd(rspd(s, 60 + i, 3), scalM(3, ofInt(rint(s, 61, 1, 60)))) }
  pure def withK(e: E, w: int, k: Mat): E = if (w == 0) e.with("kfe", k) else if (w == 1) e.with("kfv", k) else if (w == 2) e.with("kte", k) else if (w == 3) e.with("ktv", k)
    else if (w == 4) e.with("rfe", k) else if (w == 5) e.with("rfv", k) else if (w == 6) e.with("rte", k) else e.with("rtv", k)
  action stiffness = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(7))
    goTo("stiffness", List(w), flat(rk(s, w)), m.with("e", withK(m.e, w, rk(s, w))))
  }
  action mass = {
    nondet s = oneOf(0.to(SEEDS))
    val v = ofDy(rint(s, 1, 16, 512), 4)
    goTo("mass", List(), List(v), m.with("e", m.e.with("mass", v)))
  }
  action hook = {
    nondet s = oneOf(0.to(SEEDS))
    val p = List(runit(s, 1), runit(s, 2), ofInt(4))
    goTo("pe", List(), p, m.with("e", m.e.with("pe", p)))
  }
  // w: 0 force measurements, 1 bias of the centre of mass, 2 absolute pose, 3 unmodelled wrench
  pure def withFlag(s: S, w: int, b: bool): S = {
    val e = s.e
    val r = s.with("e", if (w == 0) e.with("wf", b) else if (w == 1) e.with("wb", b) else if (w == 2) e.with("wa", b) else e.with("wu", b))
    fitR(sizeOf(r, s))
  }
  action flag = {
    nondet w = oneOf(0.to(3))
    nondet b = oneOf(Set(true, false))
    goTo("flag", List(w, b2i(b)), List(), withFlag(m, w, b))
  }
  pure def forceBlocks(s: S): S = s.with("R", range(0, blocksF(s)).foldl(s.R, (r, i) => {
    val k = 6 + 6 * i
    val z = range(0, r.length()).foldl(List(), (l, a) => l.append(range(0, r.length()).foldl(List(), (c, b) => {
      val ra = a >= k and a < k + 6
      val rb = b >= k and b < k + 6
      c.append(if (ra and rb) s.fv[a - k][b - k] else if (ra or rb) 0 else r[a][b])
    })))
    z
  }))
  pure def poseBlock(s: S): S = if (not(s.e.wa)) s else s.with("R", {
    val k = ySize(s.e) - 6
    range(0, k + 6).foldl(List(), (l, a) => l.append(range(0, k + 6).foldl(List(), (c, b) => c.append(if (a >= k or b >= k) (if (a == b) s.av else 0) else s.R[a][b]))))
  })
  action forceVariance = {
    nondet d = oneOf(0.to(SEEDS))
    val v = ofDy(rint(d, 1, 1, 255), 12)
    val g = gcov(d, 1, 3, 6)
    if (rint(d, 2, 0, 1) == 0) goTo("forceVariance", List(0), List(v), forceBlocks(m.with("fv", scalM(6, v))))
    else goTo("forceVariance", List(1), flat(g), forceBlocks(m.with("fv", setBlock(setBlock(zeroM(6, 6), 0, 0, g), 3, 3, g))))
  }
  action poseVariance = {
    nondet d = oneOf(0.to(SEEDS))
    val v = ofDy(rint(d, 1, 1, 255), 12)
    goTo("poseVariance", List(), List(v), poseBlock(m.with("av", v)))
  }
  pure def setDiag(p: Mat, v: int): Mat = range(0, 35).foldl(List(), (l, i) => l.append(if (i >= 24 and i < 30) p[i].replaceAt(i, v) else p[i]))
  action unmodelled = {
    nondet d = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(1))
    val v = if (rint(d, 1, 0, 4) == 0) 0 else ofDy(rint(d, 2, 1, 255), 8)
    val s = if (v > 0) withFlag(m, 3, true) else m
    goTo("unmodelled", List(w), List(v), if (w == 0) s.with("P", setDiag(s.P, v)) else s.with("Q", setDiag(s.Q, v)))
  }
  action limits = {
    nondet d = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(2))
    val v = range(0, 3).foldl(List(), (l, i) => l.append(ofDy(rint(d, 5 + i, 1, 100), rint(d, 4, 2, 6))))
    val b = rint(d, 1, 0, 2) > 0
    if (w == 0) goTo("limits", List(w), v, m.with("limF", v)) else if (w == 1) goTo("limits", List(w), v, m.with("limT", v))
    else goTo("limits", List(w, b2i(b)), List(), m.with("lim", b))
  }
  action switched = {
    nondet b = oneOf(Set(1, 2, 3, 4, 5))
    goTo("on", List(b2i(b > 1)), List(), m.with("on", b > 1))
  }
  action resetP = goTo("resetP", List(), List(), m.with("P", m.Q))
  action biasGuess = {
    nondet d = oneOf(0.to(SEEDS))
    val v = small(d, 1, 2, 2)
    val x = setSeg(m.last, 30, v)
    goTo("biasGuess", List(), v, m.with("last", x).with("x", x))
  }
  action setElastic = any { setBoth, setBoth, setBoth, mass, hook, flag, flag, flag, flag, flag, forceVariance, poseVariance, unmodelled, limits, limits, switched, resetP, biasGuess, model, stiffness, stiffness }
  // a robot on its feet: soft contacts, usable covariances
  action createElastic = {
    nondet s = oneOf(0.to(SEEDS))
    val z = made(1, s)
    val k = rint(s, 8, 0, 2)
    val e = range(0, 8).foldl(z.e, (a, i) => withK(a, i, rk(s, i))).with("model", if (rint(s, 9, 0, 4) == 0) 2 else 1).with("nc", k).with("pe", List(runit(s, 1), runit(s, 2), ofInt(4)))
      .with("wf", rint(s, 10, 0, 1) == 0).with("wb", rint(s, 11, 0, 1) == 0).with("wa", rint(s, 12, 0, 1) == 0).with("wu", rint(s, 13, 0, 1) == 0)
    val r = fitR(z.with("e", e))
    goTo("newElastic", List(1, e.model, k, b2i(e.wf), b2i(e.wb), b2i(e.wa), b2i(e.wu)), List(e.dt).concat(z.dx).concat(flat(e.kfe)).concat(flat(e.kfv)).concat(flat(e.kte)).concat(flat(e.ktv))
      .concat(flat(e.rfe)).concat(flat(e.rfv)).concat(flat(e.rte)).concat(flat(e.rtv)).concat(e.pe), r)
  }
  action stepElastic = if (dead) any { createElastic, createElastic, createElastic, createElastic, create(1) }
    else any { cycle, cycle, cycle, cycle, cycle, result, result, result, result, result, result, result, setElastic, setElastic, setElastic, setElastic, ask, ask, ask, data, data, anyBad }

  val inv = isSym(m.P) and m.t >= 0
}
