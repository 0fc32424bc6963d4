// C14, C15: the DCM estimators.  A pendulum of divergent component xi with a
// measurement bias b:  xi+ = xi + w dt (xi - z),  b+ = T b,  y = xi + b, where T is
// the change of orientation of the frame the bias is attached to.  The estimator
// is the Kalman filter of that model under the parameters in force when a step is
// computed.  d is the dimension (1: no orientation, no limits).
module lipm {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"

  type Mat = List[List[int]]
  type Datum = { y: List[int], u: List[int] }
  type L = { d: int, set: bool, om: int, dt: int, dr: int, zs: int, ds: int, lim: List[int],
             zp: List[int], ori: Mat, turn: Mat, x: List[int], P: Mat, pend: List[Datum] }
  var m: L
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val UNC = dec(1, 2)                 // documented default uncertainties and deviations
  pure val DRIFT = dec(2, 3)
  pure val ZSTD = dec(5, 3)
  pure val DSTD = dec(1, 2)
  pure val DT = dec(5, 3)
  pure def rot2(c: int, s: int): Mat = List(List(c, -s), List(s, c))
  pure def sqD(v: List[int]): Mat = diagM(v.foldl(List(), (l, e) => l.append(sq(e))))
  pure def blocks(a: Mat, b: Mat, c: Mat, e: Mat): Mat = {
    val d = a.length()
    range(0, 2 * d).foldl(List(), (l, i) => l.append(if (i < d) a[i].concat(b[i]) else c[i - d].concat(e[i - d])))
  }

  // ------------------------------------------------------------------ filter
  pure def stepF(s: L, z: Datum): L = {
    val d = s.d
    val w = mul(s.om, s.dt)
    val A = blocks(scalM(d, ONE + w), zeroM(d, d), zeroM(d, d), s.turn)
    val q = List(sq(mul(w, s.zs)), sq(mul(s.dr, s.dt)))
    val Q = diagM(range(0, 2 * d).foldl(List(), (l, i) => l.append(if (i < d) q[0] else q[1])))
    val C = range(0, d).foldl(List(), (l, i) => l.append(idM(d)[i].concat(idM(d)[i])))
    val xp = vsub(mv(A, s.x), vscale(w, z.u).concat(zeroV(d)))
    val Pp = madd(mmt(mm(A, s.P), A), Q)
    val PC = mmt(Pp, C)
    val K = transpM(solveM(madd(mm(C, PC), scalM(d, sq(s.ds))), transpM(PC)))
    s.with("x", vadd(xp, mv(K, vsub(z.y, mv(C, xp))))).with("P", symM(msub(Pp, mm(K, mm(C, Pp)))))
  }
  pure def clampTo(v: int, l: int): int = if (l <= 0) v else imax(-l, imin(l, v))
  pure def limited(s: L): L = {
    val d = s.d
    val b = mtv(s.ori, seg(s.x, d, d))
    val c = range(0, d).foldl(List(), (l, i) => l.append(clampTo(b[i], s.lim[i])))
    val e = mv(s.ori, vsub(b, c))          // what the limits take away from the bias goes to the DCM
    s.with("x", vadd(seg(s.x, 0, d), e).concat(vsub(seg(s.x, d, d), e)))
  }
  pure def updated(s: L): L = limited(s.pend.foldl(s, (a, z) => stepF(a, z)).with("pend", List()))
  pure def resetTo(s: L, y: List[int], z: List[int], o: Mat, biased: bool, b: List[int], ub: List[int]): L = {
    val d = s.d
    val B = sqD(ub)
    val R = scalM(d, sq(s.ds))
    s.with("set", true).with("zp", z).with("ori", o).with("pend", List())
     .with("x", (if (biased) vsub(y, b) else y).concat(b))
     .with("P", if (biased) blocks(madd(B, R), mneg(B), mneg(B), B) else blocks(R, zeroM(d, d), zeroM(d, d), B))
  }
  pure def pushed(s: L, y: List[int], z: List[int], o: Mat): L =
    if (not(s.set)) resetTo(s, y, z, o, true, zeroV(s.d), constV(s.d, UNC))
    else {
      // in the plane a datum brings its own change of orientation: the pending one is filtered first
      val a = if (s.d == 2 and s.pend.length() > 0) updated(s) else s
      a.with("pend", a.pend.append({ y: y, u: a.zp })).with("zp", z)
       .with("turn", if (s.d == 2) mmt(o, a.ori) else idM(1)).with("ori", o)
    }

  pure def look(s: L): Obs = if (not(s.set)) okObs(List(0), List()) else
    okObs(List(1), s.x.concat(if (s.d == 2) mtv(s.ori, seg(s.x, 2, 2)) else List()).concat(flat(s.P)).concat(if (s.d == 2) List(s.om) else List()))
  pure val NEWDATA: L = { d: 1, set: false, om: ONE, dt: DT, dr: 0, zs: 0, ds: ONE, lim: List(0, 0), zp: List(0), ori: idM(1), turn: idM(1),
                          x: List(0, 0), P: idM(2), pend: List() }
  action goTo(o: str, ii: List[int], rr: List[int], s: L): bool = all {
    ev' = event(o, List(m.d).concat(ii), rr), obs' = look(s), m' = s, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all {
    ev' = event(o, List(m.d).concat(ii), rr), obs' = REJ, m' = m, dead' = true }
  action init = all { ev' = NOEV, obs' = ANY, m' = NEWDATA, dead' = true }

  // parameters
  pure def pstd(s: int, i: int): int = ofDy(1 + rnd(s, i) % 500, 8)
  pure def pdt(s: int, i: int): int = ofDy(1 + rnd(s, i) % 60, 9)
  pure def pom(s: int, i: int): int = ofDy(4 + rnd(s, i) % 40, 3)
  pure def plim(s: int, i: int): int = { val h = rnd(s, i)  if (h % 3 == 0) 0 else ofDy(1 + (h / 3) % 64, 6) }

  pure def make(d: int, r: List[int]): L = {
    // r: dt om drift dstd zstd lim(d) zmp(d) dcm(d) bias(d) udcm(d) ubias(d)
    val l = seg(r, 5, d)
    { d: d, set: true, dt: r[0], om: r[1], dr: r[2], ds: r[3], zs: r[4], lim: l, zp: seg(r, 5 + d, d),
      ori: idM(d), turn: idM(d), x: seg(r, 5 + 2 * d, 2 * d),
      P: sqD(seg(r, 5 + 4 * d, 2 * d)), pend: List() }
  }
  action make1 = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(3))
    val full = List(pdt(s, 1), pom(s, 2), pstd(s, 3), pstd(s, 4), pstd(s, 5), 0).concat(rvec(s, 6, 3)).concat(List(pstd(s, 7), pstd(s, 8)))
    val r = if (c > 0) full else List(pdt(s, 1), pom(s, 2), DRIFT, DSTD, ZSTD, 0, 0, 0, 0, UNC, UNC)
    val a = make(1, r)
    all { ev' = event("new", List(1, c), r), obs' = look(a), m' = a, dead' = false }
  }
  action make2 = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(3))
    val full = List(pdt(s, 1), pom(s, 2), pstd(s, 3), pstd(s, 4), pstd(s, 5), plim(s, 12), plim(s, 13)).concat(rvec(s, 6, 6))
      .concat(List(pstd(s, 7), pstd(s, 8), pstd(s, 9), pstd(s, 10)))
    val r = if (c > 0) full else List(pdt(s, 1), pom(s, 2), DRIFT, DSTD, ZSTD, 0, 0, 0, 0, 0, 0, 0, 0, UNC, UNC, UNC, UNC)
    val a = make(2, r)
    all { ev' = event("new", List(2, c), r), obs' = look(a), m' = a, dead' = false }
  }

  // ---------------------------------------------------------------- 3D orientation
  // the turn, about the vertical, of the horizontal vector that stays horizontal
  pure def turnOf(r: Mat): Mat = {
    val h = norm(List(r[2][0], r[2][1]))
    val v = if (h < dec(1, 12)) List(ONE, 0, 0) else List(r[2][1], -r[2][0], 0)
    val w = mv(r, v)
    val u = vnormalize(List(dot(v, w), mul(v[0], w[1]) - mul(v[1], w[0])))
    rot2(u[0], u[1])
  }
  pure def sane(r: Mat): bool = { val h = norm(List(r[2][0], r[2][1]))  h < dec(1, 20) or h > dec(1, 4) }

  action inputs = {
    nondet s = oneOf(0.to(SEEDS))
    nondet how = oneOf(0.to(4))
    val d = m.d
    val yz = rvec(s, 1, 2 * d)
    val a = rangle(s, 2)
    val r3 = qmat(if (how == 3) axisQ(2, a) else rquat(s, 3))
    val o = if (d == 1) idM(1) else if (how == 0) idM(2) else if (how < 3) rot2(cosF(a), sinF(a)) else turnOf(r3)
    all { d == 1 or how < 3 or sane(r3),
      d == 2 or m.set,
      goTo("inputs", List(how), yz.concat(if (d == 1 or how == 0) List() else if (how == 1) flat(o) else if (how == 2) List(a) else flat(r3)),
        pushed(m, seg(yz, 0, d), seg(yz, d, d), o)) }
  }
  action update = if (m.set) goTo("update", List(), List(), updated(m)) else refuse("update", List(), List())
  // a run of synchronous steps, the orientation turning at a constant rate
  action cycles = {
    nondet s = oneOf(0.to(SEEDS))
    nondet n = oneOf(1.to(6))
    val d = m.d
    val a = rangle(s, 2)
    val ds = range(0, n).foldl(List(), (l, k) => l.append(rvec(s, 100 + k, 2 * d)))
    val end = range(0, n).foldl(m, (q, k) => updated(pushed(q, seg(ds[k], 0, d), seg(ds[k], d, d),
      if (d == 1) idM(1) else rot2(cosF((k + 1) * a), sinF((k + 1) * a)))))
    all { m.set, goTo("cycles", List(n), List(a).concat(flat(ds)), end) }
  }
  action reset = {
    nondet s = oneOf(0.to(SEEDS))
    nondet how = oneOf(1.to(4))
    nondet biased = oneOf(Set(true, false))
    nondet args = oneOf(0.to(2)) // 0: only what has no default
    val d = m.d
    val yz = rvec(s, 1, 2 * d)
    val a = rangle(s, 2)
    val r3 = qmat(if (how == 3) axisQ(2, a) else rquat(s, 3))
    val o = if (d == 1) idM(1) else if (how < 3) rot2(cosF(a), sinF(a)) else turnOf(r3)
    val oa = if (d == 1) List() else if (how == 1) flat(o) else if (how == 2) List(a) else flat(r3)
    val b = if (args > 0) rvec(s, 4, d) else zeroV(d)
    val ub = if (args > 0) range(0, d).foldl(List(), (l, k) => l.append(pstd(s, 50 + k))) else constV(d, UNC)
    // in one dimension the deviations are arguments of the reset
    val p = if (args > 0) List(pstd(s, 61), pstd(s, 62), pstd(s, 63)) else List(DRIFT, DSTD, ZSTD)
    val m1 = if (d == 1) m.with("dr", p[0]).with("ds", p[1]).with("zs", p[2]) else m
    all { d == 1 or how < 3 or sane(r3),
      goTo("reset", List(how, b2i(biased), args), yz.concat(oa).concat(b).concat(ub).concat(if (d == 1) p else List()),
        resetTo(m1, seg(yz, 0, d), seg(yz, d, d), o, biased or args == 0, b, ub)) }
  }
  action setParam = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(4))
    val v = if (w == 0) pom(s, 1) else if (w == 1) pdt(s, 1) else pstd(s, 1)
    goTo("param", List(w), List(v), if (w == 0) m.with("om", v) else if (w == 1) m.with("dt", v) else if (w == 2) m.with("dr", v)
      else if (w == 3) m.with("zs", v) else m.with("ds", v))
  }
  action setLimit = {
    nondet s = oneOf(0.to(SEEDS))
    all { m.d == 2, goTo("limit", List(), List(plim(s, 1), plim(s, 2)), m.with("lim", List(plim(s, 1), plim(s, 2)))) }
  }
  // part: 0 the DCM, 1 the bias; with its uncertainty, no longer correlated with the other part
  action setPart = {
    nondet s = oneOf(0.to(SEEDS))
    nondet part = oneOf(Set(0, 1))
    nondet unc = oneOf(Set(0, 1))
    val d = m.d
    val v = rvec(s, 1, d)
    val u = range(0, d).foldl(List(), (l, k) => l.append(pstd(s, 50 + k)))
    val P0 = setBlock(setBlock(setBlock(m.P, 0, d, zeroM(d, d)), d, 0, zeroM(d, d)), part * d, part * d, sqD(u))
    val e = v.concat(if (unc == 1) u else List())
    if (m.set) goTo("part", List(part, unc), e, m.with("x", setSeg(m.x, part * d, v)).with("P", if (unc == 1) P0 else m.P))
    else refuse("part", List(part, unc), e)
  }
  action unset = all { m.d == 2, goTo("unset", List(), List(), m.with("set", false).with("pend", List())) }
  // the estimator is a value
  action copied = {
    nondet how = oneOf(Set(0, 1))
    goTo("copy", List(how), List(), m)
  }
  action ops = any { inputs, inputs, inputs, update, update, update, cycles, setParam, setParam, setLimit, setPart, reset, copied }
  action rare = any { unset, setPart, update, reset }
  action step1 = if (dead) make1 else any { ops, ops, ops, ops, ops, ops, ops, ops, ops, rare }
  action step2 = if (dead) make2 else any { ops, ops, ops, ops, ops, ops, ops, ops, ops, rare }

  // covariances stay positive; limits hold after an update
  pure def within(s: L): bool = s.d == 1 or {
    val b = mtv(s.ori, seg(s.x, 2, 2))
    range(0, 2).foldl(true, (t, i) => t and (s.lim[i] <= 0 or iabs(b[i]) <= s.lim[i] + 1000000)) }
  val inv = all {
    m.set implies isSym(m.P),
    m.set implies isPosDef(m.P, 0),
    (ev.op == "update" and obs.tag == "ok") implies within(m),
    (ev.op == "update" and obs.tag == "ok") implies m.pend == List()
  }
}
