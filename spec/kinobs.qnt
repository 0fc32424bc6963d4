// C17, C18: observer of the kinematics and of the contact and external wrenches of a robot.
// step1 (C17): contacts, sensors, covariance blocks, settings.  step2 (C18): the models and the estimation.
module kinobs {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"
  import kine.* from "./kine"

  type Mat = List[List[int]]
  // a contact in the state: rest position, rest orientation, wrench (force, torque)
  type CX = { p: List[int], q: List[int], f: List[int] }
  type X = { k: Kine, b: Mat, u: List[int], c: List[CX] }
  // kine: in the local frame; upd: given in this iteration; stale: given then discarded
  type Ct = { on: bool, kine: Kine, upd: bool, stale: bool, sens: bool, w: List[int], cov: Mat, kp: Mat, kd: Mat, rp: Mat, rd: Mat, hard: bool }
  type Im = { kine: Kine, here: bool, last: int, stale: bool, y: List[int], ca: Mat, cg: Mat }
  type S = {
    dt: int, mass: int, wG: bool, wU: bool, wA: bool, dx: List[int],
    x: X, la: List[int], aa: List[int], P: Mat, Q: Mat, ct: List[Ct], im: List[Im], pose: List[Kine], poseCov: Mat,
    started: bool, k: int, fed: int,
    com: List[int], comd: List[int], comdd: List[int], tCom: int, I: Mat, Id: Mat, tI: int, sg: List[int], sgd: List[int], tS: int, addw: List[int],
    dA: Mat, dG: Mat, dW: Mat, dP: Mat, iK: Mat, iB: Mat, iU: Mat, iC: Mat }
  var m: S
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val G = List(0, 0, dec(98, 1))
  // ------------------------------------------------------------------ layout
  pure def nI(s: S): int = s.im.length()
  pure def nC(s: S): int = s.ct.length()
  pure def oB(i: int): int = 12 + 3 * i
  pure def oU(s: S): int = 12 + 3 * nI(s)
  pure def oC(s: S, i: int): int = oU(s) + 6 + 12 * i
  pure def nt(s: S): int = oC(s, nC(s))
  pure def isOn(s: S, i: int): bool = i >= 0 and i < nC(s) and s.ct[i].on
  pure def onList(s: S): List[int] = range(0, nC(s)).foldl(List(), (l, i) => if (s.ct[i].on) l.append(i) else l)
  pure def firstFree(s: S): int = range(0, nC(s)).foldl(nC(s), (r, i) => if (r == nC(s) and not(s.ct[i].on)) i else r)
  pure def firstImu(s: S): int = range(0, nI(s)).foldl(nI(s), (r, i) => if (r == nI(s) and not(s.started and s.im[i].here)) i else r)
  pure def nImu(s: S): int = if (s.started) s.im.foldl(0, (n, i) => n + b2i(i.here)) else 0
  pure def nSens(s: S): int = if (s.started) s.ct.foldl(0, (n, c) => n + b2i(c.on and c.sens)) else 0
  pure def hasPose(s: S): bool = s.started and s.pose.length() > 0
  pure def measSize(s: S): int = 6 * nImu(s) + 6 * nSens(s) + 7 * b2i(hasPose(s))
  pure def ready(s: S): bool = s.ct.foldl(true, (r, c) => r and (not(c.on) or c.upd))
  // every contact has kinematics, given at some time
  pure def known(s: S): bool = s.ct.foldl(true, (r, c) => r and (not(c.on) or has(c.kine.pos)))

  pure def setBlk(a: Mat, b: Mat, k: int): Mat = {
    val n = b.length()
    range(0, a.length()).foldl(List(), (r_i, i) => {
      val inI = i >= k and i < k + n
      val row = a[i]
      r_i.append(range(0, a.length()).foldl(List(), (l_j, j) => {
        val inJ = j >= k and j < k + n
        l_j.append(if (inI and inJ) b[i - k][j - k] else if (inI or inJ) 0 else row[j])
      }))
    })
  }
  pure def diag2(n: int, a: int, b: int): Mat = diagM(constV(n, a).concat(constV(n, b)))

  // ------------------------------------------------------------------ manifold
  pure def plus(s: S, x: X, t: List[int]): X = {
    val u = oU(s)
    {
      k: { pos: vadd(x.k.pos, seg(t, 0, 3)), ori: qmul(qexp(seg(t, 3, 3)), x.k.ori), lv: vadd(x.k.lv, seg(t, 6, 3)), av: vadd(x.k.av, seg(t, 9, 3)), la: List(), aa: List() },
      b: if (s.wG) range(0, nI(s)).foldl(List(), (l, i) => l.append(vadd(x.b[i], seg(t, oB(i), 3)))) else x.b,
      u: if (s.wU) vadd(x.u, seg(t, u, 6)) else x.u,
      c: range(0, nC(s)).foldl(List(), (l, i) => {
        val c = x.c[i]
        val o = oC(s, i)
        l.append(if (s.ct[i].on) { p: vadd(c.p, seg(t, o, 3)), q: qmul(qexp(seg(t, o + 3, 3)), c.q), f: vadd(c.f, seg(t, o + 6, 6)) } else c)
      }) }
  }
  pure def qdiff(a: List[int], b: List[int]): List[int] = qlog(qmul(a, qconj(b)))
  pure def minus(s: S, x: X, y: X): List[int] =
    vsub(x.k.pos, y.k.pos).concat(qdiff(x.k.ori, y.k.ori)).concat(vsub(x.k.lv, y.k.lv)).concat(vsub(x.k.av, y.k.av))
      .concat(range(0, nI(s)).foldl(List(), (l, i) => l.concat(if (s.wG) vsub(x.b[i], y.b[i]) else zeroV(3))))
      .concat(if (s.wU) vsub(x.u, y.u) else zeroV(6))
      .concat(range(0, nC(s)).foldl(List(), (l, i) => l.concat(
        if (s.ct[i].on) vsub(x.c[i].p, y.c[i].p).concat(qdiff(x.c[i].q, y.c[i].q)).concat(vsub(x.c[i].f, y.c[i].f)) else zeroV(12))))
  // the tangent directions that change the state
  pure def live(s: S, j: int): bool =
    if (j < 12) true else if (j < oU(s)) s.wG else if (j < oU(s) + 6) s.wU else s.ct[(j - oU(s) - 6) / 12].on

  // ------------------------------------------------------------------ models
  // resultant force and moment at the origin of the local frame, in the local frame
  pure def wrench(s: S, x: X): List[int] =
    range(0, nC(s)).foldl(vadd(s.addw, x.u), (w, i) => {
      if (s.ct[i].on) {
        val r = qmat(s.ct[i].kine.ori)
        val f = mv(r, seg(x.c[i].f, 0, 3))
        vadd(w, f.concat(vadd(mv(r, seg(x.c[i].f, 3, 3)), crossV(s.ct[i].kine.pos, f))))
      } else w
    })
  // Newton-Euler equations of a body with moving mass
  pure def accelerated(s: S, x: X): Kine = {
    val w = wrench(s, x)
    val f = seg(w, 0, 3)
    val r = qmat(x.k.ori)
    val o = mtv(r, x.k.av)
    // acceleration of the centre of mass in the local frame, but for the angular acceleration
    val rel = vadd(vadd(s.comdd, vmulInt(2, crossV(o, s.comd))), crossV(o, crossV(o, s.com)))
    val sk = skew(s.com)
    val inert = madd(s.I, mscale(s.mass, mm(sk, sk)))
    val moment = vsub(vsub(vsub(vsub(seg(w, 3, 3), mv(s.Id, o)), s.sgd), crossV(o, vadd(mv(s.I, o), s.sg))), crossV(s.com, vsub(f, vscale(s.mass, rel))))
    val al = col(solveM(inert, transpM(List(moment))), 0)
    val a = vsub(vsub(vscale(div(ONE, s.mass), f), rel), crossV(al, s.com))
    x.k.with("la", vsub(mv(r, a), G)).with("aa", mv(r, al))
  }
  // orientation error with respect to the rest orientation, as half the vector part of its quaternion
  pure def contactTurn(g: Kine, c: CX): List[int] = {
    val e = qmul(g.ori, qconj(c.q))
    if (e[3] < 0) vneg(e) else e
  }
  pure def contactWrench(ct: Ct, g: Kine, c: CX): List[int] = {
    val r = qmat(g.ori)
    mtv(r, vsub(mv(ct.kp, vsub(c.p, g.pos)), mv(ct.kd, g.lv)))
      .concat(mtv(r, vneg(vadd(vscale(HALF, mv(ct.rp, seg(contactTurn(g, c), 0, 3))), mv(ct.rd, g.av)))))
  }
  pure def noAcc(k: Kine): Kine = k.with("la", List()).with("aa", List())
  pure def dyn(s: S, x: X): X = {
    val k = noAcc(integrated(accelerated(s, x), s.dt))
    { k: k, b: x.b, u: x.u, c: range(0, nC(s)).foldl(List(), (l, i) => l.append(
      if (s.ct[i].on) x.c[i].with("f", contactWrench(s.ct[i], compose(k, s.ct[i].kine), x.c[i])) else x.c[i])) }
  }
  pure def sense(s: S, x: X): List[int] = {
    val k = accelerated(s, x)
    val a = range(0, nI(s)).foldl(List(), (l, i) => if (not(s.im[i].here)) l else {
      val g = compose(k, s.im[i].kine)
      l.concat(qrotTV(g.ori, vadd(g.la, G))).concat(vadd(qrotTV(g.ori, g.av), if (s.wG) x.b[i] else zeroV(3)))
    })
    val b = range(0, nC(s)).foldl(a, (l, i) => if (s.ct[i].on and s.ct[i].sens) l.concat(x.c[i].f) else l)
    if (hasPose(s)) b.concat(k.pos).concat(k.ori) else b
  }
  pure def measured(s: S): List[int] = {
    val a = range(0, nI(s)).foldl(List(), (l, i) => if (s.started and s.im[i].here) l.concat(s.im[i].y) else l)
    val b = range(0, nC(s)).foldl(a, (l, i) => if (s.started and s.ct[i].on and s.ct[i].sens) l.concat(s.ct[i].w) else l)
    if (hasPose(s)) b.concat(s.pose[0].pos).concat(s.pose[0].ori) else b
  }
  // block-diagonal covariance of the measurement
  pure def measCov(s: S): Mat = {
    val a = range(0, nI(s)).foldl(List(), (l, i) => if (s.im[i].here) l.append(s.im[i].ca).append(s.im[i].cg) else l)
    val b = range(0, nC(s)).foldl(a, (l, i) => if (s.ct[i].on and s.ct[i].sens) l.append(s.ct[i].cov) else l)
    val c = if (hasPose(s)) b.append(s.poseCov) else b
    val n = c.foldl(0, (t, x) => t + x.length())
    c.foldl((List(), 0), (acc, x) => (range(0, x.length()).foldl(acc._1, (l, i) => l.append(zeroV(acc._2).concat(x[i]).concat(zeroV(n - acc._2 - x.length())))), acc._2 + x.length()))._1
  }
  pure def measMinus(s: S, a: List[int], b: List[int]): List[int] = {
    val n = a.length() - 7 * b2i(hasPose(s))
    if (hasPose(s)) vsub(seg(a, 0, n + 3), seg(b, 0, n + 3)).concat(qdiff(seg(a, n + 3, 4), seg(b, n + 3, 4))) else vsub(a, b)
  }
  // one estimation: difference quotients as Jacobians, Kalman recursion on the manifold
  pure def estimate(s: S): { x: X, P: Mat, y: List[int] } = {
    val n = nt(s)
    val xb = dyn(s, s.x)
    val yb = sense(s, xb)
    val mz = measMinus(s, yb, yb).length()
    val At = range(0, n).foldl(List(), (l, j) => l.append(
      if (not(live(s, j))) zeroV(n) else { val d = minus(s, dyn(s, plus(s, s.x, vset(zeroV(n), j, s.dx[j]))), xb)
        range(0, n).foldl(List(), (l_i, i) => l_i.append(div(d[i], s.dx[j]))) }))
    val Ctr = range(0, n).foldl(List(), (l, j) => l.append(
      if (not(live(s, j)) or mz == 0) zeroV(mz) else { val d = measMinus(s, sense(s, plus(s, xb, vset(zeroV(n), j, s.dx[j]))), yb)
        range(0, mz).foldl(List(), (l_i, i) => l_i.append(div(d[i], s.dx[j]))) }))
    val pb = symM(madd(mm(transpM(At), mm(s.P, At)), s.Q))
    if (mz == 0) { x: xb, P: pb, y: yb } else {
      val pc = mm(pb, Ctr)
      val sm = symM(madd(measCov(s), mm(transpM(Ctr), pc)))
      val kt = solveM(sm, transpM(pc))
      val e = mtv(kt, measMinus(s, measured(s), yb))
      { x: plus(s, xb, e), P: symM(msub(pb, mm(pc, kt))), y: yb }
    }
  }

  // ------------------------------------------------------------------ observations
  pure def seenC(s: S, x: X): List[int] = range(0, nC(s)).foldl(List(), (l, i) =>
    if (s.ct[i].on) l.concat(x.c[i].p).concat(flat(qmat(x.c[i].q))).concat(x.c[i].f) else l)
  pure def seenX(s: S, x: X): List[int] = vals(x.k).concat(flat(x.b)).concat(x.u).concat(seenC(s, x))
  pure def reported(s: S): Kine = s.x.k.with("la", s.la).with("aa", s.aa)
  pure def seenY(s: S, y: List[int]): List[int] = {
    val n = y.length()
    if (hasPose(s)) seg(y, 0, n - 4).concat(flat(qmat(seg(y, n - 4, 4)))) else y
  }
  pure def look(s: S): Obs = okObs(List(onList(s).length(), measSize(s), mask(reported(s)), s.k - b2i(s.started)).concat(onList(s)),
    vals(reported(s)).concat(seenX(s, s.x)))
  action goTo(o: str, ii: List[int], rr: List[int], s: S): bool = all { ev' = event(o, ii, rr), obs' = look(s), m' = s, dead' = false }
  action goRet(o: str, ii: List[int], rr: List[int], s: S, ret: int): bool = all {
    ev' = event(o, ii, rr), obs' = { val l = look(s)  okObs(List(ret).concat(l.i), l.r) }, m' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], ob: Obs): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = m, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }

  // ------------------------------------------------------------------ draws
  pure def rk(s: int, i: int, f: int): Kine = {
    pos: if (bit(f, 0)) rvec(s, 10 * i + 1, 3) else List(), ori: if (bit(f, 1)) rquat(s, 10 * i + 2) else List(),
    lv: if (bit(f, 2)) rvec(s, 10 * i + 3, 3) else List(), av: if (bit(f, 3)) rvec(s, 10 * i + 4, 3) else List(),
    la: if (bit(f, 4)) rvec(s, 10 * i + 5, 3) else List(), aa: if (bit(f, 5)) rvec(s, 10 * i + 6, 3) else List() }
  pure def flatC(x: X): List[int] = x.c.foldl(List(), (l, c) => l.concat(c.p).concat(c.q).concat(c.f))
  pure def flatX(x: X): List[int] = flatK(x.k).concat(flat(x.b)).concat(x.u).concat(flatC(x))
  pure def rx(st: S, s: int): X = { k: rk(s, 1, 15), b: range(0, nI(st)).foldl(List(), (l, i) => l.append(rvec(s, 30 + i, 3))), u: rvec(s, 40, 6),
    c: range(0, nC(st)).foldl(List(), (l, i) => l.append({ p: rvec(s, 50 + 3 * i, 3), q: rquat(s, 51 + 3 * i), f: rvec(s, 52 + 3 * i, 6) })) }
  pure def tv(st: S, s: int): List[int] = range(0, nt(st)).foldl(List(), (l, j) => l.append(runit(s, 7000 + j)))
  // a covariance a I + v v' is given as (a, v)
  pure def rcov(s: int, i: int, n: int): List[int] =
    List(ofDy(1 + rnd(s, 900 + i) % 16, 4)).concat(range(0, n).foldl(List(), (l, j) => l.append(ofDy(rnd(s, 5000 + 100 * i + j) % 65 - 32, 6))))
  pure def cov(c: List[int]): Mat = { val v = seg(c, 1, c.length() - 1)  madd(scalM(v.length(), c[0]), outer(v, v)) }
  pure def rdx(st: S, s: int): List[int] = range(0, nt(st)).foldl(List(), (l, j) => l.append(ofDy(1 + rnd(s, j) % 3, 8 + rnd(s, 500 + j) % 5)))
  pure def rgain(s: int, i: int): Mat = mscale(ofInt(4), rspd(s, i, 3))

  // ------------------------------------------------------------------ creation
  pure val CT0: Ct = { on: false, kine: EMPTY, upd: false, stale: false, sens: false, w: List(), cov: List(), kp: List(), kd: List(), rp: List(), rd: List(), hard: false }
  pure val IM0: Im = { kine: EMPTY, here: false, last: 0, stale: false, y: List(), ca: List(), cg: List() }
  pure def E(k: int): int = ONE / 10^k
  pure val BIG: int = ONE * 10^100
  pure val D_A: Mat = scalM(3, E(4))
  pure val D_G: Mat = scalM(3, E(8))
  pure val D_W: Mat = diag2(3, E(8), E(10))
  pure val D_P: Mat = diag2(3, E(4), E(3))
  pure val I_K: Mat = diag2(6, E(4), E(6))
  pure val Q_K: Mat = scalM(12, E(8))
  pure val Q_C: Mat = scalM(12, E(8))
  pure val I_C: Mat = diag2(6, E(8), BIG)
  pure def repl(n: int, d: List[int]): List[int] = range(0, n).foldl(List(), (l, i) => l.concat(d))
  pure def fresh(c: int, i: int): S = {
    dt: E(6), mass: ofInt(50), wG: true, wU: false, wA: false, dx: constV(18 + 3 * i + 12 * c, E(6)),
    x: { k: without6, b: range(0, i).foldl(List(), (l, j) => l.append(zeroV(3))), u: zeroV(6), c: range(0, c).foldl(List(), (l, j) => l.append({ p: zeroV(3), q: QID, f: zeroV(6) })) },
    la: List(), aa: List(),
    P: diagM(constV(6, E(4)).concat(constV(6, E(6))).concat(constV(3 * i, E(10))).concat(constV(6, BIG)).concat(zeroV(12 * c))),
    Q: diagM(constV(12, E(8)).concat(constV(3 * i, E(12))).concat(constV(6, E(8))).concat(zeroV(12 * c))),
    ct: range(0, c).foldl(List(), (l, j) => l.append(CT0)), im: range(0, i).foldl(List(), (l, j) => l.append(IM0)), pose: List(), poseCov: List(),
    started: false, k: 0, fed: 0,
    com: zeroV(3), comd: zeroV(3), comdd: zeroV(3), tCom: 0, I: idM(3), Id: zeroM(3, 3), tI: 0, sg: zeroV(3), sgd: zeroV(3), tS: 0, addw: zeroV(6),
    dA: D_A, dG: D_G, dW: D_W, dP: D_P, iK: I_K, iB: scalM(3, E(10)), iU: scalM(6, BIG), iC: I_C }
  pure val without6: Kine = { pos: zeroV(3), ori: QID, lv: zeroV(3), av: zeroV(3), la: List(), aa: List() }

  action init = all { ev' = NOEV, obs' = ANY, m' = fresh(0, 0), dead' = true }
  // numeric: sampling time, mass and covariances of moderate size are set at once
  action make(numeric: bool): bool = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(if (numeric) 2 else 4))
    nondet i = oneOf(0.to(if (numeric) 2 else 3))
    val a = fresh(c, i)
    val x = rx(a, s)
    val b = a.with("x", x)
    val n = nt(a)
    val p = rcov(s, 1, n)
    val q = rcov(s, 2, n)
    val d = ofDy(1 + rnd(s, 3) % 8, 4)
    val w = ofDy(16 + rnd(s, 4) % 64, 4)
    val dx = rdx(a, s)
    val ca = rcov(s, 3, 3)
    val cg = rcov(s, 4, 3)
    val cw = rcov(s, 5, 6)
    val cp = rcov(s, 6, 6)
    if (numeric) goTo("new", List(c, i, 1), flatX(x).concat(List(d, w)).concat(p).concat(q).concat(ca).concat(cg).concat(cw).concat(cp).concat(dx),
      b.with("dx", dx).with("dt", d).with("mass", w).with("P", cov(p)).with("Q", cov(q)).with("dA", cov(ca)).with("dG", cov(cg)).with("dW", cov(cw)).with("dP", cov(cp)))
    else goTo("new", List(c, i, 0), flatX(x), b)
  }

  // ------------------------------------------------------------------ settings
  action period = {
    nondet s = oneOf(0.to(SEEDS))
    val d = ofDy(1 + rnd(s, 3) % 8, 4)
    goTo("dt", List(), List(d), m.with("dt", d))
  }
  action massOf = {
    nondet s = oneOf(0.to(SEEDS))
    val w = ofDy(16 + rnd(s, 4) % 64, 4)
    goTo("mass", List(), List(w), m.with("mass", w))
  }
  action flags = {
    nondet w = oneOf(0.to(3))
    nondet b = oneOf(Set(true, false))
    goTo("flag", List(w, b2i(b)), List(), if (w == 0) m.with("wU", b) else if (w == 1) m.with("wG", b) else if (w == 2) m.with("wA", b) else m)
  }
  action steps = {
    nondet s = oneOf(0.to(SEEDS))
    val d = rdx(m, s)
    goTo("dx", List(), d, m.with("dx", d))
  }
  action copied = goTo("copy", List(), List(), m)

  // ------------------------------------------------------------------ state
  pure def resetP(s: S): S = {
    val a = setBlk(s.P, s.iK, 0)
    val b = range(0, nI(s)).foldl(a, (p, i) => setBlk(p, s.iB, oB(i)))
    val c = setBlk(b, s.iU, oU(s))
    s.with("P", range(0, nC(s)).foldl(c, (p, i) => if (s.ct[i].on) setBlk(p, s.iC, oC(s, i)) else p))
  }
  action setX = {
    nondet s = oneOf(0.to(SEEDS))
    nondet r = oneOf(Set(true, false))
    val x = rx(m, s)
    val a = m.with("x", x).with("la", List()).with("aa", List())
    goTo("setX", List(b2i(r)), flatX(x), if (r) resetP(a) else a)
  }
  action setKine = {
    nondet s = oneOf(0.to(SEEDS))
    nondet rf = oneOf(Set(true, false))
    nondet rc = oneOf(Set(true, false))
    val f = 15 + 16 * rint(s, 1, 0, 3)
    val k = rk(s, 1, f)
    val c = range(0, nC(m)).foldl(List(), (l, i) => l.append(if (rf and m.ct[i].on) m.x.c[i].with("f", zeroV(6)) else m.x.c[i]))
    val p1 = if (rc) setBlk(m.P, m.iK, 0) else m.P
    val p2 = range(0, nC(m)).foldl(p1, (p, i) => if (rc and rf and m.ct[i].on) setBlk(p, m.iC, oC(m, i)) else p)
    goTo("setKine", List(b2i(rf), b2i(rc), f, rint(s, 2, 0, 1)), flatK(k),
      m.with("x", m.x.with("k", noAcc(k)).with("c", c)).with("la", k.la).with("aa", k.aa).with("P", p2))
  }
  action setKineBad = {
    nondet s = oneOf(0.to(SEEDS))
    nondet b = oneOf(0.to(3))
    refuse("setKine", List(1, 1, 15 - 2^b, 0), flatK(rk(s, 1, 15 - 2^b)))
  }
  action setBias = {
    nondet s = oneOf(0.to(SEEDS))
    nondet r = oneOf(Set(true, false))
    val i = rint(s, 1, 0, imax(0, nI(m) - 1))
    val v = rvec(s, 2, 3)
    val a = m.with("x", m.x.with("b", m.x.b.replaceAt(i, v)))
    all { nI(m) > 0, goTo("setBias", List(i, b2i(r)), v, if (r) a.with("P", setBlk(m.P, m.iB, oB(i))) else a) }
  }
  action setUnm = {
    nondet s = oneOf(0.to(SEEDS))
    nondet r = oneOf(Set(true, false))
    val v = rvec(s, 2, 6)
    val a = m.with("x", m.x.with("u", v))
    goTo("setUnm", List(b2i(r)), v, if (r) a.with("P", setBlk(m.P, m.iU, oU(m))) else a)
  }
  // ------------------------------------------------------------------ covariances
  action setPQ = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(1))
    val c = rcov(s, 1, nt(m))
    goTo("setPQ", List(w), c, if (w == 0) m.with("P", cov(c)) else m.with("Q", cov(c)))
  }
  // what: 0 kinematics, 1 gyrometer bias, 2 unmodelled wrench, 3 contact; w: 0 state, 1 process, 2 default
  pure def blkSize(what: int): int = if (what == 0) 12 else if (what == 1) 3 else if (what == 2) 6 else 12
  pure def blkAt(s: S, what: int, i: int): int = if (what == 0) 0 else if (what == 1) oB(i) else if (what == 2) oU(s) else oC(s, i)
  action setCov = {
    nondet s = oneOf(0.to(SEEDS))
    nondet what = oneOf(0.to(3))
    nondet w = oneOf(0.to(2))
    val on = onList(m)
    val i = if (what == 1) rint(s, 1, 0, imax(0, nI(m) - 1)) else if (what == 3 and on.length() > 0) on[rint(s, 1, 0, on.length() - 1)] else 0
    val c = rcov(s, 1, blkSize(what))
    val n = if (w == 0) m.with("P", setBlk(m.P, cov(c), blkAt(m, what, i))) else if (w == 1) m.with("Q", setBlk(m.Q, cov(c), blkAt(m, what, i)))
      else if (what == 0) m.with("iK", cov(c)) else if (what == 1) m.with("iB", cov(c)) else if (what == 2) m.with("iU", cov(c)) else m.with("iC", cov(c))
    all { what == 1 implies nI(m) > 0, (what == 3 and w < 2) implies on.length() > 0, goTo("setCov", List(what, w, i), c, n) }
  }
  pure def qBlock(what: int): Mat = if (what == 0) Q_K else if (what == 1) scalM(3, E(12)) else if (what == 2) scalM(6, E(8)) else Q_C
  pure def pBlock(s: S, what: int): Mat = if (what == 0) s.iK else if (what == 1) s.iB else if (what == 2) s.iU else s.iC
  // what: 0-3 as above, 4 all contacts, 5 everything
  action resetCov = {
    nondet s = oneOf(0.to(SEEDS))
    nondet what = oneOf(0.to(5))
    nondet w = oneOf(0.to(1))
    val on = onList(m)
    val i = if (what == 1) rint(s, 1, 0, imax(0, nI(m) - 1)) else if (what == 3 and on.length() > 0) on[rint(s, 1, 0, on.length() - 1)] else 0
    val a0 = if (w == 0) m.P else m.Q
    val n =
      if (what < 4) setBlk(a0, if (w == 0) pBlock(m, what) else qBlock(what), blkAt(m, what, i))
      else {
        val b0 = if (what == 4) a0 else
          setBlk(range(0, nI(m)).foldl(setBlk(a0, if (w == 0) m.iK else Q_K, 0), (a, j) => setBlk(a, if (w == 0) m.iB else qBlock(1), oB(j))), if (w == 0) m.iU else qBlock(2), oU(m))
        on.foldl(b0, (a, j) => setBlk(a, if (w == 0) m.iC else Q_C, oC(m, j)))
      }
    all { what == 1 implies nI(m) > 0, what == 3 implies on.length() > 0, goTo("resetCov", List(what, w, i), List(), if (w == 0) m.with("P", n) else m.with("Q", n)) }
  }
  action askCov = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(1))
    val r = tv(m, s)
    say("askCov", List(w), r, okObs(List(), mv(if (w == 0) m.P else m.Q, r)))
  }
  // ------------------------------------------------------------------ sensors
  pure def begin(s: S): S = if (s.started) s else s.with("started", true).with("k", s.k + 1).with("pose", List())
    .with("im", s.im.foldl(List(), (l, i) => l.append(i.with("here", false))))
    .with("ct", s.ct.foldl(List(), (l, c) => l.append(c.with("upd", false).with("sens", false))))
  pure def zeroed(k: Kine, f: int): Kine = { pos: k.pos, ori: k.ori, lv: if (bit(f, 2) and not(has(k.lv))) zeroV(3) else k.lv,
    av: if (bit(f, 3) and not(has(k.av))) zeroV(3) else k.av, la: if (bit(f, 4) and not(has(k.la))) zeroV(3) else k.la, aa: k.aa }
  // new kinematics n for something which had x: empty the first time
  pure def renew(x: Kine, n: Kine, dt: int, f: int): Kine = if (not(has(x.pos))) zeroed(n, f) else upd(x, n, dt, f)
  pure def turnOk(x: Kine, n: Kine): bool = not(has(x.ori)) or not(has(n.ori)) or rvOk(qmul(n.ori, qconj(x.ori)))
  // which quantities are given: all of them when the previous ones were discarded
  pure def given(s: int, full: bool, fst: bool, f: int): int = {
    val c = rint(s, 3000, 0, 3)
    if (full or c == 0) f else if (fst) 3 + (f / 4) * 4 - 4 * rint(s, 3001, 0, 1) - 8 * rint(s, 3002, 0, 1) - (if (f > 15) 16 * rint(s, 3003, 0, 1) else 0)
    else f - rint(s, 3001, 0, 1) - 2 * rint(s, 3002, 0, 1) - 4 * rint(s, 3003, 0, 1) - 8 * rint(s, 3004, 0, 1) - (if (f > 15) 16 * rint(s, 3005, 0, 1) else 0)
  }
  action imu = {
    nondet s = oneOf(0.to(SEEDS))
    nondet auto = oneOf(Set(true, false))
    nondet expl = oneOf(Set(true, false))
    val b = begin(m)
    val free = range(0, nI(m)).foldl(List(), (l, i) => if (b.im[i].here) l else l.append(i))
    val i = if (auto) firstImu(m) else if (free.length() == 0) 0 else free[rint(s, 1, 0, free.length() - 1)]
    if (free.length() == 0) all { false, say("nothing", List(), List(), okObs(List(), List())) }
    else {
      val z = b.im[i]
      val f = given(s, z.stale, not(has(z.kine.pos)), 31)
      val n = rk(s, 2, f)
      val y = rvec(s, 3, 6)
      val ca = rcov(s, 1, 3)
      val cg = rcov(s, 2, 3)
      all { turnOk(z.kine, n),
        goRet("imu", List(if (auto) -1 else i, b2i(expl), f, rint(s, 2, 0, 1)), y.concat(if (expl) ca.concat(cg) else List()).concat(flatK(n)),
        b.with("im", b.im.replaceAt(i, { kine: renew(z.kine, n, mul(m.dt, ofInt(b.k - z.last)), 31), here: true, last: b.k, stale: false, y: y,
          ca: if (expl) cov(ca) else m.dA, cg: if (expl) cov(cg) else m.dG })), i) }
    }
  }
  // too many, unknown number, twice in the same iteration, without pose the first time
  action imuBad = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(3))
    nondet expl = oneOf(0.to(1))
    val b = begin(m)
    val used = range(0, nI(m)).foldl(List(), (l, i) => if (b.im[i].here) l.append(i) else l)
    val c = if (expl == 1) rcov(s, 1, 3).concat(rcov(s, 2, 3)) else List()
    val fst = range(0, nI(m)).foldl(List(), (l, i) => if (has(b.im[i].kine.pos)) l else l.append(i))
    all { w == 1 implies used.length() == nI(m), w == 2 implies used.length() > 0, w == 3 implies fst.length() > 0,
      if (w == 3) refuse("imu", List(fst[0], expl, 30 - rint(s, 9, 0, 1), 0), rvec(s, 3, 6).concat(c).concat(flatK(rk(s, 2, 30 - rint(s, 9, 0, 1)))))
      else refuse("imu", List(if (w == 0) nI(m) + rint(s, 1, 0, 2) else if (w == 1) -1 else used[rint(s, 1, 0, used.length() - 1)], expl, 31, 0),
        rvec(s, 3, 6).concat(c).concat(flatK(rk(s, 2, 31)))) }
  }
  // which: 0 inertial units, 1 wrench, 2 pose, 3 back to the initial ones
  action defaults = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(3))
    val a = rcov(s, 1, 3)
    val g = rcov(s, 2, 3)
    val c = rcov(s, 3, 6)
    if (w == 0) goTo("defaults", List(0), a.concat(g), m.with("dA", cov(a)).with("dG", cov(g)))
    else if (w == 1) goTo("defaults", List(1), c, m.with("dW", cov(c)))
    else if (w == 2) goTo("defaults", List(2), c, m.with("dP", cov(c)))
    else goTo("defaults", List(3), List(), m.with("dA", D_A).with("dG", D_G).with("dW", D_W).with("dP", D_P))
  }
  action poseSensor = {
    nondet s = oneOf(0.to(SEEDS))
    nondet expl = oneOf(Set(true, false))
    val f = 3 + 4 * rint(s, 1, 0, 15)
    val k = rk(s, 2, f)
    val c = rcov(s, 3, 6)
    goTo("pose", List(b2i(expl), f, rint(s, 2, 0, 1)), (if (expl) c else List()).concat(flatK(k)), begin(m).with("pose", List(k)).with("poseCov", if (expl) cov(c) else m.dP))
  }
  action resetInputs = goTo("resetInputs", List(), List(), m.with("pose", List())
    .with("im", m.im.foldl(List(), (l, i) => l.append(if (m.started and i.here) i.with("here", false).with("stale", true).with("last", m.k - 1) else i)))
    .with("ct", m.ct.foldl(List(), (l, c) => l.append(if (m.started and c.upd) c.with("upd", false).with("sens", false).with("stale", true) else c))))

  // ------------------------------------------------------------------ contacts
  action add = adding(false)
  // soft: gains and covariances of moderate size
  action adding(soft: bool): bool = {
    nondet s = oneOf(0.to(SEEDS))
    nondet auto = oneOf(Set(true, false))
    nondet e = oneOf(0.to(2))
    val expl = soft or e > 0
    val off = range(0, nC(m)).foldl(List(), (l, i) => if (m.ct[i].on) l else l.append(i))
    if (off.length() == 0) all { false, say("nothing", List(), List(), okObs(List(), List())) }
    else {
      val i = if (auto) off[0] else off[rint(s, 1, 0, off.length() - 1)]
      val g = if (soft or rint(s, 3, 0, 2) > 0) 15 else rint(s, 4, 0, 15)
      val k = rk(s, 2, 3)
      val p = rcov(s, 1, 12)
      val q = rcov(s, 2, 12)
      val z = CT0.with("on", true).with("kp", if (bit(g, 0)) rgain(s, 21) else scalM(3, ofInt(40000))).with("kd", if (bit(g, 1)) rgain(s, 22) else scalM(3, ofInt(120)))
        .with("rp", if (bit(g, 2)) rgain(s, 23) else scalM(3, ofInt(400))).with("rd", if (bit(g, 3)) rgain(s, 24) else scalM(3, ofInt(12)))
        .with("hard", g != 15 or not(expl))
      val gains = (if (bit(g, 0)) flat(z.kp) else List()).concat(if (bit(g, 1)) flat(z.kd) else List()).concat(if (bit(g, 2)) flat(z.rp) else List()).concat(if (bit(g, 3)) flat(z.rd) else List())
      goRet("add", List(if (auto) -1 else i, b2i(expl), g, rint(s, 5, 0, 1)), flatK(k).concat(if (expl) p.concat(q) else List()).concat(gains),
        m.with("ct", m.ct.replaceAt(i, z)).with("x", m.x.with("c", m.x.c.replaceAt(i, { p: k.pos, q: k.ori, f: zeroV(6) })))
          .with("P", setBlk(m.P, if (expl) cov(p) else m.iC, oC(m, i))).with("Q", setBlk(m.Q, if (expl) cov(q) else Q_C, oC(m, i))), i)
    }
  }
  pure def pick(l: List[int], s: int): int = if (l.length() == 0) 0 else l[rint(s, 1, 0, l.length() - 1)]
  // an active number, a number beyond the limit, no number left, incomplete pose
  action addBad = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(3))
    val on = onList(m)
    all { w == 0 implies on.length() > 0, w == 2 implies on.length() == nC(m), w == 3 implies on.length() < nC(m),
      refuse("add", List(if (w == 0) pick(on, s) else if (w == 1) nC(m) + rint(s, 2, 0, 1) else -1, 0, 0, 0), flatK(rk(s, 2, if (w == 3) 1 + rint(s, 3, 0, 1) else 3)).concat(List())) }
  }
  action remove = {
    nondet s = oneOf(0.to(SEEDS))
    val on = onList(m)
    val i = pick(on, s)
    all { on.length() > 0, goTo("remove", List(i), List(), m.with("ct", m.ct.replaceAt(i, CT0))) }
  }
  action clearAll = goTo("clear", List(), List(), m.with("ct", m.ct.foldl(List(), (l, c) => l.append(CT0))))
  // on an inactive contact: remove, update, covariances, wrench, pose
  action inactive = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(8))
    val off = range(0, nC(m)).foldl(List(nC(m)), (l, i) => if (m.ct[i].on) l else l.append(i))
    refuse("inactive", List(w, pick(off, s)), List())
  }
  action badImuNumber = {
    nondet w = oneOf(0.to(4))
    refuse("badBias", List(w, nI(m)), List())
  }
  // mode: 0 no sensor, 1 sensor, 2 sensor with covariance
  pure def touched(s: S, i: int, mode: int, k: Kine, w: List[int], c: List[int]): S = {
    val b = begin(s)
    val z = b.ct[i]
    b.with("ct", b.ct.replaceAt(i, z.with("kine", noAcc(renew(z.kine, k, s.dt, 15))).with("upd", true).with("stale", false).with("sens", mode > 0)
      .with("w", w).with("cov", if (mode == 2) cov(c) else s.dW)))
  }
  action touch = {
    nondet s = oneOf(0.to(SEEDS))
    nondet mode = oneOf(0.to(2))
    val on = onList(m)
    // preferably one that was not given yet
    val late = on.foldl(List(), (l, j) => if (m.started and m.ct[j].upd) l else l.append(j))
    val i = if (late.length() > 0) pick(late, s) else pick(on, s)
    if (on.length() == 0) all { false, say("nothing", List(), List(), okObs(List(), List())) }
    else {
      val z = m.ct[i]
      val f = given(s, z.stale or (m.started and z.upd), not(has(z.kine.pos)), 15)
      val k = rk(s, 2, f)
      val w = rvec(s, 3, 6)
      val c = rcov(s, 3, 6)
      all { turnOk(z.kine, k),
        goTo("touch", List(i, mode, f, rint(s, 4, 0, 1)), (if (mode > 0) w else List()).concat(if (mode == 2) c else List()).concat(flatK(k)), touched(m, i, mode, k, w, c)) }
    }
  }
  // all the contacts at once, with full kinematics
  action touchAll = {
    nondet s = oneOf(0.to(SEEDS))
    val on = onList(m)
    val modes = range(0, nC(m)).foldl(List(), (l, i) => l.append(rint(s, 60 + i, 0, 2)))
    all { on.length() > 0,
      goTo("touchAll", on.foldl(List(), (l, i) => l.append(modes[i])), on.foldl(List(), (l, i) => l.concat(rvec(s, 20 + i, 6)).concat(rcov(s, 20 + i, 6)).concat(flatK(rk(s, 10 + i, 15)))),
        on.foldl(m, (a, i) => touched(a, i, modes[i], rk(s, 10 + i, 15), rvec(s, 20 + i, 6), rcov(s, 20 + i, 6)))) }
  }
  // ------------------------------------------------------------------ inertial parameters
  pure def fd(a: List[int], b: List[int], dt: int): List[int] = vscale(div(ONE, dt), vsub(b, a))
  action comOf = {
    nondet s = oneOf(0.to(SEEDS))
    nondet n = oneOf(1.to(3))
    val b = begin(m)
    val c = vscale(ofDy(1, 2), ruvec(s, 1, 3))
    val d = ruvec(s, 2, 3)
    val dd = ruvec(s, 3, 3)
    val h = mul(m.dt, ofInt(b.k - m.tCom))
    val late = m.tCom < b.k
    val cd = if (n == 1) (if (late) fd(m.com, c, h) else m.comd) else d
    goTo("com", List(n), c.concat(if (n > 1) d else List()).concat(if (n > 2) dd else List()),
      b.with("com", c).with("comd", cd).with("comdd", if (n == 3) dd else if (late) fd(m.comd, cd, h) else m.comdd).with("tCom", b.k))
  }
  // as a matrix or as a vector (diagonal, then xy, xz, yz)
  pure def sym6(a: Mat): List[int] = List(a[0][0], a[1][1], a[2][2], a[0][1], a[0][2], a[1][2])
  action inertia = {
    nondet s = oneOf(0.to(SEEDS))
    nondet n = oneOf(1.to(2))
    nondet v = oneOf(0.to(1))
    val b = begin(m)
    val i = madd(rspd(s, 1, 3), scalM(3, ofInt(4)))
    val d = cov(rcov(s, 2, 3))
    val h = mul(m.dt, ofInt(b.k - m.tI))
    goTo("inertia", List(n, v), if (v == 1) sym6(i).concat(if (n == 2) sym6(d) else List()) else flat(i).concat(if (n == 2) flat(d) else List()),
      b.with("I", i).with("Id", if (n == 2) d else if (m.tI < b.k) mscale(div(ONE, h), msub(i, m.I)) else m.Id).with("tI", b.k))
  }
  action momentum = {
    nondet s = oneOf(0.to(SEEDS))
    nondet n = oneOf(1.to(2))
    val b = begin(m)
    val c = ruvec(s, 1, 3)
    val d = ruvec(s, 2, 3)
    goTo("momentum", List(n), c.concat(if (n > 1) d else List()), b.with("sg", c).with("tS", b.k)
      .with("sgd", if (n == 2) d else if (m.tS < b.k) fd(m.sg, c, mul(m.dt, ofInt(b.k - m.tS))) else m.sgd))
  }
  action external = {
    nondet s = oneOf(0.to(SEEDS))
    val w = rvec(s, 1, 6)
    goTo("external", List(), w, m.with("addw", w))
  }
  // ------------------------------------------------------------------ questions
  action layout = say("layout", List(), List(), okObs(List(13 + 3 * nI(m) + 6 + 13 * nC(m), 1), List()))
  action askMeas = say("meas", List(), List(), okObs(List(measSize(m)), seenY(m, measured(m))))
  // reported kinematics of a frame given in the local frame
  action kinOf = {
    nondet s = oneOf(0.to(SEEDS))
    val f = 3 + 4 * rint(s, 1, 0, 15)
    val k = rk(s, 2, f)
    val g = compose(reported(m), k)
    say("kinOf", List(f, rint(s, 2, 0, 1)), flatK(k), okObs(List(mask(g)), vals(g)))
  }
  action askSum = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(m, s)
    val t = vmulInt(1 + rint(s, 1, 0, 2), tv(m, s))
    say("sum", List(), flatX(x).concat(t), okObs(List(), seenX(m, plus(m, x, t))))
  }
  action askDiff = {
    nondet s = oneOf(0.to(SEEDS))
    nondet same = oneOf(0.to(2))
    val x = rx(m, s)
    val y = if (same == 0) x else if (same == 1) plus(m, x, vscale(ofDy(1, 6), tv(m, s))) else rx(m, s + 1)
    val ok = rvOk(qmul(x.k.ori, qconj(y.k.ori))) and onList(m).foldl(true, (r, i) => r and rvOk(qmul(x.c[i].q, qconj(y.c[i].q))))
    all { ok, say("difference", List(), flatX(x).concat(flatX(y)), okObs(List(), minus(m, x, y))) }
  }
  // contacts far from half a turn from rest
  pure def calm(s: S, x: X): bool = {
    val k = noAcc(integrated(accelerated(s, x), s.dt))
    range(0, nC(s)).foldl(true, (r, i) => r and (not(s.ct[i].on) or contactTurn(compose(k, s.ct[i].kine), x.c[i])[3] > ofDy(1, 5)))
  }
  action predict = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(m, s)
    all { known(m), calm(m, x), say("predict", List(), flatX(x), okObs(List(), seenX(m, dyn(m, x)))) }
  }
  action accel = {
    val k = accelerated(m, m.x)
    all { known(m), goTo("accel", List(), List(), m.with("la", k.la).with("aa", k.aa)) }
  }
  // ------------------------------------------------------------------ estimation
  action idle = all { not(m.started), goTo("idle", List(), List(), m) }
  action unready = all { m.started, not(ready(m)), refuse("update", List(), List()) }
  pure def closed(s: S): S = s.with("started", false)
  // an update whose result is then replaced: only what it was given is observed
  action advance = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rx(m, s)
    val p = rcov(s, 1, nt(m))
    val q = rcov(s, 2, nt(m))
    val c = measCov(m)
    val r = range(0, c.length()).foldl(List(), (l, j) => l.append(runit(s, 7000 + j)))
    val n = closed(m).with("fed", 0).with("x", x).with("la", List()).with("aa", List()).with("P", cov(p)).with("Q", cov(q))
    val l = look(n)
    all { m.started, ready(m), ev' = event("advance", List(c.length()), flatX(x).concat(p).concat(q).concat(r)),
      obs' = okObs(l.i.append(measSize(m)), l.r.concat(seenY(m, measured(m))).concat(mv(c, r))), m' = n, dead' = false }
  }
  pure def modest(s: S): bool = vmaxabs(flatX(s.x)) < ofInt(40) and vmaxabs(s.comdd) < ofInt(100) and vmaxabs(s.comd) < ofInt(40)
    and vmaxabs(flat(s.Id)) < ofInt(100) and vmaxabs(s.sgd) < ofInt(100) and vmaxabs(flat(s.P)) < ofInt(1000) and vmaxabs(flat(s.Q)) < ofInt(1000)
    and s.ct.foldl(true, (r, c) => r and (not(c.on) or (not(c.hard) and vmaxabs(c.kine.lv) < ofInt(40) and vmaxabs(c.kine.av) < ofInt(20))))
    and s.im.foldl(true, (r, c) => r and (not(c.here) or (vmaxabs(c.kine.lv) < ofInt(40) and vmaxabs(c.kine.av) < ofInt(20) and vmaxabs(c.kine.la) < ofInt(100))))
    // precise sensors make the gain sensitive: covariances of moderate size only
    and s.im.foldl(true, (r, c) => r and (not(c.here) or (c.ca[0][0] > E(2) and c.cg[0][0] > E(2))))
    and s.ct.foldl(true, (r, c) => r and (not(c.on and c.sens) or c.cov[0][0] > E(2))) and (s.pose.length() == 0 or s.poseCov[0][0] > E(2))
  pure def poseOk(s: S): bool = not(hasPose(s)) or qangle(qmul(s.pose[0].ori, qconj(dyn(s, s.x).k.ori))) < dec(30, 1)
  action estim = {
    nondet s = oneOf(0.to(SEEDS))
    val r = tv(m, s)
    // rounding errors are amplified at each estimation: after a few of them the state is given again
    all { m.started, ready(m), m.fed < 2, modest(m), calm(m, m.x), poseOk(m), {
      val e = estimate(m)
      val n0 = closed(m).with("fed", m.fed + 1).with("x", e.x).with("P", e.P).with("la", List()).with("aa", List())
      val k = if (m.wA) accelerated(n0, e.x) else noAcc(e.x.k)
      val n = n0.with("la", k.la).with("aa", k.aa)
      val l = look(n)
      all { ev' = event("estim", List(), r), obs' = okObs(l.i, l.r.concat(seenY(m, e.y)).concat(mv(e.P, r))), m' = n, dead' = false }
    } }
  }
  // ------------------------------------------------------------------ behaviours
  action bad = any { setKineBad, imuBad, addBad, inactive, badImuNumber, unready }
  action setup1 = any { period, massOf, flags, setX, setKine, setBias, setUnm, setPQ, setCov, setCov, resetCov, defaults, external, resetInputs, clearAll, copied }
  action feed = any { imu, imu, poseSensor, touch, touch, touchAll, comOf, inertia, momentum }
  action ask1 = any { askCov, askCov, askMeas, askMeas, layout, kinOf, idle }
  action ask2 = any { askSum, askDiff, predict, accel }
  action step1 = if (dead) make(false) else any { setup1, setup1, setup1, feed, feed, feed, feed, add, add, remove, ask1, ask1, ask1, advance, advance, advance, { nondet z = oneOf(0.to(4)) all { z == 0, bad } } }
  action setup2 = any { period, massOf, flags, flags, setX, setKine, setBias, setUnm, setPQ, setCov, defaults, external, steps, resetInputs, copied }
  action hardly(n: int): bool = { nondet z = oneOf(0.to(n)) all { z == 0 or m.fed == 2, advance } }
  action step2 = if (dead) make(true) else if (m.started and ready(m)) any { estim, estim, estim, estim, hardly(3), feed, feed, ask2, ask2, setup2, remove }
    else any { setup2, feed, feed, feed, touchAll, adding(true), adding(true), add, remove, ask2, idle, hardly(3) }
  action step = step1
  // the number of measurements reported is what is given, and the manifold operations are inverse of each other at the state
  val inv = measSize(m) == measured(m).length() and (dead or vmaxabs(minus(m, plus(m, m.x, constV(nt(m), ofDy(1, 3))), m.x)) <= ofDy(1, 3) + 2^60)
}
