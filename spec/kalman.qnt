// C04, C05, C06, C07: zero-delay observers, instantiated by the linear and the
// extended Kalman filter.  The abstract filter state is the record F: settings,
// the state with its time, the covariance, the pending measurements and inputs.
module kalman {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"

  type Mat = List[List[int]]
  type F = {
    kind: int,                 // 0 linear, 1 extended
    n: int, m: int, p: int,    // sizes of state, measurement, input
    nt: int, mt: int,          // sizes of their tangent spaces
    ar: bool,                  // user-supplied sum and difference installed
    dOut: bool, dSt: bool,     // feedthrough declared (extended filter)
    fs: int,                   // seed of the user's model, 0 = none installed
    xs: bool, x: List[int], t: int,
    P: Mat, A: Mat, C: Mat, Q: Mat, R: Mat,
    hasB: bool, B: Mat, hasD: bool, D: Mat,
    yf: int, y: Mat, uf: int, u: Mat,   // pending data: first index, values
    lx: List[int], ly: List[int], lk: Mat, li: List[int], // last prediction, predicted measurement, gain, innovation
    ok: bool
  }
  var f: F
  var dead: bool
  var ev: Ev
  var obs: Obs

  // ---------------------------------------------------------------- model
  // the user's nonlinear model, known to both sides through its coefficients
  pure def sg(z: int): int = div(z, ONE + sq(z))
  pure def fF(s: int, n: int): Mat = genFF(s, n, n, 1)
  pure def genFF(s: int, a: int, b: int, salt: int): Mat =
    range(0, a).foldl(List(), (l, i) => l.append(range(0, b).foldl(List(), (r, j) => r.append(runit(s, 5000 * salt + i * 16 + j)))))
  pure def userF(s: int, n: int, p: int, x: List[int], u: List[int], k: int): List[int] = {
    val lin = mv(genFF(s, n, n, 1), x)
    val inp = if (p > 0) mv(genFF(s, n, p, 2), u) else zeroV(n)
    val q = genFF(s, 1, n, 3)[0]
    range(0, n).foldl(List(), (l, i) =>
      l.append(lin[i] + inp[i] + mul(q[i], sg(x[(i + 1) % n])) + (pmod(k, 3) * q[i]) / 8))
  }
  pure def userH(s: int, n: int, m: int, p: int, x: List[int], u: List[int], k: int): List[int] = {
    val lin = mv(genFF(s, m, n, 4), x)
    val inp = if (p > 0) mv(genFF(s, m, p, 5), u) else zeroV(m)
    val q = genFF(s, 1, m, 6)[0]
    range(0, m).foldl(List(), (l, i) =>
      l.append(lin[i] + inp[i] + mul(q[i], sg(x[i % n])) + (pmod(k, 2) * q[i]) / 8))
  }
  // coefficients of the user's model as handed to the adapter
  pure def coeffs(s: int, n: int, m: int, p: int): List[int] =
    flat(genFF(s, n, n, 1)).concat(flat(genFF(s, n, p, 2))).concat(genFF(s, 1, n, 3)[0])
      .concat(flat(genFF(s, m, n, 4))).concat(flat(genFF(s, m, p, 5))).concat(genFF(s, 1, m, 6)[0])

  // user-supplied operations: tangent vectors are shorter than states
  pure def xSum(g: F, x: List[int], d: List[int]): List[int] =
    if (not(g.ar)) vadd(x, d)
    else range(0, g.n).foldl(List(), (l, i) => l.append(if (i < g.nt) x[i] + 2 * d[i] else x[i] + vsum(d)))
  pure def xDiff(g: F, a: List[int], b: List[int]): List[int] =
    if (not(g.ar)) vsub(a, b)
    else range(0, g.nt).foldl(List(), (l, i) => l.append((a[i] - b[i]) / 2))
  pure def yDiff(g: F, a: List[int], b: List[int]): List[int] =
    if (not(g.ar)) vsub(a, b)
    else range(0, g.mt).foldl(List(), (l, i) => l.append(3 * (a[i] - b[i]) + a[g.m - 1] - b[g.m - 1]))

  pure def hasU(g: F, k: int): bool = k >= g.uf and k < g.uf + g.u.length()
  pure def hasY(g: F, k: int): bool = k >= g.yf and k < g.yf + g.y.length()
  pure def isM(a: Mat, r: int, c: int): bool = a.length() == r and colsM(a) == c

  // -------------------------------------------------- prediction and sensor
  pure def canPredict(g: F): bool =
    if (g.kind == 0)
      isM(g.A, g.nt, g.nt) and g.hasB and isM(g.C, g.mt, g.nt) and
        (g.p == 0 or mzero(g.B) or hasU(g, g.t))
    else g.fs > 0 and (g.p == 0 or not(g.dSt) or hasU(g, g.t))
  pure def uState(g: F): List[int] = if (g.p > 0 and g.dSt) g.u[g.t - g.uf] else zeroV(g.p)
  pure def predicted(g: F): List[int] =
    if (g.kind == 0) {
      val ax = mv(g.A, g.x)
      if (g.p > 0 and not(mzero(g.B))) vadd(ax, mv(g.B, g.u[g.t - g.uf])) else ax
    } else userF(g.fs, g.n, g.p, g.x, uState(g), g.t)
  pure def canSense(g: F, k: int): bool =
    if (g.kind == 0) isM(g.C, g.mt, g.nt) and (g.p == 0 or not(g.hasD) or mzero(g.D) or hasU(g, k))
    else g.fs > 0 and (g.p == 0 or not(g.dOut) or hasU(g, k))
  pure def sensed(g: F, x: List[int], k: int): List[int] =
    if (g.kind == 0) {
      val cx = mv(g.C, x)
      if (g.p > 0 and g.hasD and not(mzero(g.D))) vadd(cx, mv(g.D, g.u[k - g.uf])) else cx
    } else userH(g.fs, g.n, g.m, g.p, x, if (hasU(g, k)) g.u[k - g.uf] else zeroV(g.p), k)

  // ----------------------------------------------------- one recursion step
  pure def canStep(g: F): bool = and {
    hasY(g, g.t + 1), isM(g.A, g.nt, g.nt), isM(g.C, g.mt, g.nt), isM(g.Q, g.nt, g.nt),
    isM(g.R, g.mt, g.mt), isM(g.P, g.nt, g.nt), canPredict(g), canSense(g, g.t + 1)
  }
  pure def oneStep(g: F): F =
    if (not(g.ok) or not(canStep(g))) g.with("ok", false)
    else {
      val xb = predicted(g)
      val yb = sensed(g, xb, g.t + 1)
      val pb = madd(g.Q, mm(g.A, mmt(g.P, g.A)))
      val inn = yDiff(g, g.y[g.t + 1 - g.yf], yb)
      val cp = mm(g.C, pb)
      val s = madd(g.R, mmt(cp, g.C))
      // K = pb C' s^-1, so K' = s^-1 C pb for symmetric s, pb
      val k = mmt(pb, solveTC(s, g.C))
      val dx = mv(k, inn)
      g.with("x", xSum(g, xb, dx)).with("t", g.t + 1)
       .with("P", symM(mm(msub(idM(g.nt), mm(k, g.C)), pb)))
       .with("lx", xb).with("ly", yb).with("lk", k).with("li", dx)
    }
  // transpose of (C' s^-1)
  pure def solveTC(s: Mat, c: Mat): Mat = transpM(mm(transpM(c), invM(s)))
  pure def popY(g: F): F = g.with("y", g.y.tail()).with("yf", g.yf + 1)
  pure def popU(g: F): F = g.with("u", g.u.tail()).with("uf", g.uf + 1)
  // estimate up to time k: each step consumes its measurement; data before k is dropped
  pure def stepTo(g: F, k: int): F = {
    val h = oneStep(g)
    if (not(h.ok)) h else {
      val h1 = if (h.yf < k) popY(h) else h
      if (h1.p > 0 and h1.u.length() > 0 and h1.uf < k) popU(h1) else h1
    }
  }
  pure def estimate(g: F, k: int): F =
    if (not(g.xs) or k < g.t) g.with("ok", false)
    else range(g.t, k).foldl(g, (h, i) => stepTo(h, k))

  pure def fdA(g: F, dx: List[int]): Mat = {
    val xb = predicted(g)
    transpM(range(0, g.nt).foldl(List(), (l, i) => {
      val d = vset(zeroV(g.nt), i, dx[i])
      val xp = userF(g.fs, g.n, g.p, xSum(g, g.x, d), uState(g), g.t)
      val df = xDiff(g, xp, xb)
      l.append(range(0, g.nt).foldl(List(), (c, j) => c.append(div(df[j], dx[i]))))
    }))
  }
  pure def fdC(g: F, dx: List[int]): Mat = {
    val xb = predicted(g)
    val yb = sensed(g, xb, g.t + 1)
    transpM(range(0, g.nt).foldl(List(), (l, i) => {
      val d = vset(zeroV(g.nt), i, dx[i])
      val df = yDiff(g, sensed(g, xSum(g, xb, d), g.t + 1), yb)
      l.append(range(0, g.mt).foldl(List(), (c, j) => c.append(div(df[j], dx[i]))))
    }))
  }

  // --------------------------------------------------------- observations
  pure def lookI(g: F): List[int] =
    List(b2i(g.xs), if (g.xs) g.t else 0, g.y.length(), if (g.y.length() > 0) g.yf + g.y.length() - 1 else 0,
         g.u.length(), if (g.u.length() > 0) g.uf + g.u.length() - 1 else 0)
  pure def lookR(g: F): List[int] =
    (if (g.xs) g.x else List()).concat(flat(g.P)).concat(flat(g.y)).concat(flat(g.u))
  pure def look(g: F): Obs = okObs(lookI(g), lookR(g))
  // with the settings that can be read back
  pure def lookSet(g: F): Obs =
    okObs(lookI(g).concat(List(g.A.length(), colsM(g.A), g.C.length(), colsM(g.C), g.Q.length(), colsM(g.Q), g.R.length(), colsM(g.R))),
          lookR(g).concat(flat(g.A)).concat(flat(g.C)).concat(flat(g.Q)).concat(flat(g.R)))
  // after an estimation step also the intermediate results
  pure def lookStep(g: F): Obs =
    okObs(lookI(g), lookR(g).concat(g.lx).concat(g.ly).concat(flat(g.lk)).concat(g.li))

  action done(e: Ev, g: F, o: Obs): bool = all { ev' = e, obs' = o, f' = g, dead' = false }
  action refuse(e: Ev): bool = all { ev' = e, obs' = REJ, f' = f, dead' = true }
  action settle(e: Ev, g: F): bool = if (g.ok) done(e, g, look(g)) else refuse(e)
  action settleStep(e: Ev, g: F, steps: int): bool =
    if (not(g.ok)) refuse(e) else done(e, g, if (steps > 0) lookStep(g) else look(g))

  // ------------------------------------------------------------- creation
  pure val EMPTY: F = {
    kind: 0, n: 1, m: 1, p: 0, nt: 1, mt: 1, ar: false, dOut: false, dSt: false, fs: 0,
    xs: false, x: List(), t: 0, P: List(), A: List(), C: List(), Q: List(), R: List(),
    hasB: false, B: List(), hasD: false, D: List(), yf: 0, y: List(), uf: 0, u: List(),
    lx: List(), ly: List(), lk: List(), li: List(), ok: true }

  pure def bare(kind: int, s: int): F = {
    val a = kind == 1 and rint(s, 5, 0, 2) == 0
    val nn = if (a) rint(s, 1, 2, 4) else rint(s, 1, 1, 4)
    val mmm = if (a) rint(s, 2, 2, 3) else rint(s, 2, 1, 3)
    val pp = rint(s, 3, 0, 2)
    EMPTY.with("kind", kind).with("n", nn).with("m", mmm).with("p", pp)
      .with("nt", if (a) nn - 1 else nn).with("mt", if (a) mmm - 1 else mmm).with("ar", a)
      .with("dOut", kind == 1 and pp > 0 and rint(s, 6, 0, 1) == 1)
      .with("dSt", kind == 1 and pp > 0 and rint(s, 7, 0, 1) == 1)
  }
  // matrices of particular structure besides the generic ones
  pure def smat(s: int, i: int, n: int, m: int): Mat = {
    val c = rint(s, 9000 + i, 0, 5)
    val a = runit(s, 9100 + i)
    val k = rint(s, 9200 + i, 0, imax(0, n * m - 1))
    if (c < 2) rmat(s, i, n, m)
    else range(0, n).foldl(List(), (l, x) => l.append(range(0, m).foldl(List(), (r, y) => r.append(
      if (c == 2) (if (x * m + y == k) a else 0)
      else if (c == 3) (if ((x + y) % 2 == 0) a else -a)
      else if (c == 4) ofInt(rint(s, 9300 + 100 * i + x * 10 + y, -1, 1))
      else (if (x == y) a else 0)))))
  }
  pure def smatA(s: int, i: int, n: int, m: int, salt: int): Mat =
    if (rint(s, 9800 + i, 0, 2) == 0) smat(s, i, n, m) else genFF(s, n, m, salt)
  // possibly singular covariance
  pure def scov(s: int, i: int, n: int): Mat =
    if (rint(s, 9900 + i, 0, 7) == 0) zeroM(n, n)
    else if (rint(s, 9900 + i, 0, 7) == 1) diagM(range(0, n).foldl(List(), (l, k) => l.append(sq(runit(s, 9950 + 10 * i + k)))))
    else rspd(s, i, n)
  // feedthrough declared although there is no input: it does not count, even if an input comes later
  pure def idle(g: F, s: int): bool = g.kind == 1 and g.p == 0 and rint(s, 8, 0, 1) == 1
  pure def newEv(g: F, s: int): Ev = event("new", List(g.kind, g.n, g.m, g.p, g.nt, g.mt, b2i(g.ar), b2i(g.dOut or idle(g, s)), b2i(g.dSt or idle(g, s))), List())
  // a model with bounded growth: entries of A in [-1, 1], one in three B or D zero
  pure def configured(g: F, s: int): F = {
    val b = if (rint(s, 11, 0, 2) == 0) zeroM(g.n, g.p) else smat(s, 21, g.n, g.p)
    val d = if (rint(s, 12, 0, 2) == 0) zeroM(g.m, g.p) else smat(s, 22, g.m, g.p)
    g.with("A", smatA(s, 41, g.nt, g.nt, 31)).with("C", smatA(s, 42, g.mt, g.nt, 32))
     .with("Q", scov(s, 33, g.nt)).with("R", rspd(s, 34, g.mt)).with("P", scov(s, 35, g.nt))
     .with("hasB", g.kind == 0).with("B", if (g.kind == 0) b else List())
     .with("hasD", g.kind == 0 and rint(s, 13, 0, 3) > 0).with("D", if (g.kind == 0 and rint(s, 13, 0, 3) > 0) d else List())
     .with("fs", if (g.kind == 1) 1 + s % 1000003 else 0)
     .with("xs", true).with("x", rvec(s, 36, g.n)).with("t", rint(s, 14, -2, 5))
  }
  pure def fullEv(g: F, s: int): Ev = event("newFull",
    List(g.kind, g.n, g.m, g.p, g.nt, g.mt, b2i(g.ar), b2i(g.dOut or idle(g, s)), b2i(g.dSt or idle(g, s)), b2i(g.hasB), b2i(g.hasD), g.t),
    flat(g.A).concat(flat(g.C)).concat(flat(g.Q)).concat(flat(g.R)).concat(flat(g.P))
      .concat(flat(g.B)).concat(flat(g.D)).concat(if (g.kind == 1) coeffs(g.fs, g.n, g.m, g.p) else List()).concat(g.x))

  action init = all { f' = EMPTY, dead' = true, ev' = NOEV, obs' = ANY }
  action createFull(kinds: Set[int]): bool = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kd = oneOf(kinds)
    val g = configured(bare(kd, s), s)
    done(fullEv(g, s), g, look(g))
  }
  action createBare = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kd = oneOf(Set(0, 1))
    val g = bare(kd, s)
    done(newEv(g, s), g, look(g))
  }

  // ------------------------------------------------------- recorded data
  pure def withState(g: F, xv: List[int], k: int): F = {
    val past = g.xs and k < g.t
    val h = g.with("xs", true).with("x", xv).with("t", k)
    if (past) h.with("y", List()).with("u", List())
    else {
      val dy = imin(h.y.length(), imax(0, k + 1 - h.yf))
      val du = if (h.p > 0) imin(h.u.length(), imax(0, k - h.uf)) else 0
      h.with("y", h.y.slice(dy, h.y.length())).with("yf", h.yf + dy)
       .with("u", h.u.slice(du, h.u.length())).with("uf", h.uf + du)
    }
  }
  action setState = {
    nondet s = oneOf(0.to(SEEDS))
    val k = if (f.xs) rint(s, 1, f.t - 1, f.t + 3) else rint(s, 1, -1, 4)
    // possibly the same state at another time
    val xv = if (f.xs and rint(s, 3, 0, 3) == 0) f.x else rvec(s, 2, f.n)
    settle(event("setState", List(k), xv), withState(f, xv, k))
  }
  action setCurrentState = {
    nondet s = oneOf(0.to(SEEDS))
    val xv = rvec(s, 2, f.n)
    settle(event("setCurrentState", List(), xv), f.with("x", xv).with("ok", f.xs))
  }
  pure def putY(g: F, yv: List[int], k: int): F =
    if (g.y.length() > 0) {
      if (hasY(g, k)) g.with("y", g.y.replaceAt(k - g.yf, yv))
      else if (k == g.yf + g.y.length()) g.with("y", g.y.append(yv))
      else g.with("ok", false)
    } else if (not(g.xs) or k == g.t + 1) g.with("y", List(yv)).with("yf", k)
    else g.with("ok", false)
  pure def putU(g: F, uv: List[int], k: int): F =
    if (g.p == 0) g
    else if (g.u.length() > 0) {
      if (hasU(g, k)) g.with("u", g.u.replaceAt(k - g.uf, uv))
      else if (k == g.uf + g.u.length()) g.with("u", g.u.append(uv))
      else g.with("ok", false)
    } else if (not(g.xs) or k == g.t or k == g.t + 1) g.with("u", List(uv)).with("uf", k)
    else g.with("ok", false)
  pure def nextY(g: F): int = if (g.y.length() > 0) g.yf + g.y.length() else if (g.xs) g.t + 1 else 0
  pure def nextU(g: F): int = if (g.u.length() > 0) g.uf + g.u.length() else if (g.xs) g.t else 0
  action setMeasurement = {
    nondet s = oneOf(0.to(SEEDS))
    val k = if (rint(s, 1, 0, 9) == 0) nextY(f) + rint(s, 2, -2, 2)
            else if (rint(s, 3, 0, 3) == 0 and f.y.length() > 0) rint(s, 4, f.yf, nextY(f))
            else nextY(f)
    val yv = rvec(s, 5, f.m)
    settle(event("setMeasurement", List(k), yv), putY(f, yv, k))
  }
  action pushMeasurement = {
    nondet s = oneOf(0.to(SEEDS))
    val yv = rvec(s, 5, f.m)
    settle(event("pushMeasurement", List(), yv),
      if (f.y.length() > 0 or f.xs) putY(f, yv, nextY(f)) else f.with("ok", false))
  }
  action setInput = {
    nondet s = oneOf(0.to(SEEDS))
    val k = if (rint(s, 1, 0, 9) == 0) nextU(f) + rint(s, 2, -2, 2)
            else if (rint(s, 3, 0, 3) == 0 and f.u.length() > 0) rint(s, 4, f.uf, nextU(f))
            else nextU(f)
    val uv = rvec(s, 5, f.p)
    settle(event("setInput", List(k), uv), putU(f, uv, k))
  }
  action pushInput = {
    nondet s = oneOf(0.to(SEEDS))
    val uv = rvec(s, 5, f.p)
    settle(event("pushInput", List(), uv),
      if (f.p == 0 or f.u.length() > 0 or f.xs) putU(f, uv, nextU(f)) else f.with("ok", false))
  }
  // a batch: inputs and measurements for several times at once, valid ones
  action feed = {
    nondet s = oneOf(0.to(SEEDS))
    nondet cnt = oneOf(1.to(3))
    val g = range(0, cnt).foldl((f, List(), List()), (a, i) => {
      val yv = rvec(s, 40 + i, f.m)
      val uv = rvec(s, 50 + i, f.p)
      (putU(putY(a._1, yv, nextY(a._1)), uv, nextU(a._1)), a._2.concat(yv).concat(uv), a._3)
    })
    all { f.xs, settle(event("feed", List(cnt), g._2), g._1) }
  }
  // make sure inputs reach the last measurement so that estimation can go on
  action fillInputs = {
    nondet s = oneOf(0.to(SEEDS))
    val last = f.yf + f.y.length() - 1
    val missing = imax(0, last - nextU(f) + 1)
    val g = range(0, missing).foldl((f, List()), (a, i) => {
      val uv = rvec(s, 50 + i, f.p)
      (putU(a._1, uv, nextU(a._1)), a._2.concat(uv))
    })
    all { f.xs, f.p > 0, f.y.length() > 0, missing > 0, missing < 8, settle(event("fillInputs", List(missing), g._2), g._1) }
  }

  // ---------------------------------------------------------- estimation
  action estimateState = {
    val k = if (f.y.length() > 0) f.yf + f.y.length() - 1 else f.t
    settleStep(event("estimateState", List(), List()), if (f.y.length() > 0) estimate(f, k) else f.with("ok", f.xs), if (f.xs) imax(0, k - f.t) else 0)
  }
  // only if it can succeed
  action estimateGood = {
    val last = f.yf + f.y.length() - 1
    all {
      f.xs, f.y.length() > 0, last > f.t,
      nondet k = oneOf((f.t + 1).to(last))
      val g = estimate(f, k)
      all { g.ok, settleStep(event("estimateTo", List(k), List()), g, k - f.t) }
    }
  }
  action estimateTo = {
    nondet dk = oneOf((-1).to(3))
    settleStep(event("estimateTo", List(f.t + dk), List()), estimate(f, f.t + dk), imax(0, dk))
  }
  action current = all {
    f.xs, done(event("current", List(), List()), f, okObs(List(f.t), f.x))
  }

  // ------------------------------------------------- queries between steps
  action predictX = all {
    f.xs,
    val e = event("predict", List(), List())
    if (canPredict(f)) { val xb = predicted(f)  done(e, f.with("lx", xb), okObs(lookI(f), lookR(f).concat(xb))) }
    else refuse(e)
  }
  action predictXY = all {
    f.xs,
    val e = event("predictY", List(), List())
    if (canPredict(f) and canSense(f, f.t + 1)) {
      val xb = predicted(f)
      val yb = sensed(f, xb, f.t + 1)
      done(e, f.with("lx", xb).with("ly", yb), okObs(lookI(f), lookR(f).concat(xb).concat(yb)))
    } else refuse(e)
  }
  action simMeas = all {
    f.xs,
    nondet dk = oneOf(0.to(2))
    val g = estimate(f, f.t + dk)
    val e = event("simMeas", List(f.t + dk), List())
    if (g.ok and canSense(g, g.t)) {
      val ys = sensed(g, g.x, g.t)
      // asking for a simulated measurement does not disturb the last results
      done(e, g, okObs(lookI(g), lookR(g).concat(ys).concat(g.lx).concat(g.ly)))
    } else refuse(e)
  }
  action lastResults = all {
    f.lx != List(), f.ly != List(), f.li != List(),
    done(event("last", List(), List()), f, okObs(List(), f.lx.concat(f.ly).concat(flat(f.lk)).concat(f.li)))
  }
  pure def steps(s: int, n: int): List[int] = range(0, n).foldl(List(), (l, i) => l.append(ofDy(1 + rnd(s, 70 + i) % 4, 14)))
  action jacA = all {
    f.kind == 1, f.xs,
    nondet s = oneOf(0.to(SEEDS))
    nondet keep = oneOf(Set(0, 1))
    val dx = steps(s, f.nt)
    val e = event("fdA", List(keep), dx)
    if (canPredict(f)) {
      val a = fdA(f, dx)
      val xb = predicted(f)
      val g = f.with("lx", xb).with("A", if (keep == 1) a else f.A)
      done(e, g, okObs(lookI(g), lookR(g).concat(flat(a))))
    } else refuse(e)
  }
  action jacC = all {
    f.kind == 1, f.xs,
    nondet s = oneOf(0.to(SEEDS))
    nondet keep = oneOf(Set(0, 1))
    val dx = steps(s, f.nt)
    val e = event("fdC", List(keep), dx)
    if (canPredict(f) and canSense(f, f.t + 1)) {
      val c = fdC(f, dx)
      val xb = predicted(f)
      val yb = sensed(f, xb, f.t + 1)
      val g = f.with("lx", xb).with("ly", yb).with("C", if (keep == 1) c else f.C)
      done(e, g, okObs(lookI(g), lookR(g).concat(flat(c))))
    } else refuse(e)
  }

  // ------------------------------------------------------------- settings
  pure def setEv(which: int, a: Mat): Ev = event("setM", List(which, a.length(), colsM(a)), flat(a))
  action setMatrix = {
    nondet s = oneOf(0.to(SEEDS))
    val w = rint(s, 1, 0, 6)
    val a = if (w == 0) smatA(s, 41, f.nt, f.nt, 31) else if (w == 1) smatA(s, 42, f.mt, f.nt, 32)
            else if (w == 2) scov(s, 33, f.nt) else if (w == 3) rspd(s, 34, f.mt) else if (w == 4) scov(s, 35, f.nt)
            else if (w == 5) smat(s, 21, f.n, f.p) else smat(s, 22, f.m, f.p)
    val e = event("setM", List(w, a.length(), colsM(a)), flat(a))
    all {
      w < 5 or f.kind == 0,
      val g = if (w == 0) f.with("A", a) else if (w == 1) f.with("C", a) else if (w == 2) f.with("Q", a)
              else if (w == 3) f.with("R", a) else if (w == 4) f.with("P", a)
              else if (w == 5) f.with("hasB", true).with("B", a) else f.with("hasD", true).with("D", a)
      done(e, g, lookSet(g))
    }
  }
  action setMatrixBad = {
    nondet s = oneOf(0.to(SEEDS))
    val w = rint(s, 1, 0, 6)
    val extra = rint(s, 2, 0, 1)
    val r = (if (w == 1 or w == 3) f.mt else if (w == 6) f.m else if (w == 5) f.n else f.nt) + extra
    val c = (if (w == 3) f.mt else if (w > 4) f.p else f.nt) + (1 - extra)
    all { w < 5 or f.kind == 0, refuse(event("setM", List(w, r, c), zeroV(r * c))) }
  }
  action wrongVector = {
    nondet s = oneOf(0.to(SEEDS))
    val w = rint(s, 1, 0, 2)
    val n = if (w == 0) f.n else if (w == 1) f.m else f.p
    all {
      f.xs, w < 2 or f.p > 0,
      refuse(event(if (w == 0) "setState" else if (w == 1) "pushMeasurement" else "pushInput",
                   if (w == 0) List(f.t + 1) else List(), zeroV(n + 1)))
    }
  }
  action setModel = {
    nondet s = oneOf(1.to(1000003))
    // another object, or the present one after a change of its parameters
    nondet how = oneOf(0.to(1))
    all { f.kind == 1, done(event("setFunctor", List(if (f.fs > 0) how else 0), coeffs(s, f.n, f.m, f.p)), f.with("fs", s), look(f)) }
  }
  action clearModel = all {
    f.kind == 1, f.fs > 0, done(event("clearFunctor", List(), List()), f.with("fs", 0), look(f))
  }
  action setFlags = {
    nondet a = oneOf(Set(0, 1))
    nondet b = oneOf(Set(0, 1))
    all {
      f.kind == 1,
      done(event("setFlags", List(a, b), List()),
           if (f.p > 0) f.with("dOut", a == 1).with("dSt", b == 1) else f, look(f))
    }
  }
  pure def forget(g: F): F = g.with("lx", List()).with("ly", List()).with("lk", List()).with("li", List())
  action clearMatrix = {
    nondet w = oneOf(0.to(6))
    all {
      w < 5 or f.kind == 0,
      val g = forget(if (w == 0) f.with("A", List()) else if (w == 1) f.with("C", List()) else if (w == 2) f.with("Q", List())
              else if (w == 3) f.with("R", List()) else if (w == 4) f.with("P", List())
              else if (w == 5) f.with("hasB", f.n == 0).with("B", List()) else f.with("hasD", false).with("D", List()))
      done(event("clearM", List(w), List()), g, lookSet(g))
    }
  }
  action clearData = {
    nondet w = oneOf(0.to(4))
    val noX = f.with("xs", false).with("x", List()).with("P", List())
    val g = forget(
      if (w == 0) noX
      else if (w == 1) f.with("y", List())
      else if (w == 2) f.with("u", List())
      else if (w == 3) f.with("y", List()).with("u", List())
      else noX.with("y", List()).with("u", List()))
    // a reset resets the user's model as well
    val o = lookSet(g)
    done(event("clearData", List(w), List()), g, if (w == 4) okObs(o.i.append(b2i(f.fs > 0)), o.r) else o)
  }
  // copy constructed, assigned over another filter, then the original goes away
  action copy = {
    nondet how = oneOf(0.to(2))
    done(event("copy", List(how), List()), f, lookSet(f))
  }
  // vectors and matrices built from the sizes in force, and the recognition of their shapes
  action shapes = {
    nondet s = oneOf(0.to(SEEDS))
    val c = rreal(s, 1)
    val d = rint(s, 2, 0, 5)
    val sizes = List((f.n, 1), (f.m, 1), (f.p, 1), (f.nt, 1), (f.mt, 1), (f.nt, f.nt), (f.mt, f.nt), (f.nt, f.nt), (f.mt, f.mt), (f.nt, f.nt))
      .concat(if (f.kind == 0) List((f.n, f.p), (f.m, f.p)) else List())
    // constant, zero, random: rows, columns, constant; recognised: right shape, one row more, one column more
    val ints = sizes.foldl(List(), (l, z) => l.concat(List(z._1, z._2, z._1, z._2, z._1, z._2, 1, 0, 0)))
    val reals = sizes.foldl(List(), (l, z) => l.concat(if (z._1 * z._2 > 0) List(c, c, 0, 0) else List(0, 0, 0, 0)))
    val ids = List(f.nt, f.nt, f.mt, f.nt)
    done(event("shapes", List(d), List(c)), f, okObs(ints.concat(List(f.n, f.m, f.p)),
      reals.concat(ids.foldl(List(), (l, k) => l.concat(flat(idM(k)))))))
  }
  // sizes change only the matrices whose shape depends on them
  pure def resized(g: F, w: int, v: int): F = resizedT(g, w, v, v)
  // with the size of the tangent space
  pure def resizedT(g: F, w: int, v: int, vt: int): F =
    if (if (w == 0) v == g.n and vt == g.nt else if (w == 1) v == g.m and vt == g.mt else v == g.p) g
    else forget(
      if (w == 0) (if (v == g.n) g else g.with("xs", false).with("x", List())).with("n", v).with("nt", vt)
                   .with("A", List()).with("C", List()).with("Q", List()).with("P", List())
                   .with("hasB", false).with("B", List())
      else if (w == 1) (if (v == g.m) g else g.with("y", List())).with("m", v).with("mt", vt)
                   .with("C", List()).with("R", List()).with("hasD", false).with("D", List())
      else g.with("p", v).with("u", List()).with("hasB", false).with("B", List()).with("hasD", false).with("D", List()))
    // the user's model must match the new sizes
     .with("fs", 0)
  action setSize = {
    nondet s = oneOf(0.to(SEEDS))
    val w = rint(s, 1, 0, 2)
    val v = if (w == 2) rint(s, 2, 0, 2) else rint(s, 2, 1, 3)
    val g = resized(f, w, v)
    all { not(f.ar), done(event("setSize", List(w, v, b2i(g == f)), List()), g, lookSet(g)) }
  }
  // away and back: nothing that depended on the size survives
  action sizeAndBack = {
    nondet s = oneOf(0.to(SEEDS))
    val w = rint(s, 1, 0, 2)
    val old = if (w == 0) f.n else if (w == 1) f.m else f.p
    val v = if (old > 1 and rint(s, 2, 0, 1) == 0) old - 1 else old + 1
    val g = resized(resized(f, w, v), w, old)
    all { not(f.ar), done(event("sizeAndBack", List(w, v, old), List()), g, lookSet(g)) }
  }
  // the size of the vectors, of their tangent space, or both, and back
  action tangentAndBack = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(1))
    nondet c = oneOf(0.to(2))
    val old = if (w == 0) f.n else f.m
    val oldT = if (w == 0) f.nt else f.mt
    val v = if (c == 1) old else old + 1
    val vt = if (c == 0) oldT else oldT + 1
    val g = resizedT(resizedT(f, w, v, vt), w, old, oldT)
    all { f.kind == 1, done(event("tangentAndBack", List(w, v, vt, old, oldT), List()), g, lookSet(g)) }
  }
  // give back everything that is missing
  action refill = {
    nondet s = oneOf(0.to(SEEDS))
    // one of them may be forgotten
    nondet skip = oneOf(0.to(15))
    val h = configured(f, s)
    val need = List(b2i(f.A == List()), b2i(f.C == List()), b2i(f.Q == List()), b2i(f.R == List()), b2i(f.P == List()),
                    b2i(not(f.hasB) and f.kind == 0), b2i(not(f.xs)), b2i(f.kind == 1 and f.fs == 0),
                    if (f.xs or skip == 6) f.t else h.t).replaceAt(imin(skip, 8), if (skip < 8) 0 else if (f.xs) f.t else h.t)
    val g = f.with("A", if (need[0] == 1) h.A else f.A).with("C", if (need[1] == 1) h.C else f.C)
             .with("Q", if (need[2] == 1) h.Q else f.Q).with("R", if (need[3] == 1) h.R else f.R)
             .with("P", if (need[4] == 1) h.P else f.P)
             .with("B", if (need[5] == 1) h.B else f.B).with("hasB", need[5] == 1 or f.hasB)
             .with("xs", f.xs or need[6] == 1).with("x", if (need[6] == 1) h.x else f.x).with("t", need[8])
             .with("fs", if (need[7] == 1) h.fs else f.fs)
    val g2 = if (need[6] == 0) g else withState(g.with("xs", false), g.x, g.t)
    all {
      need.slice(0, 8) != List(0, 0, 0, 0, 0, 0, 0, 0),
      done(event("refill", need,
        (if (need[0] == 1) flat(g.A) else List()).concat(if (need[1] == 1) flat(g.C) else List())
        .concat(if (need[2] == 1) flat(g.Q) else List()).concat(if (need[3] == 1) flat(g.R) else List())
        .concat(if (need[4] == 1) flat(g.P) else List()).concat(if (need[5] == 1) flat(g.B) else List())
        .concat(if (need[6] == 1) g.x else List())
        .concat(if (need[7] == 1) coeffs(g.fs, g.n, g.m, g.p) else List())), g2, look(g2))
    }
  }

  action data = any { setMeasurement, pushMeasurement, setInput, pushInput, feed, feed, feed, fillInputs }

  // C05
  action stepLin = if (dead) createFull(Set(0))
    else any { feed, feed, data, fillInputs, estimateGood, estimateGood, estimateGood, predictX, predictXY, simMeas, lastResults,
               setMatrix, setCurrentState, copy }
  // C06
  action stepEkf = if (dead) createFull(Set(1))
    else any { feed, feed, data, fillInputs, fillInputs, estimateGood, estimateGood, estimateGood, predictX, predictXY, simMeas, lastResults,
               jacA, jacC, setMatrix, setCurrentState, copy, setState, setState, setFlags, setModel, setInput }
  // C04
  action stepHist = if (dead) any { createFull(Set(0, 1)), createFull(Set(0, 1)), createFull(Set(0, 1)), createBare }
    else any { data, data, data, feed, fillInputs, estimateGood, estimateGood, estimateState, estimateTo, current, setState, setCurrentState,
               predictX, clearData, wrongVector, refill, copy }
  // C07
  val complete = f.A != List() and f.C != List() and f.Q != List() and f.R != List() and f.P != List() and f.xs
    and (f.kind == 1 or f.hasB) and (f.kind == 0 or f.fs > 0)
  action stepReset = if (dead) any { createFull(Set(0, 1)), createFull(Set(0, 1)), createBare }
    else if (complete) opsReset else any { refill, refill, opsReset }
  action opsReset = any { copy, shapes, tangentAndBack, feed, feed, fillInputs, estimateGood, estimateGood, clearMatrix, clearData, setSize, sizeAndBack, refill, refill, setMatrix,
               setMatrixBad, estimateState, wrongVector, setFlags, setModel, clearModel, predictXY, data }
  action step = stepHist

  // ------------------------------------------------------------ properties
  val dims = and {
    f.xs implies f.x.length() == f.n,
    f.y.foldl(true, (b, v) => b and v.length() == f.m),
    f.u.foldl(true, (b, v) => b and v.length() == f.p),
    f.P == List() or isM(f.P, f.nt, f.nt)
  }
  // the covariance stays symmetric and positive semi-definite
  val cov = f.P == List() or (isSym(f.P) and isPosDef(f.P, 2^60))
  // estimating in one batch or one step at a time gives the same estimate
  val batch = not(f.xs) or f.y.length() == 0 or {
    val last = f.yf + f.y.length() - 1
    val one = estimate(f, last)
    val two = range(f.t + 1, last + 1).foldl(f, (g, k) => if (g.ok) estimate(g, k) else g)
    last <= f.t or ((one.ok iff two.ok) and (one.ok implies (one.x == two.x and one.P == two.P and one.y == two.y and one.u == two.u)))
  }
  val inv = dims and cov
  val invBatch = dims and batch
}
