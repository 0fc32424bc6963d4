// C13: rotation and geometry utilities, helper routines.  Every step evaluates
// one function on fresh arguments; the specification gives its value (or the
// equations its value satisfies).
module kineutils {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import rot.* from "./rot"
  import common.* from "./common"

  var ev: Ev
  var obs: Obs

  action say(o: str, ii: List[int], rr: List[int], b: Obs): bool = all { ev' = event(o, ii, rr), obs' = b }
  action init = all { ev' = NOEV, obs' = ANY }

  pure val EX = unitV(3, 0)
  pure val EZ = unitV(3, 2)
  pure def unitOf(s: int, i: int): List[int] = {
    val c = rint(s, 70 + i, 0, 5)
    val k = rint(s, 80 + i, 0, 2)
    if (c == 0) unitV(3, k) else if (c == 1) vneg(unitV(3, k))
    else vnormalize(vadd(ruvec(s, 60 + i, 3), List(0, 0, if (c < 4) dec(11, 1) else -dec(11, 1))))
  }
  // horizontal unit vector
  pure def horizOf(s: int, i: int): List[int] = {
    val a = rangle(s, i)
    List(cosF(a), sinF(a), 0)
  }
  pure def rdt(s: int, i: int): int = ofDy(rint(s, 90 + i, 1, 40), 5)
  pure def rvOk(q: List[int]): bool = qangle(q) < dec(3139, 3)
  // angles as (cos, sin): no cut
  pure def cs(a: int): List[int] = List(cosF(a), sinF(a))
  // direction (x, y) as (cos, sin)
  pure def dir(y: int, x: int): List[int] = vnormalize(List(x, y))

  // all conversions of a rotation vector: matrices of angle-axis, matrix,
  // quaternion, back from matrix and quaternion, and the regulated vector
  action rotvec = {
    nondet s = oneOf(0.to(SEEDS))
    nondet big = oneOf(0.to(3))
    val v = if (big == 0) vmulInt(rint(s, 5, 2, 9), rrotvec(s, 1)) else rrotvec(s, 1)
    val q = qexp(v)
    val m = flat(qmat(q))
    say("rotvec", List(b2i(rvOk(q))), v, okObs(List(1, 1, 1, 1), m.concat(List(0, 0, 0, 0, 0, 0))
      .concat(if (rvOk(q)) qlog(q) else List(0, 0, 0))))
  }
  // a vector between 0 and pi is returned unchanged, a large one with angle at most pi
  action regulate = {
    nondet s = oneOf(0.to(SEEDS))
    val c = rint(s, 1, 0, 2)
    val n = if (c == 0) ofDy(rint(s, 2, 0, 400), 7) else if (c == 1) ofDy(rint(s, 2, 620, 2600), 7) else ofDy(rint(s, 2, 402, 600), 7)
    val v = vscale(n, unitOf(s, 3))
    say("regulate", List(c), v, okObs(List(1), flat(qmat(qexp(v))).concat(if (c == 0) v else List(0, 0, 0))))
  }
  action rpy = {
    nondet s = oneOf(0.to(SEEDS))
    val r = rangle(s, 1)
    val p = ofDy(rint(s, 2, -190, 190), 7)
    val y = rangle(s, 3)
    say("rpy", List(), List(r, p, y), okObs(List(), flat(qmat(rpyQ(r, p, y))).concat(List(0, 0, 0, 0, 0)).concat(List(r, p, y)).concat(List(r, p, y))))
  }
  action quatParts = {
    nondet s = oneOf(0.to(SEEDS))
    val q = rquat(s, 1)
    say("quatParts", List(), q, okObs(List(), List(q[3], q[0], q[1], q[2])))
  }
  // the closest rotation to a rotation times a symmetric positive matrix
  action orthogonalize = {
    nondet s = oneOf(0.to(SEEDS))
    val r = qmat(rquat(s, 1))
    val m = mm(r, rspd(s, 2, 3))
    say("orthogonalize", List(), flat(m), okObs(List(), flat(r)))
  }
  action skewOps = {
    nondet s = oneOf(0.to(SEEDS))
    val v = rvec(s, 1, 3)
    val k = skew(v)
    say("skew", List(), v, okObs(List(), flat(k).concat(flat(k)).concat(flat(mm(k, k))).concat(flat(mm(k, k)))))
  }
  pure def hom(q: List[int], p: List[int]): List[List[int]] = {
    val m = qmat(q)
    List(m[0].append(p[0]), m[1].append(p[1]), m[2].append(p[2]), List(0, 0, 0, ONE))
  }
  action homogeneous = {
    nondet s = oneOf(0.to(SEEDS))
    val v = rrotvec(s, 1)
    val p = rvec(s, 2, 3)
    val q = qexp(v)
    say("homogeneous", List(b2i(rvOk(q))), p.concat(v), okObs(List(), flat(hom(q, p)).concat(p).concat(if (rvOk(q)) qlog(q) else List(0, 0, 0))
      .concat(flat(qmat(q))).concat(flat(hom(qconj(q), vneg(mtv(qmat(q), p)))))))
  }
  // smallest rotation between unit vectors
  action twoVectors = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(7))
    val a = unitOf(s, 1)
    val b = if (c == 0) a else if (c == 1) vneg(a)
      else if (c == 2) mv(qmat(qexp(vscale(ofDy(1, rint(s, 4, 4, 26)), unitOf(s, 3)))), a) else unitOf(s, 2)
    val d = dot(a, b)
    val x = skew(crossV(a, b))
    if (d < -ONE + dec(1, 20)) say("twoVectors", List(), a.concat(b), REJ)
    else all { d > -ONE + dec(1, 3),
      say("twoVectors", List(), a.concat(b),
        okObs(List(), flat(madd(madd(idM(3), x), mscale(div(ONE, ONE + d), mm(x, x)))))) }
  }
  // pure yaw rotations are recognised
  action pureYaw = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(1))
    val q = if (c == 0) axisQ(2, rangle(s, 1)) else rquat(s, 1)
    val m = qmat(q)
    all { c == 0 or imax(iabs(m[2][0]), iabs(m[2][1])) > dec(1, 6),
      say("pureYaw", List(), flat(m), okObs(List(1 - c), List())) }
  }
  // invariant vectors: non zero, horizontal, image horizontal (orthogonal to the tilt)
  action invariants = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(3))
    val q = if (c == 0) axisQ(2, rangle(s, 1)) else rquat(s, 1)
    val t = if (c == 1) mtv(qmat(q), EZ) else unitOf(s, 2)
    say("invariants", List(), flat(qmat(q)).concat(t), okObs(List(1, 1), List(0, 0, 0, 0)))
  }
  // the rotation with the given tilt t = R' e_z that takes the part of R2' v orthogonal to t to v
  pure def merged(t: List[int], r2: List[List[int]], v: List[int]): List[List[int]] = {
    val l = vnormalize(crossV(mtv(r2, v), t))
    mm(transpM(List(crossV(v, EZ), v, EZ)), List(l, crossV(t, l), t))
  }
  // kind: 0 tilt and yaw, 1 tilt and yaw with a reference, 2 two rotations, 3 two rotations and reference
  action merge = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kind = oneOf(0.to(3))
    nondet sing = oneOf(0.to(9))
    val r1 = qmat(rquat(s, 1))
    val r2 = if (sing == 0) idM(3) else qmat(rquat(s, 2))
    val v = if (kind % 2 == 1 and sing > 0) horizOf(s, 3) else EX
    val t = if (sing == 0 and kind < 2) EX else r1[2]
    val n = norm(crossV(mtv(r2, v), t))
    val e = flat(if (kind < 2) List(t) else r1).concat(flat(r2)).concat(v)
    if (n == 0) say("merge", List(kind), e, REJ)
    else all { n > dec(1, 5), say("merge", List(kind), e, okObs(List(), flat(merged(t, r2, v)))) }
  }
  // axis-agnostic: reference orthogonal both to e_z and, in the local frame, to the tilt
  action mergeAgnostic = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kind = oneOf(0.to(1))
    nondet same = oneOf(0.to(5))
    val r2 = qmat(rquat(s, 2))
    val r1 = if (same == 0) mm(qmat(axisQ(2, rangle(s, 4))), r2) else qmat(rquat(s, 1))
    val t = r1[2]
    val h = mv(r2, t)
    val n = norm(List(h[0], h[1]))
    val m = if (n < dec(1, 12)) EX else vnormalize(List(h[1], -h[0], 0))
    val ml = mtv(r2, m)
    all { n < dec(1, 20) or n > dec(1, 6),
      say("mergeAgnostic", List(kind), flat(if (kind == 0) List(t) else r1).concat(flat(r2)),
        okObs(List(), flat(mm(transpM(List(crossV(m, EZ), m, EZ)), List(crossV(ml, t), ml, t))))) }
  }
  action yaw = {
    nondet s = oneOf(0.to(SEEDS))
    val y = rangle(s, 3)
    val q = rpyQ(rangle(s, 1), ofDy(rint(s, 2, -195, 195), 7), y)
    say("yaw", List(), flat(qmat(q)), okObs(List(1), cs(y)))
  }
  // angle turned by a vector orthogonal to the axis; about the vertical, with a horizontal vector
  action angleOf = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kind = oneOf(0.to(1))
    val r = qmat(rquat(s, 1))
    val ax = if (kind == 0) EZ else unitOf(s, 2)
    val v = if (kind == 0) horizOf(s, 3) else vnormalize(crossV(ax, if (iabs(ax[0]) < dec(9, 1)) EX else EZ))
    val w = mv(r, v)
    val c = dot(v, w)
    val sn = dot(crossV(v, w), ax)
    all { norm(List(c, sn)) > dec(1, 4),
      say("angleOf", List(kind), flat(r).concat(ax).concat(v), okObs(List(1), dir(sn, c))) }
  }
  // the angle turned by a horizontal vector that stays horizontal
  action yawAgnostic = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(2))
    val q = if (c == 0) axisQ(2, rangle(s, 1)) else rquat(s, 1)
    val r = qmat(q)
    val h = norm(List(r[2][0], r[2][1]))
    val v = if (h < dec(1, 12)) EX else List(r[2][1], -r[2][0], 0)
    val w = mv(r, v)
    all { h < dec(1, 20) or h > dec(1, 6),
      say("yawAgnostic", List(), flat(r), okObs(List(1), dir(mul(v[0], w[1]) - mul(v[1], w[0]), dot(v, w)))) }
  }
  // true for rotations within the precision, false for anything further away
  action isRotation = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(4))
    nondet pe = oneOf(2.to(9))
    val r = qmat(rquat(s, 1))
    val m = if (c == 0) r else if (c == 1) List(r[1], r[0], r[2])
      else if (c == 2) mscale(ONE + dec(1, pe + 2), r) else if (c == 3) mscale(ONE + dec(1, pe - 1), r)
      else setBlock(r, rint(s, 2, 0, 2), 0, mscale(ONE + dec(1, pe - 1) + dec(3, 1), List(r[rint(s, 2, 0, 2)])))
    say("isRotation", List(), List(dec(1, pe)).concat(flat(m)), okObs(List(b2i(c == 0 or c == 2)), List()))
  }
  action fixedPoint = {
    nondet s = oneOf(0.to(SEEDS))
    val r = qmat(rquat(s, 1))
    val w = rvec(s, 2, 3)
    val a = rvec(s, 3, 3)
    val p = rvec(s, 4, 3)
    val l = mv(r, p)
    say("fixedPoint", List(), flat(r).concat(w).concat(a).concat(p),
      okObs(List(), vsub(p, l).concat(vneg(crossV(w, l))).concat(vneg(vadd(crossV(w, crossV(w, l)), crossV(a, l))))))
  }
  // rotation vector of an orientation a small turn away from o
  pure def nearRv(s: int, i: int, o: List[int]): List[int] = {
    val q = qmul(qexp(vscale(ofDy(1, rint(s, i, 4, 24)), unitOf(s, i))), qexp(o))
    if (rvOk(q)) qlog(q) else zeroV(3)
  }
  action finiteDiff = {
    nondet s = oneOf(0.to(SEEDS))
    val dt = rdt(s, 1)
    val o1 = rrotvec(s, 2)
    val o2 = if (rint(s, 6, 0, 1) == 0) rrotvec(s, 3) else nearRv(s, 7, o1)
    val p1 = rvec(s, 4, 3)
    val p2 = rvec(s, 5, 3)
    val d = qmul(qexp(o2), qconj(qexp(o1)))
    val w = vscale(div(ONE, dt), qlog(d))
    val v = vscale(div(ONE, dt), vsub(p2, p1))
    all { rvOk(d), say("finiteDiff", List(), List(dt).concat(p1).concat(o1).concat(p2).concat(o2),
      okObs(List(), w.concat(w).concat(v).concat(w).concat(v).concat(w))) }
  }
  // Jacobians of exp(delta) R with respect to R and to delta, as left increments
  action jacobians = {
    nondet s = oneOf(0.to(SEEDS))
    val d = rrotvec(s, 1)
    val n = norm(d)
    val k = skew(d)
    val j = if (n < dec(1, 12)) idM(3) else madd(idM(3), madd(mscale(div(ONE - cosF(n), sq(n)), k),
      mscale(div(n - sinF(n), mul(n, sq(n))), mm(k, k))))
    say("jacobians", List(), d, okObs(List(), flat(qmat(qexp(d))).concat(flat(j))))
  }
  // derivative of R' v when R is turned by a small left increment
  action jacobianRtv = {
    nondet s = oneOf(0.to(SEEDS))
    val r = qmat(rquat(s, 1))
    val v = rvec(s, 2, 3)
    say("jacobianRtv", List(), flat(r).concat(v), okObs(List(), flat(mm(transpM(r), skew(v)))))
  }
  action trajectory = {
    nondet s = oneOf(0.to(SEEDS))
    nondet n = oneOf(1.to(5))
    nondet t0 = oneOf(0.to(4))
    val dt = rdt(s, 1)
    val ps = range(0, n).foldl(List(), (l, i) => l.append(rvec(s, 10 + i, 3)))
    nondet slow = oneOf(Set(true, false))
    val os = range(0, n).foldl(List(), (l, i) => l.append(if (slow and i > 0) nearRv(s, 30 + i, l[i - 1])
      else vscale(ofDy(rint(s, 40 + i, 0, 400), 9), unitOf(s, 20 + i))))
    val vs = range(0, n).foldl(List(), (l, i) => l.append(if (i + 1 < n) vscale(div(ONE, dt), vsub(ps[i + 1], ps[i])) else zeroV(3)))
    val ws = range(0, n).foldl(List(), (l, i) => l.append(
      if (i + 1 < n) vscale(div(ONE, dt), qlog(qmul(qexp(os[i + 1]), qconj(qexp(os[i]))))) else zeroV(3)))
    val out = range(0, n).foldl(List(), (l, i) => l.concat(ps[i]).concat(os[i]).concat(vs[i]).concat(ws[i])
      .concat(if (i + 2 < n) vscale(div(ONE, dt), vsub(vs[i + 1], vs[i])) else zeroV(3))
      .concat(if (i + 2 < n) vscale(div(ONE, dt), vsub(ws[i + 1], ws[i])) else zeroV(3)))
    say("trajectory", List(n, t0), List(dt).concat(range(0, n).foldl(List(), (l, i) => l.concat(ps[i]).concat(os[i]))),
      okObs(List(n, t0, t0 + n), out))
  }
  // kinematic state (position, rotation vector, velocities, accelerations) of the inverse motion
  action invertState = {
    nondet s = oneOf(0.to(SEEDS))
    val p = rvec(s, 1, 3)
    val o = rrotvec(s, 2)
    val v = rvec(s, 3, 3)
    val w = rvec(s, 4, 3)
    val a = rvec(s, 5, 3)
    val b = rvec(s, 6, 3)
    val r = qmat(qexp(o))
    val wp = crossV(w, p)
    say("invertState", List(), p.concat(o).concat(v).concat(w).concat(a).concat(b), okObs(List(),
      vneg(mtv(r, p)).concat(flat(transpM(r))).concat(mtv(r, vsub(wp, v))).concat(vneg(mtv(r, w)))
      .concat(mtv(r, vadd(vsub(crossV(w, vsub(vmulInt(2, v), wp)), a), crossV(b, p)))).concat(vneg(mtv(r, b)))))
  }
  // all ways to integrate velocities and accelerations
  action integrate = {
    nondet s = oneOf(0.to(SEEDS))
    nondet kind = oneOf(0.to(9))
    val dt = rdt(s, 1)
    val p = rvec(s, 2, 3)
    val v = rvec(s, 3, 3)
    val a = rvec(s, 4, 3)
    val q = rquat(s, 5)
    val w = rvec(s, 6, 3)
    val b = rvec(s, 7, 3)
    val e = List(dt).concat(p).concat(v).concat(a).concat(q).concat(w).concat(b)
    val h = sq(dt) / 2
    val p1 = vadd(p, vscale(dt, v))
    val p2 = vadd(p1, vscale(h, a))
    val v2 = vadd(v, vscale(dt, a))
    val r1 = flat(qmat(qmul(qexp(vscale(dt, w)), q)))
    val r2 = flat(qmat(qmul(qexp(vadd(vscale(dt, w), vscale(h, b))), q)))
    val w2 = vadd(w, vscale(dt, b))
    // 0 p,v  1 p,v,a  2/3 orientation, w (matrix, quaternion)  4/5 with acceleration  6/7 pose with velocities  8/9 with accelerations
    val x = if (kind == 0) p1 else if (kind == 1) p2.concat(v2) else if (kind <= 3) r1 else if (kind <= 5) r2.concat(w2)
      else if (kind <= 7) p1.concat(r1) else p2.concat(v2).concat(r2).concat(w2)
    say("integrate", List(kind), e, okObs(List(), x))
  }
  action clamp = {
    nondet s = oneOf(0.to(SEEDS))
    val x = rreal(s, 1)
    val b = rreal(s, 2)
    val t = b + rpos(s, 3)
    val l = rpos(s, 4)
    val xi = rint(s, 5, -20, 20)
    say("clamp", List(xi, rint(s, 6, 0, 10), rint(s, 7, -10, 0)), List(x, t, b, l),
      okObs(List(imax(imin(xi, rint(s, 6, 0, 10)), rint(s, 7, -10, 0)), isign(x), isign(xi)),
        List(imax(imin(x, t), b), imax(imin(x, l), -l), sq(x), div(t - x, l))))
  }
  action normalisation = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(2))
    val u = unitOf(s, 1)
    val v = if (c == 0) unitV(3, rint(s, 2, 0, 2)) else vscale(rpos(s, 3), u)
    val n = norm(v)
    all { c == 0 or iabs(n - ONE) > dec(1, 6),
      say("normalisation", List(), v, okObs(List(b2i(c == 0), b2i(c == 0)), List(norm2(v)).concat(vnormalize(v)))) }
  }
  action roots = {
    nondet s = oneOf(0.to(SEEDS))
    val x = if (rint(s, 1, 0, 9) == 0) 0 else rpos(s, 2) * rint(s, 3, 1, 50)
    say("roots", List(), List(x), okObs(List(), List(sqrtF(x))))
  }
  pure def ftc(x: int, xd: int, kp: int, kv: int): int = {
    val sx = sqrtF(iabs(x))
    val y = xd - isign(x) * mul(kp, sx)
    isign(y) * mul(kv, sqrtF(iabs(y))) + (if (x == 0) 0 else div(mul(kp, xd), 2 * sx))
  }
  // acceleration law with convergence to zero in finite time, for negative gains
  action finiteTime = {
    nondet s = oneOf(0.to(SEEDS))
    nondet n = oneOf(1.to(4))
    val x = rvec(s, 1, n)
    val xd = range(0, n).foldl(List(), (l, i) => l.append(if (x[i] == 0) 0 else rvec(s, 2, n)[i]))
    val dflt = rint(s, 3, 0, 1)
    val kp = if (dflt == 1) -ONE else -rpos(s, 4)
    val kv = if (dflt == 1) -ONE else -rpos(s, 5)
    val e = range(0, n).foldl(List(), (l, i) => l.append(ftc(x[i], xd[i], kp, kv)))
    say("finiteTime", List(n, dflt), List(kp, kv).concat(x).concat(xd), okObs(List(), e.append(e[0])))
  }
  action closeTo = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(3))
    val a = if (c == 3) 0 else rreal(s, 1)
    val p = dec(1, rint(s, 2, 2, 9))
    val b = if (c == 0 or c == 3) a else if (c == 1) a + mul(p, a) / 16 else a + 4 * mul(p, iabs(a)) + 4 * p
    val near = b2i(c != 2)
    say("closeTo", List(), List(a, b, p), okObs(List(near, b2i(iabs(a - b) < p)), List()))
  }
  action draws = {
    nondet s = oneOf(0.to(SEEDS))
    val lo = rreal(s, 1)
    val hi = lo + rpos(s, 2)
    val b = rvec(s, 3, 3)
    say("draws", List(), List(lo, hi).concat(b), okObs(List(1, 1), b.concat(List(b[0], 0, 0, 0, ONE))))
  }
  action step = any { rotvec, rotvec, rotvec, regulate, rpy, rpy, quatParts, orthogonalize, skewOps, homogeneous, twoVectors,
    pureYaw, invariants, merge, merge, mergeAgnostic, yaw, angleOf, yawAgnostic, isRotation, fixedPoint, finiteDiff, jacobians,
    jacobianRtv, trajectory, invertState, integrate, integrate, clamp, normalisation, roots, finiteTime, closeTo, draws }
  val inv = true
}
