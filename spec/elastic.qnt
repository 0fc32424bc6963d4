// Flexibility of a robot on elastic contacts or hanging from ropes: the laws of motion and
// of the sensors.  State: position, rotation vector, velocities, two contact wrenches,
// unmodelled wrench, horizontal bias of the centre of mass, drift (x, y, yaw).
module elastic {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import rot.* from "./rot"
  import motion.* from "./motion"

  // model: 0 none, 1 elastic contacts, 2 ropes; pe: where the ropes hang
  type E = { dt: int, mass: int, kfe: Mat, kfv: Mat, kte: Mat, ktv: Mat, rfe: Mat, rfv: Mat, rte: Mat, rtv: Mat, pe: List[int],
    nc: int, model: int, wf: bool, wb: bool, wa: bool, wu: bool }
  pure val HRP2 = dec(568, 1)
  pure val E0: E = { dt: ONE, mass: HRP2, kfe: scalM(3, ofInt(40000)), kfv: scalM(3, ofInt(600)), kte: scalM(3, ofInt(600)), ktv: scalM(3, ofInt(60)),
    rfe: scalM(3, ofInt(40000)), rfv: scalM(3, ofInt(600)), rte: scalM(3, ofInt(600)), rtv: scalM(3, ofInt(60)), pe: zeroV(3),
    nc: 0, model: 0, wf: false, wb: false, wa: false, wu: false }

  pure def uSize(e: E): int = 48 + 12 * e.nc
  pure def ySize(e: E): int = 6 + (if (e.wf) 6 * e.nc else 0) + (if (e.wa) 6 else 0)
  pure def sym6(v: List[int], k: int): Mat = List(List(v[k], v[k + 3], v[k + 4]), List(v[k + 3], v[k + 1], v[k + 5]), List(v[k + 4], v[k + 5], v[k + 2]))
  pure def vec3(v: List[int], k: int): List[int] = List(v[k], v[k + 1], v[k + 2])
  pure def rotOf(x: List[int]): List[int] = qexp(vec3(x, 3))
  pure def comOf(e: E, x: List[int], u: List[int]): List[int] = if (e.wb) List(u[0] - x[30], u[1] - x[31], u[2]) else vec3(u, 0)

  // total force and moment about the origin of the world
  pure def wrench(e: E, x: List[int], u: List[int], q: List[int]): List[int] = {
    val R = qmat(q)
    val p = vec3(x, 0)
    val fa = mv(R, vec3(u, 42))
    val f = vadd(fa, vec3(x, 24))
    val t = vadd(vadd(mv(R, vec3(u, 45)), crossV(p, fa)), vec3(x, 27))
    if (e.model == 1) range(0, e.nc).foldl(f.concat(t), (w, i) => {
      val Rc = mm(R, qmat(qexp(vec3(u, 51 + 12 * i))))
      val fi = mv(Rc, vec3(x, 12 + 6 * i))
      val at = vadd(mv(R, vec3(u, 48 + 12 * i)), p)
      vadd(w, fi.concat(vadd(mv(Rc, vec3(x, 15 + 6 * i)), crossV(at, fi))))
    })
    else vadd(f, vec3(x, 12)).concat(vadd(t, vec3(x, 15)))
  }
  // rate of the momenta that the wrench and the weight impose
  pure def momentaRate(e: E, x: List[int], u: List[int]): List[int] = {
    val q = rotOf(x)
    val w = wrench(e, x, u, q)
    val weight = vscale(e.mass, G)
    vsub(vec3(w, 0), weight).concat(vsub(vec3(w, 3), crossV(vadd(qrotV(q, comOf(e, x, u)), vec3(x, 0)), weight)))
  }
  // Newton and Euler about the origin of the world, solved for both accelerations
  pure def accelerations(e: E, x: List[int], u: List[int]): List[int] = {
    val q = rotOf(x)
    val R = qmat(q)
    val p = vec3(x, 0)
    val w = vec3(x, 9)
    val rate = momentaRate(e, x, u)
    val c = mv(R, comOf(e, x, u))
    // acceleration of the centre of mass apart from those of the frame
    val a0 = vadd(vadd(crossV(w, crossV(w, c)), vmulInt(2, crossV(w, mv(R, vec3(u, 3))))), mv(R, vec3(u, 6)))
    val vf = vsub(vscale(div(ONE, e.mass), vec3(rate, 0)), a0)
    val J = mm(mm(R, sym6(u, 9)), transpM(R))
    val gyro = vadd(vadd(crossV(w, mv(J, w)), mv(R, vadd(mv(sym6(u, 18), mtv(R, w)), vec3(u, 24)))), crossV(w, mv(R, vec3(u, 15))))
    // J b + gyro + p x rate_f + m c x a = rate_t   and   a = vf + c x b
    val rhs = vsub(vsub(vsub(vec3(rate, 3), gyro), crossV(p, vec3(rate, 0))), vscale(e.mass, crossV(c, vf)))
    val S = skew(c)
    val b = col(solveM(madd(J, mscale(e.mass, mm(S, S))), transpM(List(rhs))), 0)
    vadd(vf, crossV(c, b)).concat(b)
  }
  // contact wrenches of the elastic elements, for both contacts
  pure def elasticWrenches(e: E, x: List[int], u: List[int], q: List[int]): List[int] = {
    val R = qmat(q)
    val p = vec3(x, 0)
    val v = vec3(x, 6)
    val w = vec3(x, 9)
    if (e.model == 1) range(0, 2).foldl(List(), (l, i) => if (i >= e.nc) l.concat(zeroV(6)) else {
      val c = vec3(u, 48 + 12 * i)
      val C = mm(R, qmat(qexp(vec3(u, 51 + 12 * i))))
      val Rc = mv(R, c)
      val d = vsub(vadd(p, Rc), c)
      val dd = vadd(vadd(crossV(w, Rc), v), mv(R, vec3(u, 54 + 12 * i)))
      l.concat(vneg(vadd(mv(e.kfe, mtv(C, d)), mv(e.kfv, mtv(C, dd))))).concat(vneg(vadd(mv(e.kte, mtv(C, vec3(x, 3))), mv(e.ktv, mtv(C, w)))))
    })
    else {
      val f = range(0, e.nc).foldl(zeroV(3), (s, i) => {
        val c = vec3(u, 48 + 12 * i)
        val d = vsub(vadd(p, mv(R, c)), e.pe)
        val n = norm(d)
        vsub(s, vscale(n - norm(vsub(c, e.pe)), mv(e.rfe, vscale(div(ONE, n), d))))
      })
      vsub(f, mv(e.rfv, v)).concat(vsub(List(0, 0, -mul(e.rte[2][2], x[5])), mv(e.rtv, w))).concat(zeroV(6))
    }
  }
  pure val FADE = dec(9999, 4)
  pure def advance(e: E, x: List[int], u: List[int]): List[int] = {
    val ab = accelerations(e, x, u)
    val a = vec3(ab, 0)
    val b = vec3(ab, 3)
    val h = sq(e.dt) / 2
    val v = vec3(x, 6)
    val w = vec3(x, 9)
    val q = qmul(qexp(vadd(vscale(e.dt, w), vscale(h, b))), rotOf(x))
    val y = vadd(vec3(x, 0), vadd(vscale(e.dt, v), vscale(h, a))).concat(qlog(q)).concat(vadd(v, vscale(e.dt, a))).concat(vadd(w, vscale(e.dt, b)))
    y.concat(elasticWrenches(e, y, u, q)).concat(if (e.wu) vscale(FADE, seg(x, 24, 6)) else zeroV(6)).concat(seg(x, 30, 5))
  }
  // accelerometer and gyrometer, contact wrenches, absolute pose
  pure def sensed(e: E, x: List[int], u: List[int]): List[int] = {
    val q = rotOf(x)
    val R = qmat(q)
    val ab = accelerations(e, x, u)
    val w = vec3(x, 9)
    val b = vec3(ab, 3)
    val p = mv(R, vec3(u, 27))
    val a = vadd(vadd(vadd(crossV(b, p), crossV(w, crossV(w, p))), vmulInt(2, crossV(w, mv(R, vec3(u, 33))))), vadd(vec3(ab, 0), mv(R, vec3(u, 39))))
    val qs = qmul(q, qexp(vec3(u, 30)))
    val yaw = axisQ(2, x[34])
    qrotTV(qs, vadd(a, G)).concat(qrotTV(qs, vadd(w, mv(R, vec3(u, 36)))))
      .concat(if (e.wf) seg(x, 12, 6 * e.nc) else List())
      .concat(if (e.wa) vadd(List(x[32], x[33], 0), qrotV(yaw, vec3(x, 0))).concat(qlog(qmul(yaw, q))) else List())
  }
  // derivatives by forward differences of the given steps; columns of disabled parts are fixed
  pure def columnOn(e: E, j: int): bool = if (j < 24) true else if (j < 30) e.wu else if (j < 32) e.wb else e.wa
  pure def jacA(e: E, x: List[int], u: List[int], dx: List[int]): Mat = {
    val y = advance(e, x, u)
    transpM(range(0, 35).foldl(List(), (l, j) => l.append(if (not(columnOn(e, j))) unitV(35, j) else {
      val z = advance(e, x.replaceAt(j, x[j] + dx[j]), u)
      range(0, 35).foldl(List(), (c, i) => c.append(div(z[i] - y[i], dx[j])))
    })))
  }
  pure def jacC(e: E, x: List[int], u: List[int], dx: List[int]): Mat = {
    val y = sensed(e, x, u)
    transpM(range(0, 35).foldl(List(), (l, j) => l.append(if (not(columnOn(e, j))) zeroV(ySize(e)) else {
      val z = sensed(e, x.replaceAt(j, x[j] + dx[j]), u)
      range(0, ySize(e)).foldl(List(), (c, i) => c.append(div(z[i] - y[i], dx[j])))
    })))
  }
  // classical Runge-Kutta step of order four, contact wrenches held during the step
  pure def at(x: List[int], k: List[int], h: int): List[int] = // k: velocities and accelerations
    vadd(vec3(x, 0), vscale(h, seg(k, 0, 3))).concat(qlog(qmul(qexp(vscale(h, seg(k, 3, 3))), rotOf(x))))
      .concat(vadd(seg(x, 6, 6), vscale(h, seg(k, 6, 6)))).concat(seg(x, 12, 23))
  pure def rate(e: E, x: List[int], u: List[int]): List[int] = seg(x, 6, 6).concat(accelerations(e, x, u))
  pure def rk4(e: E, x: List[int], u: List[int], dt: int): List[int] = {
    val k1 = rate(e, x, u)
    val k2 = rate(e, at(x, k1, dt / 2), u)
    val k3 = rate(e, at(x, k2, dt / 2), u)
    val k4 = rate(e, at(x, k3, dt), u)
    val q = qmul(qexp(vscale(dt / 6, seg(k4, 3, 3))), qmul(qexp(vscale(dt / 3, seg(k3, 3, 3))), qmul(qexp(vscale(dt / 3, seg(k2, 3, 3))),
      qmul(qexp(vscale(dt / 6, seg(k1, 3, 3))), rotOf(x)))))
    val d = vscale(dt / 6, vadd(vadd(k1, k4), vmulInt(2, vadd(k2, k3))))
    val y = vadd(vec3(x, 0), seg(d, 0, 3)).concat(qlog(q)).concat(vadd(seg(x, 6, 6), seg(d, 6, 6)))
    y.concat(elasticWrenches(e, y, u, q))
  }
}
