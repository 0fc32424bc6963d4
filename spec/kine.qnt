// Rigid-body kinematics with optional quantities: composition, inverse, integration, update.
module kine {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import rot.* from "./rot"

  // a quantity is an empty list (not available) or its value
  type Kine = { pos: List[int], ori: List[int], lv: List[int], av: List[int], la: List[int], aa: List[int] }

  pure val EMPTY: Kine = { pos: List(), ori: List(), lv: List(), av: List(), la: List(), aa: List() }
  pure def has(x: List[int]): bool = x.length() > 0
  pure def bit(f: int, k: int): bool = (f / 2^k) % 2 == 1
  pure def mask(x: Kine): int = b2i(has(x.pos)) + 2 * b2i(has(x.ori)) + 4 * b2i(has(x.lv)) + 8 * b2i(has(x.av))
    + 16 * b2i(has(x.la)) + 32 * b2i(has(x.aa))
  pure def vals(x: Kine): List[int] =
    x.pos.concat(if (has(x.ori)) flat(qmat(x.ori)) else List()).concat(x.lv).concat(x.av).concat(x.la).concat(x.aa)
  pure def small(x: Kine): bool = vmaxabs(x.pos) < 2^121 and vmaxabs(x.lv) < 2^119 and vmaxabs(x.av) < 2^116
    and vmaxabs(x.la) < 2^123 and vmaxabs(x.aa) < 2^119
  pure def rvOk(q: List[int]): bool = qangle(q) < dec(3139, 3)

  // ---- the laws ----
  pure def defined2(a: Kine, b: Kine): bool = has(a.ori) and (has(b.pos) or has(b.ori))
  pure def compose(a: Kine, b: Kine): Kine = {
    val r = qmat(a.ori)
    val hp = has(a.pos) and has(b.pos)
    val hv = hp and has(a.lv) and has(b.lv) and has(a.av)
    val ha = hv and has(a.la) and has(b.la) and has(a.aa)
    val hw = has(b.ori) and has(a.av) and has(b.av)
    val hd = hw and has(a.aa) and has(b.aa)
    val rp = if (hp) mv(r, b.pos) else List()
    val rv = if (hv) mv(r, b.lv) else List()
    val rw = if (hw) mv(r, b.av) else List()
    {
      pos: if (hp) vadd(rp, a.pos) else List(),
      ori: if (has(b.ori)) qmul(a.ori, b.ori) else List(),
      lv: if (hv) vadd(vadd(crossV(a.av, rp), rv), a.lv) else List(),
      av: if (hw) vadd(rw, a.av) else List(),
      la: if (ha) vadd(vadd(vadd(mv(r, b.la), crossV(a.aa, rp)), crossV(a.av, vadd(crossV(a.av, rp), vmulInt(2, rv)))), a.la) else List(),
      aa: if (hd) vadd(vadd(mv(r, b.aa), crossV(a.av, rw)), a.aa) else List()
    }
  }
  pure def inverted(a: Kine): Kine = {
    val r = qmat(a.ori)
    val hv = has(a.pos) and has(a.lv) and has(a.av)
    val ha = hv and has(a.la) and has(a.aa)
    val wp = if (hv) crossV(a.av, a.pos) else List()
    {
      pos: if (has(a.pos)) vneg(mtv(r, a.pos)) else List(),
      ori: qconj(a.ori),
      lv: if (hv) mtv(r, vsub(wp, a.lv)) else List(),
      av: if (has(a.av)) vneg(mtv(r, a.av)) else List(),
      la: if (ha) mtv(r, vadd(vsub(crossV(a.av, vsub(vmulInt(2, a.lv), wp)), a.la), crossV(a.aa, a.pos))) else List(),
      aa: if (has(a.av) and has(a.aa)) vneg(mtv(r, a.aa)) else List()
    }
  }
  pure def incr(v: List[int], a: List[int], dt: int): List[int] =
    if (has(a)) vadd(vscale(dt, v), vscale(sq(dt) / 2, a)) else vscale(dt, v)
  pure def integrated(x: Kine, dt: int): Kine = {
    pos: if (has(x.pos) and has(x.lv)) vadd(x.pos, incr(x.lv, x.la, dt)) else x.pos,
    ori: if (has(x.ori) and has(x.av)) qmul(qexp(incr(x.av, x.aa, dt)), x.ori) else x.ori,
    lv: if (has(x.lv) and has(x.la)) vadd(x.lv, vscale(dt, x.la)) else x.lv,
    av: if (has(x.av) and has(x.aa)) vadd(x.av, vscale(dt, x.aa)) else x.av,
    la: x.la, aa: x.aa }

  // update of (value, velocity, acceleration) from new ones; d is the displacement
  // from the old to the new value (empty unless both are known)
  pure def updOk(f: (bool, bool, bool), t: (bool, bool, bool), n: (bool, bool, bool)): bool =
    (not(f._1) or n._1 or t._1) and (not(f._2) or n._2 or (t._1 and n._1) or t._2)
      and (not(f._3) or n._3 or (t._2 and n._2) or (t._1 and n._1) or t._3)
  // the acceleration after the update
  pure def updAcc(fv: bool, v: List[int], a: List[int], nv: List[int], na: List[int], d: List[int], dt: int): List[int] =
    if (has(na)) na
    else if (has(v) and has(nv)) vscale(div(ONE, dt), vsub(nv, v))
    else if (has(v) and has(d) and fv) vscale(div(ONE, dt), vsub(vscale(div(ONE, dt), d), v))
    else if (has(d)) vscale(div(TWO, sq(dt)), d)
    else a
  pure def updVel(v: List[int], a: List[int], nv: List[int], d: List[int], dt: int): List[int] =
    if (has(nv)) nv else if (has(d)) vscale(div(ONE, dt), d)
    else if (has(a)) vadd(v, vscale(dt, a)) else v
  // the displacement over the step when no new value is given.  The acceleration
  // used is the one in force when it is estimated from velocities in this update.
  pure def updStep(fa: bool, v: List[int], a: List[int], nv: List[int], na: List[int], dt: int): List[int] = {
    val ua = if (has(a) and fa and not(has(na)) and has(v) and has(nv)) vscale(div(ONE, dt), vsub(nv, v)) else a
    if (has(v)) incr(v, ua, dt) else if (has(ua)) vscale(sq(dt) / 2, ua) else zeroV(3)
  }
  pure def upd(x: Kine, n: Kine, dt: int, f: int): Kine = {
    val dl = if (has(x.pos) and has(n.pos)) vsub(n.pos, x.pos) else List()
    val dr = if (has(x.ori) and has(n.ori)) qlog(qmul(n.ori, qconj(x.ori))) else List()
    {
      pos: if (not(bit(f, 0))) List() else if (has(n.pos)) n.pos
        else vadd(x.pos, updStep(bit(f, 4), x.lv, x.la, n.lv, n.la, dt)),
      ori: if (not(bit(f, 1))) List() else if (has(n.ori)) n.ori
        else qmul(qexp(updStep(bit(f, 5), x.av, x.aa, n.av, n.aa, dt)), x.ori),
      lv: if (bit(f, 2)) updVel(x.lv, x.la, n.lv, dl, dt) else List(),
      av: if (bit(f, 3)) updVel(x.av, x.aa, n.av, dr, dt) else List(),
      la: if (bit(f, 4)) updAcc(bit(f, 2), x.lv, x.la, n.lv, n.la, dl, dt) else List(),
      aa: if (bit(f, 5)) updAcc(bit(f, 3), x.av, x.aa, n.av, n.aa, dr, dt) else List()
    }
  }
  pure def updateOk(x: Kine, n: Kine, f: int): bool =
    updOk((bit(f, 0), bit(f, 2), bit(f, 4)), (has(x.pos), has(x.lv), has(x.la)), (has(n.pos), has(n.lv), has(n.la)))
      and updOk((bit(f, 1), bit(f, 3), bit(f, 5)), (has(x.ori), has(x.av), has(x.aa)), (has(n.ori), has(n.av), has(n.aa)))

  pure def flatK(k: Kine): List[int] = k.pos.concat(k.ori).concat(k.lv).concat(k.av).concat(k.la).concat(k.aa)
  // fields of n where available, else those of x
  pure def over(x: Kine, n: Kine): Kine = {
    pos: if (has(n.pos)) n.pos else x.pos, ori: if (has(n.ori)) n.ori else x.ori,
    lv: if (has(n.lv)) n.lv else x.lv, av: if (has(n.av)) n.av else x.av,
    la: if (has(n.la)) n.la else x.la, aa: if (has(n.aa)) n.aa else x.aa }
  pure def without(x: Kine, f: int): Kine = {
    pos: if (bit(f, 0)) List() else x.pos, ori: if (bit(f, 1)) List() else x.ori,
    lv: if (bit(f, 2)) List() else x.lv, av: if (bit(f, 3)) List() else x.av,
    la: if (bit(f, 4)) List() else x.la, aa: if (bit(f, 5)) List() else x.aa }
}
