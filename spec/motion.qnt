// Rigid motions with constant accelerations, and what inertial sensors and fixed contacts see of them.
module motion {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import rot.* from "./rot"

  type Mat = List[List[int]]
  type X = { p: List[int], q: List[int], v: List[int], w: List[int], a: List[int], b: List[int] }
  pure val G = List(0, 0, dec(98, 1))
  pure def move(dt: int, x: X): X = {
    val h = sq(dt) / 2
    { p: vadd(x.p, vadd(vscale(dt, x.v), vscale(h, x.a))), v: vadd(x.v, vscale(dt, x.a)),
      q: qmul(qexp(vadd(vscale(dt, x.w), vscale(h, x.b))), x.q), w: vadd(x.w, vscale(dt, x.b)), a: x.a, b: x.b }
  }
  // flexibility x, sensor motion u in the flexible frame; displacement of the contacts
  pure def flexReadings(x: X, u: X): List[int] = {
    val R = qmat(x.q)
    val p = mv(R, u.p)
    val v = mv(R, u.v)
    val a = vadd(vadd(vadd(crossV(x.b, p), crossV(x.w, crossV(x.w, p))), vmulInt(2, crossV(x.w, v))), vadd(x.a, mv(R, u.a)))
    val w = vadd(x.w, mv(R, u.w))
    val q = qmul(x.q, u.q)
    qrotTV(q, vadd(a, G)).concat(qrotTV(q, w))
  }
  pure def contactsAt(ct: Mat, x: X): List[int] = ct.foldl(List(), (l, c) => l.concat(vsub(vadd(qrotV(x.q, c), x.p), c)))
}
