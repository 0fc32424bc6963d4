// Rotations over fixed-point reals: unit quaternions (x, y, z, w), 3x3 matrices,
// rotation vectors, roll-pitch-yaw.
module rot {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"

  pure def crossV(a: List[int], b: List[int]): List[int] = List(
    (a[1] * b[2] - a[2] * b[1]) / ONE, (a[2] * b[0] - a[0] * b[2]) / ONE, (a[0] * b[1] - a[1] * b[0]) / ONE)
  pure def skew(v: List[int]): List[List[int]] = List(
    List(0, -v[2], v[1]), List(v[2], 0, -v[0]), List(-v[1], v[0], 0))
  pure val QID: List[int] = List(0, 0, 0, ONE)
  pure def qmul(a: List[int], b: List[int]): List[int] = List(
    (a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]) / ONE,
    (a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0]) / ONE,
    (a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3]) / ONE,
    (a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]) / ONE)
  pure def qconj(a: List[int]): List[int] = List(-a[0], -a[1], -a[2], a[3])
  pure def qmat(q: List[int]): List[List[int]] = {
    val x = q[0]
    val y = q[1]
    val z = q[2]
    val w = q[3]
    List(
      List(ONE - 2 * (y * y + z * z) / ONE, 2 * (x * y - z * w) / ONE, 2 * (x * z + y * w) / ONE),
      List(2 * (x * y + z * w) / ONE, ONE - 2 * (x * x + z * z) / ONE, 2 * (y * z - x * w) / ONE),
      List(2 * (x * z - y * w) / ONE, 2 * (y * z + x * w) / ONE, ONE - 2 * (x * x + y * y) / ONE))
  }
  pure def qrotV(q: List[int], v: List[int]): List[int] = mv(qmat(q), v)
  pure def qrotTV(q: List[int], v: List[int]): List[int] = mtv(qmat(q), v)
  // rotation vector -> quaternion
  pure def qexp(v: List[int]): List[int] = {
    val a = norm(v)
    if (a == 0) QID
    else {
      val s = sinF(a / 2)
      List(v[0] * s / a, v[1] * s / a, v[2] * s / a, cosF(a / 2))
    }
  }
  // quaternion -> rotation vector with angle in [0, pi]
  pure def qlog(q0: List[int]): List[int] = {
    val q = if (q0[3] < 0) vneg(q0) else q0
    val n = norm(List(q[0], q[1], q[2]))
    if (n == 0) List(0, 0, 0)
    else {
      val a = 2 * atan2F(n, q[3])
      List(q[0] * a / n, q[1] * a / n, q[2] * a / n)
    }
  }
  // rotation angle in [0, pi]
  pure def qangle(q: List[int]): int = 2 * atan2F(norm(List(q[0], q[1], q[2])), iabs(q[3]))
  pure def axisQ(k: int, a: int): List[int] = vset(vset(zeroV(4), k, sinF(a / 2)), 3, cosF(a / 2))
  // R = Rz(yaw) Ry(pitch) Rx(roll)
  pure def rpyQ(r: int, p: int, y: int): List[int] = qmul(qmul(axisQ(2, y), axisQ(1, p)), axisQ(0, r))
  pure def qnormalize(q: List[int]): List[int] = vnormalize(q)
  // rotation vector of a matrix, through its quaternion
  pure def matQ(m: List[List[int]]): List[int] = {
    val t = m[0][0] + m[1][1] + m[2][2]
    if (t > 0) {
      val s = 2 * sqrtF(t + ONE)
      List(div(m[2][1] - m[1][2], s), div(m[0][2] - m[2][0], s), div(m[1][0] - m[0][1], s), s / 4)
    } else if (m[0][0] >= m[1][1] and m[0][0] >= m[2][2]) {
      val s = 2 * sqrtF(ONE + m[0][0] - m[1][1] - m[2][2])
      List(s / 4, div(m[0][1] + m[1][0], s), div(m[0][2] + m[2][0], s), div(m[2][1] - m[1][2], s))
    } else if (m[1][1] >= m[2][2]) {
      val s = 2 * sqrtF(ONE + m[1][1] - m[0][0] - m[2][2])
      List(div(m[0][1] + m[1][0], s), s / 4, div(m[1][2] + m[2][1], s), div(m[0][2] - m[2][0], s))
    } else {
      val s = 2 * sqrtF(ONE + m[2][2] - m[0][0] - m[1][1])
      List(div(m[0][2] + m[2][0], s), div(m[1][2] + m[2][1], s), s / 4, div(m[1][0] - m[0][1], s))
    }
  }

  // ---- random rotations ----
  // generic, exact half turns, quarter turns, tiny and near-half-turn ones
  pure def rrotvec(s: int, i: int): List[int] = {
    val c = rint(s, 7 * i + 1, 0, 11)
    val u = ruvec(s, 50 + i, 3)
    val n = norm2(u)
    val ax = rint(s, 7 * i + 2, 0, 2)
    if (c == 0) zeroV(3)
    else if (c == 1 or n == 0) vscale(ratio(rint(s, 7 * i + 3, -4, 4), 1), unitV(3, ax))
    else if (c == 2) vscale(PI / 2 * rint(s, 7 * i + 3, -3, 3), unitV(3, ax))
    else if (c == 3) vscale(ofDy(1, rint(s, 7 * i + 3, 8, 30)), u)
    else if (c == 4) vscale(PI - ofDy(1, rint(s, 7 * i + 3, 6, 20)), vnormalize(u))
    else if (c == 5) vscale(PI + ofDy(1, rint(s, 7 * i + 3, 3, 8)), vnormalize(u))
    else vscale(ofDy(rint(s, 7 * i + 3, 1, 400), 7), vnormalize(u))
  }
  pure def rquat(s: int, i: int): List[int] = {
    val c = rint(s, 9 * i + 4, 0, 2)
    val q = qexp(rrotvec(s, i))
    if (c == 0) vneg(q) else q
  }
  // an orientation that is q or close to it
  pure def nearQ(s: int, i: int, q: List[int]): List[int] = {
    val c = rint(s, 9 * i + 7, 0, 6)
    if (c == 0) q else qmul(qexp(vscale(ofDy(1, if (c < 4) rint(s, 9 * i + 8, 16, 25) else rint(s, 9 * i + 8, 4, 15)), ruvec(s, 70 + i, 3))), q)
  }
  pure def rangle(s: int, i: int): int = {
    val c = rint(s, 9 * i + 5, 0, 9)
    if (c == 0) 0 else if (c == 1) PI / 2 else if (c == 2) -PI / 2 else ofDy(rint(s, 9 * i + 6, -402, 402), 7)
  }
}
