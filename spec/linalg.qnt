// Vectors (List[int]) and matrices (List of rows) of fixed-point reals.
module linalg {
  import fixedpoint.* from "./fixedpoint"

  pure def zeroV(n: int): List[int] = range(0, n).foldl(List(), (l_i, i) => l_i.append(0))
  pure def constV(n: int, c: int): List[int] = range(0, n).foldl(List(), (l_i, i) => l_i.append(c))
  pure def unitV(n: int, k: int): List[int] = range(0, n).foldl(List(), (l_i, i) => l_i.append(if (i == k) ONE else 0))
  pure def vadd(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(a[i] + b[i]))
  pure def vsub(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(a[i] - b[i]))
  pure def vscale(c: int, a: List[int]): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(mul(c, a[i])))
  pure def vneg(a: List[int]): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(-a[i]))
  pure def vmulInt(c: int, a: List[int]): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(c * a[i]))
  pure def dot(a: List[int], b: List[int]): int =
    range(0, a.length()).foldl(0, (s, i) => s + a[i] * b[i]) / ONE
  pure def norm2(a: List[int]): int = dot(a, a)
  pure def norm(a: List[int]): int = sqrtF(norm2(a))
  pure def vnormalize(a: List[int]): List[int] = { val n = norm(a)  range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(div(a[i], n))) }
  pure def seg(a: List[int], k: int, n: int): List[int] = range(0, n).foldl(List(), (l_i, i) => l_i.append(a[k + i]))
  pure def setSeg(a: List[int], k: int, b: List[int]): List[int] =
    range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(if (i >= k and i < k + b.length()) b[i - k] else a[i]))
  pure def vmaxabs(a: List[int]): int = a.foldl(0, (m, x) => imax(m, iabs(x)))
  pure def vsum(a: List[int]): int = a.foldl(0, (m, x) => m + x)
  pure def vset(a: List[int], k: int, v: int): List[int] = a.replaceAt(k, v)

  pure def rowsM(a: List[List[int]]): int = a.length()
  pure def colsM(a: List[List[int]]): int = if (a.length() == 0) 0 else a[0].length()
  pure def zeroM(n: int, m: int): List[List[int]] = range(0, n).foldl(List(), (r_i, i) => r_i.append(
      range(0, m).foldl(List(), (l_j, j) => l_j.append(0))))
  pure def idM(n: int): List[List[int]] = range(0, n).foldl(List(), (r_i, i) => r_i.append(
      range(0, n).foldl(List(), (l_j, j) => l_j.append(if (i == j) ONE else 0))))
  pure def diagM(d: List[int]): List[List[int]] = range(0, d.length()).foldl(List(), (r_i, i) => r_i.append(
      range(0, d.length()).foldl(List(), (l_j, j) => l_j.append(if (i == j) d[i] else 0))))
  pure def scalM(n: int, c: int): List[List[int]] = range(0, n).foldl(List(), (r_i, i) => r_i.append(
      range(0, n).foldl(List(), (l_j, j) => l_j.append(if (i == j) c else 0))))
  pure def madd(a: List[List[int]], b: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (l, i) => l.append(vadd(a[i], b[i])))
  pure def msub(a: List[List[int]], b: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (l, i) => l.append(vsub(a[i], b[i])))
  pure def mneg(a: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (l, i) => l.append(vneg(a[i])))
  pure def mscale(c: int, a: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (l, i) => l.append(vscale(c, a[i])))
  pure def col(a: List[List[int]], j: int): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(a[i][j]))
  pure def transpM(a: List[List[int]]): List[List[int]] =
    range(0, colsM(a)).foldl(List(), (l, j) => l.append(col(a, j)))
  pure def mv(a: List[List[int]], v: List[int]): List[int] = range(0, a.length()).foldl(List(), (l_i, i) => l_i.append(dot(a[i], v)))
  // transpose(a) * v without building the transpose
  pure def mtv(a: List[List[int]], v: List[int]): List[int] = range(0, colsM(a)).foldl(List(), (l_j, j) => l_j.append(dot(col(a, j), v)))
  pure def mm(a: List[List[int]], b: List[List[int]]): List[List[int]] = {
    val bt = transpM(b)
    range(0, a.length()).foldl(List(), (l, i) => l.append(range(0, bt.length()).foldl(List(), (l_j, j) => l_j.append(dot(a[i], bt[j])))))
  }
  // a * transpose(b)
  pure def mmt(a: List[List[int]], b: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (l, i) => l.append(range(0, b.length()).foldl(List(), (l_j, j) => l_j.append(dot(a[i], b[j])))))
  pure def symM(a: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (r_i, i) => r_i.append(
      range(0, a.length()).foldl(List(), (l_j, j) => l_j.append((a[i][j] + a[j][i]) / 2))))
  pure def block(a: List[List[int]], i0: int, j0: int, n: int, m: int): List[List[int]] =
    range(0, n).foldl(List(), (r_i, i) => r_i.append(
      range(0, m).foldl(List(), (l_j, j) => l_j.append(a[i0 + i][j0 + j]))))
  pure def setBlock(a: List[List[int]], i0: int, j0: int, b: List[List[int]]): List[List[int]] =
    range(0, a.length()).foldl(List(), (r_i, i) => r_i.append(
      range(0, colsM(a)).foldl(List(), (l_j, j) => l_j.append(if (i >= i0 and i < i0 + b.length() and j >= j0 and j < j0 + colsM(b)) b[i - i0][j - j0] else a[i][j]))))
  pure def setCol(a: List[List[int]], j0: int, v: List[int]): List[List[int]] =
    range(0, a.length()).foldl(List(), (r_i, i) => r_i.append(
      range(0, colsM(a)).foldl(List(), (l_j, j) => l_j.append(if (j == j0) v[i] else a[i][j]))))
  pure def flat(a: List[List[int]]): List[int] = a.foldl(List(), (l, r) => l.concat(r))
  pure def unflat(v: List[int], n: int, m: int): List[List[int]] = range(0, n).foldl(List(), (r_i, i) => r_i.append(
      range(0, m).foldl(List(), (l_j, j) => l_j.append(v[i * m + j]))))
  pure def outer(a: List[int], b: List[int]): List[List[int]] = range(0, a.length()).foldl(List(), (r_i, i) => r_i.append(
      range(0, b.length()).foldl(List(), (l_j, j) => l_j.append(mul(a[i], b[j])))))
  pure def mzero(a: List[List[int]]): bool = a.foldl(true, (z, r) => z and r.foldl(true, (y, x) => y and x == 0))

  // Gauss-Jordan with partial pivoting on [a | b]; returns a^-1 b
  pure def solveM(a: List[List[int]], b: List[List[int]]): List[List[int]] = {
    val n = a.length()
    val aug = range(0, n).foldl(List(), (l, i) => l.append(a[i].concat(b[i])))
    val w = n + colsM(b)
    val red = range(0, n).foldl(aug, (m, k) => {
      val p = range(k, n).foldl(k, (best, i) => if (iabs(m[i][k]) > iabs(m[best][k])) i else best)
      val rk = m[p]
      val m1 = m.replaceAt(p, m[k])
      val piv = range(0, w).foldl(List(), (l_j, j) => l_j.append(if (j < k) 0 else div(rk[j], rk[k])))
      range(0, n).foldl(m1, (mm0, i) =>
        if (i == k) mm0.replaceAt(i, piv)
        else {
          val f = mm0[i][k]
          if (f == 0) mm0 else {
            val ri = mm0[i]
            mm0.replaceAt(i, range(0, w).foldl(List(), (l_j, j) => l_j.append(if (j < k) ri[j] else ri[j] - mul(f, piv[j]))))
          }
        })
    })
    range(0, n).foldl(List(), (l, i) => l.append(seg(red[i], n, colsM(b))))
  }
  pure def invM(a: List[List[int]]): List[List[int]] = solveM(a, idM(a.length()))

  // all leading principal minors of (a + eps I) positive, by elimination
  pure def isPosDef(a: List[List[int]], eps: int): bool = {
    val n = a.length()
    val s = madd(a, scalM(n, eps))
    range(0, n).foldl((true, s), (acc, k) => {
      val m = acc._2
      if (not(acc._1) or m[k][k] <= 0) (false, m)
      else (true, range(k + 1, n).foldl(m, (mm0, i) => {
        val f = div(mm0[i][k], m[k][k])
        mm0.replaceAt(i, range(0, n).foldl(List(), (l_j, j) => l_j.append(mm0[i][j] - mul(f, m[k][j]))))
      }))
    })._1
  }
  pure def isSym(a: List[List[int]]): bool =
    range(0, a.length()).foldl(true, (z, i) => z and range(0, a.length()).foldl(true, (y, j) => y and a[i][j] == a[j][i]))

  // ---- pseudo-random draws from one nondeterministic seed ----
  pure val RP: int = 2^61 - 1
  pure def rnd(s: int, i: int): int = {
    val x = (s + (i + 1) * 1181783497276652981) % RP
    val y = (((x * x) % RP) * x + 982451653) % RP
    ((y * 6364136223846793005) % RP) / 2^13
  }
  pure def rint(s: int, i: int, lo: int, hi: int): int = lo + rnd(s, i) % (hi - lo + 1)
  // dyadic real in [-4, 4], with 0 and +-1 over-represented
  pure def rreal(s: int, i: int): int = {
    val h = rnd(s, i)
    val c = h % 12
    val n = (h / 16) % 1025
    if (c == 0) 0 else if (c == 1) ONE else if (c == 2) -ONE else ofDy(n - 512, 7)
  }
  // dyadic real in (0, 4]
  pure def rpos(s: int, i: int): int = ofDy(1 + rnd(s, i) % 512, 7)
  // dyadic real in [-1, 1]
  pure def runit(s: int, i: int): int = ofDy(rnd(s, i) % 513 - 256, 8)
  pure def rvec(s: int, i: int, n: int): List[int] = range(0, n).foldl(List(), (l_k, k) => l_k.append(rreal(s, 1000 * (i + 1) + k)))
  pure def ruvec(s: int, i: int, n: int): List[int] = range(0, n).foldl(List(), (l_k, k) => l_k.append(runit(s, 1000 * (i + 1) + k)))
  pure def rmat(s: int, i: int, n: int, m: int): List[List[int]] = range(0, n).foldl(List(), (r_a, a) => r_a.append(
      range(0, m).foldl(List(), (l_b, b) => l_b.append(rreal(s, 1000 * (i + 1) + a * m + b)))))
  // symmetric positive definite matrix: L L^T + I/4 with small dyadic L, exact
  pure def rspd(s: int, i: int, n: int): List[List[int]] = {
    val l = range(0, n).foldl(List(), (r_a, a) => r_a.append(
      range(0, n).foldl(List(), (l_b, b) => l_b.append(ofDy(rnd(s, 1000 * (i + 1) + a * n + b) % 17 - 8, 3)))))
    madd(mmt(l, l), scalM(n, ofDy(1, 2)))
  }
  pure val SEEDS: int = 2^60
}
