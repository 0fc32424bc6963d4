// Fixed-point reals: the integer n stands for the real n / 2^110 (about 33
// decimal digits).  Every module computes its expected observations with these
// operators, so the specification is executable and serves as the oracle.
module fixedpoint {
  pure val SH: int = 110
  pure val ONE: int = 2^110
  pure val HALF: int = 2^109
  pure val TWO: int = 2^111

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def isign(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def pmod(a: int, m: int): int = { val r = a % m  if (r < 0) r + m else r }

  pure def ofInt(a: int): int = a * ONE
  // the real a / 2^k, exact
  pure def ofDy(a: int, k: int): int = a * 2^(110 - k)
  // the real a / b
  pure def ratio(a: int, b: int): int = a * ONE / b
  // the real a * 10^-k
  pure def dec(a: int, k: int): int = a * ONE / 10^k
  pure def mul(a: int, b: int): int = a * b / ONE
  pure def div(a: int, b: int): int = a * ONE / b
  pure def sq(a: int): int = a * a / ONE

  // integer square root by Newton iteration from above
  pure def isqrt(n: int): int = {
    if (n <= 0) 0 else {
      val start = range(0, 80).foldl(1, (x, i) => if (x * x < n) x * 16 else x)
      range(0, 12).foldl(start, (x, i) => { val y = (x + n / x) / 2  if (y < x) y else x })
    }
  }
  pure def sqrtF(a: int): int = isqrt(a * ONE)

  // pi * 2^110
  pure val PI: int = 4078020416507594100416871540687068
  pure val TWOPI: int = 2 * PI

  // sine and cosine by Taylor series after reduction to [-pi, pi]
  pure def reduceAngle(a: int): int = {
    val r = pmod(a, TWOPI)
    if (r > PI) r - TWOPI else r
  }
  pure def sinF(a: int): int = {
    val x = reduceAngle(a)
    val x2 = sq(x)
    range(1, 24).foldl((x, x), (acc, k) => {
      val t = -(mul(acc._1, x2) / ((2 * k) * (2 * k + 1)))
      (t, acc._2 + t)
    })._2
  }
  pure def cosF(a: int): int = {
    val x = reduceAngle(a)
    val x2 = sq(x)
    range(1, 24).foldl((ONE, ONE), (acc, k) => {
      val t = -(mul(acc._1, x2) / ((2 * k - 1) * (2 * k)))
      (t, acc._2 + t)
    })._2
  }
  pure def expF(a: int): int = {
    // e^a = (e^(a/256))^256
    val x = a / 256
    val e = range(1, 20).foldl((ONE, ONE), (acc, k) => {
      val t = mul(acc._1, x) / k
      (t, acc._2 + t)
    })._2
    range(0, 8).foldl(e, (y, i) => sq(y))
  }
  // arctangent of x >= 0 after three halvings: atan x = 2 atan (x / (1 + sqrt(1 + x^2)))
  pure def atanPos(x: int): int = {
    val y = range(0, 4).foldl(x, (z, i) => div(z, ONE + sqrtF(ONE + sq(z))))
    val y2 = sq(y)
    val s = range(1, 32).foldl((y, y), (acc, k) => {
      val t = -mul(acc._1, y2)
      (t, acc._2 + t / (2 * k + 1))
    })._2
    16 * s
  }
  pure def atanF(x: int): int = if (x < 0) -atanPos(-x) else atanPos(x)
  pure def atan2F(y: int, x: int): int = {
    if (x == 0 and y == 0) 0
    else if (iabs(x) >= iabs(y)) {
      val a = atanF(div(y, x))
      if (x > 0) a else if (y >= 0) a + PI else a - PI
    } else {
      val a = atanF(div(x, y))
      if (y > 0) PI / 2 - a else -PI / 2 - a
    }
  }
  pure def asinF(x: int): int = atan2F(x, sqrtF(ONE - sq(x)))
  pure def acosF(x: int): int = atan2F(sqrtF(ONE - sq(x)), x)
}
