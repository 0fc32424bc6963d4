// C09: simulated inertial units.  The state in force is the last one set; it must fit
// the representation (quaternion or matrix) and the number of extra components.
module sensors {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"
  import rot.* from "./rot"

  type Mat = List[List[int]]
  type N = { dim: int, std: Mat, bias: List[int], sum: int }
  type S = { kind: int, mode: int, nc: int,
             has: bool, q: List[int], v: List[int], ex: List[int], asMode: int, k: int, // the state as it was given
             noise: int, n: N, sampled: bool, last: List[int] }
  var m: S
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val G = List(0, 0, dec(98, 1))
  pure val FIELD = List(0, ofInt(28), dec(-337, 1))
  pure def headSize(mode: int): int = if (mode == 1) 15 else 10
  pure def outSize(s: S): int = (if (s.kind == 0) 6 else 9) + s.nc
  // the state fits what the sensor now expects
  pure def valid(s: S): bool = s.has and s.asMode == s.mode and s.ex.length() == s.nc
  // specific force, angular velocity, magnetic field in the sensor frame; then the extra components
  pure def clean(s: S): List[int] = {
    val a = qrotTV(s.q, vadd(seg(s.v, 0, 3), G))
    val w = qrotTV(s.q, seg(s.v, 3, 3))
    a.concat(w).concat(if (s.kind == 1) qrotTV(s.q, FIELD) else List()).concat(s.ex)
  }
  pure def rowZero(r: List[int]): bool = r.foldl(true, (b, x) => b and x == 0)
  // value of the noisy components that are certain (0 elsewhere)
  pure def noisy(s: S): List[int] = {
    val c = clean(s)
    range(0, c.length()).foldl(List(), (l, i) => l.append(
      if (rowZero(s.n.std[i])) c[i] + (if (s.n.sum == 1) 2 * s.n.bias[i] else s.n.bias[i]) else 0))
  }
  pure def look(s: S): Obs = okObs(List(headSize(s.mode) + s.nc, outSize(s), s.k, s.noise), List())
  pure val NON: N = { dim: 0, std: List(), bias: List(), sum: 0 }
  pure val NEW: S = { kind: 0, mode: 0, nc: 0, has: false, q: zeroV(4), v: zeroV(6), ex: List(), asMode: 0, k: 0, noise: 0, n: NON, sampled: false, last: List() }
  action goTo(o: str, ii: List[int], rr: List[int], s: S): bool = all { ev' = event(o, ii, rr), obs' = look(s), m' = s, dead' = false }
  action say(o: str, ii: List[int], rr: List[int], ob: Obs, s: S): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = s, dead' = false }
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }
  action init = all { ev' = NOEV, obs' = ANY, m' = NEW, dead' = true }
  action create = {
    nondet kd = oneOf(Set(0, 1))
    goTo("new", List(kd), List(), NEW.with("kind", kd))
  }
  action setState = {
    nondet s = oneOf(0.to(SEEDS))
    nondet k = oneOf(0.to(99))
    // some components may be those of the previous state, or close to them
    nondet part = oneOf(0.to(7))
    val keep = m.has and part >= 2
    val turn = qexp(vscale(ofDy(1, rint(s, 4, 6, 26)), ruvec(s, 5, 3)))
    val q = if (not(keep) or part == 3) rquat(s, 1) else if (part == 4) qmul(turn, m.q) else m.q
    val v = if (not(keep) or part == 5) rvec(s, 2, 6)
      else if (part == 6) seg(rvec(s, 2, 6), 0, 3).concat(seg(m.v, 3, 3)) else if (part == 2) seg(m.v, 0, 3).concat(seg(rvec(s, 2, 6), 3, 3)) else m.v
    val ex = if (keep and part < 7 and m.ex.length() == m.nc) m.ex else rvec(s, 3, m.nc)
    // matrices are laid out column by column
    val o = if (m.mode == 1) flat(transpM(qmat(q))) else q
    goTo("state", List(k), o.concat(v).concat(ex), m.with("has", true).with("q", q).with("v", v).with("ex", ex).with("asMode", m.mode)
      .with("k", k).with("sampled", false))
  }
  action setMode = {
    nondet b = oneOf(Set(0, 1))
    goTo("mode", List(b), List(), m.with("mode", b).with("sampled", false))
  }
  action setConcat = {
    nondet n = oneOf(0.to(3))
    val s = m.with("nc", n).with("sampled", false)
    say("concat", List(n), List(), okObs(List(outSize(s), headSize(s.mode) + n, outSize(s), s.k, s.noise), List()), s)
  }
  action ask = {
    nondet how = oneOf(Set(0, 1))   // 1: noisy asked for although there is no noise
    if (valid(m)) say("ask", List(if (m.noise == 0) how else 0), List(), okObs(List(), clean(m)), m)
    else refuse("ask", List(if (m.noise == 0) how else 0), List())
  }
  pure def rows(s: S): int = range(0, s.n.dim).foldl(0, (c, i) => if (rowZero(s.n.std[i])) c else c + 1)
  action askNoisy = {
    nondet how = oneOf(Set(0, 1))   // 1: by default
    all { m.noise == 1,
      if (valid(m) and m.n.dim == outSize(m)) {
        // the components whose noise is random are only bounded
        say("askNoisy", List(b2i(m.sampled), how), List(), okObs(List(1), if (m.sampled) m.last else noisy(m)), m.with("sampled", true).with("last", if (m.sampled) m.last else noisy(m)))
      }
      else refuse("askNoisy", List(b2i(m.sampled), how), List()) }
  }
  // std: zero, or noise on some components
  pure def rstd(s: int, d: int): Mat = {
    val c = rint(s, 5, 0, 2)
    diagM(range(0, d).foldl(List(), (l, i) => l.append(if (c == 0 or rint(s, 60 + i, 0, 1) == 0) 0 else ofDy(1 + rnd(s, 70 + i) % 64, 4))))
  }
  action attach = {
    nondet s = oneOf(0.to(SEEDS))
    nondet how = oneOf(0.to(1))  // dimension at construction or later
    nondet cov = oneOf(0.to(1))  // deviation or covariance
    nondet sm = oneOf(0.to(1))
    val d = if (rint(s, 1, 0, 9) == 0) outSize(m) + rint(s, 2, -1, 1) else outSize(m)
    val sd = rstd(s, d)
    val b = rvec(s, 3, d)
    goTo("attach", List(d, how, cov, sm), flat(if (cov == 1) mm(sd, sd) else sd).concat(b),
      m.with("noise", 1).with("n", { dim: d, std: sd, bias: b, sum: sm }).with("sampled", false))
  }
  action detach = goTo("detach", List(), List(), m.with("noise", 0))
  // the same noise object again
  action reattach = all { m.n.dim > 0, goTo("reattach", List(), List(), m.with("noise", 1).with("sampled", false)) }
  action rebias = {
    nondet s = oneOf(0.to(SEEDS))
    val b = rvec(s, 3, m.n.dim)
    all { m.noise == 1, goTo("rebias", List(), b, m.with("n", m.n.with("bias", b))) }
  }
  action badNoise = {
    nondet s = oneOf(0.to(SEEDS))
    nondet w = oneOf(0.to(2))
    val d = rint(s, 1, 1, 4)
    refuse("badNoise", List(w, d), List())
  }
  // law of the samples: mean, and covariance (possibly singular)
  action law = {
    nondet s = oneOf(0.to(SEEDS))
    nondet cov = oneOf(0.to(1))
    val d = rint(s, 1, 1, 3)
    val a = range(0, d).foldl(List(), (l, i) => l.append(range(0, d).foldl(List(), (l2, j) => l2.append(
      if (rint(s, 9, 0, 2) == 0 and j == 0) 0 else runit(s, 20 + 5 * i + j) + (if (i == j) ONE else 0)))))
    all { say("law", List(d, cov), flat(if (cov == 1) mmt(a, a) else a).concat(flat(mmt(a, a))).concat(rvec(s, 3, d)), okObs(List(1), List()), m) }
  }
  action sizes = say("sizes", List(), List(), okObs(List(headSize(m.mode) + m.nc, 1, 0), zeroV(headSize(m.mode) + m.nc)), m)
  action ops = any { setState, setState, setState, setMode, setConcat, ask, ask, askNoisy, askNoisy, askNoisy, attach, detach, reattach, rebias, sizes }
  action sane = if (valid(m)) ops else any { setState, setState, setState, setState, setState, setState, setMode, setConcat, attach, sizes }
  action rare = any { law, law, law, badNoise, ask, askNoisy }
  action step = if (dead) create else any { sane, sane, sane, sane, sane, sane, sane, sane, sane, sane, rare }
  val inv = m.has implies (m.v.length() == 6)
}
