// C08: the simulator.  A trajectory x[xf..], the measurements y[yf..] of the states
// left behind, and the recorded inputs; an input stays in force until the next one.
module simulator {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"

  type Mat = List[List[int]]
  type In = { k: int, u: List[int] }
  type S = { n: int, p: int, q: int, fs: int, // sizes; seed of the model in use, 0 = none
             xf: int, x: Mat, yf: int, y: Mat, u: List[In] } // inputs by increasing time
  var m: S
  var dead: bool
  var ev: Ev
  var obs: Obs

  // ------------------------------------------------------------------ the model
  pure def coef(s: int, i: int, r: int, c: int): Mat =
    range(0, r).foldl(List(), (l, a) => l.append(range(0, c).foldl(List(), (l2, b) => l2.append(runit(s, 1000 * i + 10 * a + b)))))
  pure def model(s: S): List[int] = flat(coef(s.fs, 1, s.n, s.n)).concat(flat(coef(s.fs, 2, s.n, s.p)))
    .concat(flat(coef(s.fs, 3, s.q, s.n))).concat(flat(coef(s.fs, 4, s.q, s.p)))
  pure def bend(v: List[int], w: List[int], k: int, g: int): List[int] =
    range(0, v.length()).foldl(List(), (l, i) => l.append(v[i] / g + mul(v[i], w[0]) / 64 + ofDy(k, 4)))
  pure def fx(s: S, x: List[int], u: List[int], k: int): List[int] =
    bend(vadd(mv(coef(s.fs, 1, s.n, s.n), x), mv(coef(s.fs, 2, s.n, s.p), u)), u, k, 2)
  pure def hx(s: S, x: List[int], u: List[int], k: int): List[int] =
    bend(vadd(mv(coef(s.fs, 3, s.q, s.n), x), mv(coef(s.fs, 4, s.q, s.p), u)), x, -k, 1)

  // ------------------------------------------------------------------ simulator
  pure def has(s: S): bool = s.x.length() > 0
  pure def now(s: S): int = s.xf + s.x.length() - 1
  pure def yNext(s: S): int = s.yf + s.y.length()
  // number of inputs recorded at or before k
  pure def upto(s: S, k: int): int = s.u.foldl(0, (c, e) => if (e.k <= k) c + 1 else c)
  pure def inForce(s: S, k: int): List[int] = s.u[upto(s, k) - 1].u
  pure def record(s: S, e: In): S =
    s.with("u", s.u.select(x => x.k < e.k).append(e).concat(s.u.select(x => x.k > e.k)))
  // the state is left: its measurement is taken (and those of states set after the last one measured)
  pure def once(s: S): S = {
    val k = now(s)
    val from = if (s.y.length() == 0) k else yNext(s)
    val a = range(from, k + 1).foldl(s, (q, i) => q.with("y", q.y.append(hx(q, q.x[i - q.xf], inForce(q, i), i))))
    a.with("yf", if (s.y.length() == 0) k else s.yf)
     .with("x", a.x.append(fx(a, a.x[k - a.xf], inForce(a, k), k)))
  }
  pure def simTo(s: S, k: int): S = range(0, imax(0, k - now(s))).foldl(s, (q, i) => once(q))
  pure def upToMeasure(s: S, k: int): S = if (s.y.length() > 0 and k < yNext(s)) s else simTo(s, imax(k, now(s)) + 1)
  // whether the simulation can go on from the current time
  pure def ready(s: S): bool = has(s) and s.fs != 0 and
    upto(s, if (s.y.length() == 0) now(s) else yNext(s)) > 0

  pure def look(s: S): Obs = if (has(s)) okObs(List(1, now(s), s.fs), s.x[s.x.length() - 1]) else okObs(List(0, s.fs), List())
  pure val NEW: S = { n: 1, p: 1, q: 1, fs: 0, xf: 0, x: List(), yf: 0, y: List(), u: List() }
  action say(o: str, ii: List[int], rr: List[int], ob: Obs, s: S): bool = all { ev' = event(o, ii, rr), obs' = ob, m' = s, dead' = false }
  action goTo(o: str, ii: List[int], rr: List[int], s: S): bool = say(o, ii, rr, okObs(if (has(s)) List(1, now(s)) else List(0), if (has(s)) s.x[s.x.length() - 1] else List()), s)
  action refuse(o: str, ii: List[int], rr: List[int]): bool = all { ev' = event(o, ii, rr), obs' = REJ, m' = m, dead' = true }
  // as when r holds, else refused
  action init = all { ev' = NOEV, obs' = ANY, m' = NEW, dead' = true }
  action create = {
    nondet s = oneOf(0.to(SEEDS))
    val n = rint(s, 1, 1, 3)
    val p = rint(s, 2, 1, 2)
    val q = rint(s, 3, 1, 3)
    goTo("new", List(n, p, q), List(), NEW.with("n", n).with("p", p).with("q", q))
  }
  action functor = {
    nondet s = oneOf(1.to(SEEDS))
    val a = m.with("fs", s)
    goTo("functor", List(), model(a), a)
  }
  action setState = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(5))
    val x = rvec(s, 1, m.n)
    val k = if (not(has(m))) rint(s, 2, 0, 4) else if (c < 2) rint(s, 2, m.xf, now(m)) else if (c < 4) now(m) + 1 else now(m)
    val keepY = imin(m.y.length(), imax(0, k - m.yf))
    goTo("state", List(k), x, if (not(has(m))) m.with("xf", k).with("x", List(x)) else
      m.with("x", m.x.slice(0, k - m.xf).append(x)).with("y", m.y.slice(0, keepY)))
  }
  action badState = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(Set(0, 1))
    all { has(m), refuse("state", List(if (c == 0) m.xf - 1 else now(m) + rint(s, 2, 2, 4)), rvec(s, 1, m.n)) }
  }
  action setInput = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(5))
    val k = if (not(has(m))) rint(s, 2, 0, 4) else if (c < 3) now(m) else now(m) + rint(s, 2, 1, 6)
    val u = rvec(s, 1, m.p)
    // a state still to be measured keeps the input it had
    all { m.y.length() == 0 or k >= yNext(m), goTo("input", List(k), u, record(m, { k: k, u: u })) }
  }
  action getInput = {
    nondet k = oneOf(0.to(30))
    if (upto(m, k) > 0) say("getInput", List(k), List(), okObs(List(), inForce(m, k)), m) else refuse("getInput", List(k), List())
  }
  action simulate = if (ready(m)) goTo("simulate", List(), List(), once(m)) else refuse("simulate", List(), List())
  action simulateTo = {
    nondet d = oneOf(0.to(6))
    val k = if (has(m)) now(m) + d - 1 else d + 1
    if (has(m) and (ready(m) or d <= 1)) goTo("simulateTo", List(k), List(), simTo(m, k)) else refuse("simulateTo", List(k), List())
  }
  action getState = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(Set(0, 1))
    val k = if (not(has(m))) 1 else if (c == 0) rint(s, 2, m.xf, now(m)) else now(m) + rint(s, 2, 1, 5)
    if (has(m) and (ready(m) or c == 0)) {
      val a = simTo(m, k)
      say("getState", List(k), List(), okObs(List(now(a)), a.x[k - a.xf]), a)
    } else refuse("getState", List(k), List())
  }
  action getMeasure = {
    nondet s = oneOf(0.to(SEEDS))
    nondet c = oneOf(0.to(2))
    val past = m.y.length() > 0 and c == 0
    val k = if (not(has(m))) 1 else if (past) rint(s, 2, m.yf, now(m)) else now(m) + rint(s, 2, 0, 4)
    if (has(m) and (ready(m) or (past and k < yNext(m)))) {
      val a = upToMeasure(m, k)
      say("getMeasure", List(k), List(), okObs(List(now(a)), a.y[k - a.yf]), a)
    } else refuse("getMeasure", List(k), List())
  }
  action tooEarly = {
    nondet w = oneOf(0.to(3))
    all { has(m), w % 2 == 1 implies m.y.length() > 0,
      refuse(if (w == 0) "getState" else if (w == 1) "getMeasure" else if (w == 2) "stateArray" else "measureArray",
        if (w < 2) List((if (w == 0) m.xf else m.yf) - 1) else List((if (w == 2) m.xf else m.yf) - 1, 2), List()) }
  }
  action stateArray = {
    nondet s = oneOf(0.to(SEEDS))
    nondet d = oneOf(1.to(5))
    val k = if (has(m)) rint(s, 2, m.xf, now(m) + 2) else 0
    all { has(m), ready(m) or k + d - 1 <= now(m), {
      val a = simTo(m, k + d - 1)
      say("stateArray", List(k, d), List(), okObs(List(now(a), k, d), flat(a.x.slice(k - a.xf, k - a.xf + d))), a) } }
  }
  action measureArray = {
    nondet s = oneOf(0.to(SEEDS))
    nondet d = oneOf(1.to(5))
    val k = if (not(has(m))) 0 else if (m.y.length() > 0) rint(s, 2, m.yf, now(m) + 2) else rint(s, 2, now(m), now(m) + 2)
    all { has(m), ready(m) or (m.y.length() > 0 and k + d <= yNext(m)), {
      val a = upToMeasure(m, k + d - 1)
      say("measureArray", List(k, d), List(), okObs(List(now(a), k, d), flat(a.y.slice(k - a.yf, k - a.yf + d))), a) } }
  }
  action resetDynamics = goTo("resetDynamics", List(), List(), m.with("x", List()).with("y", List()).with("u", List()))
  action resetSimulator = goTo("resetSimulator", List(), List(), m.with("x", List()).with("y", List()).with("u", List()).with("fs", 0))
  action short = all { m.x.length() < 40, any { setState, setInput, setInput, setInput, functor, getInput,
    simulate, simulate, simulate, simulateTo, getState, getState, getMeasure, getMeasure, stateArray, measureArray } }
  // what is missing, in any order; without a model the simulation is refused
  action prepare = any { if (m.fs == 0) functor else setInput, if (not(has(m))) setState else setInput, setInput }
  action tryOut = if (has(m) and m.fs == 0 and upto(m, now(m)) > 0) any { simulate, getState, simulateTo } else prepare
  action rare = any { badState, tooEarly, resetDynamics, resetSimulator }
  action step = if (dead) create else if (not(ready(m))) any { prepare, prepare, prepare, prepare, prepare, prepare, tryOut, short }
    else any { short, short, short, short, short, short, short, short, short, rare }

  val inv = all {
    // measurements belong to states of the trajectory
    m.y.length() > 0 implies (m.yf >= m.xf and yNext(m) <= now(m) + 1),
    // one input per time, in order
    m.u.length() > 1 implies range(1, m.u.length()).foldl(true, (b, i) => b and m.u[i - 1].k < m.u[i].k)
  }
}
