// C02: time-indexed sequences and the text files they are written to and read
// from.  A file is a list of lines of numbers; a sequence is a first index and a
// list of values, as in seq.qnt.
module files {
  import fixedpoint.* from "./fixedpoint"
  import linalg.* from "./linalg"
  import common.* from "./common"

  type Seq = { first: int, vals: List[List[int]] }
  // w: numbers per line when all lines have the same shape, else 0
  type File = { exists: bool, lines: List[List[int]], stamped: bool, w: int, contig: bool }
  var kind: int           // 0: sequences of matrices, 1: sequences of vectors
  var nr: int
  var nc: int
  var sq1: List[Seq]      // two sequences
  var fs: List[File]      // two files
  var dead: bool
  var ev: Ev
  var obs: Obs

  pure val NOFILE: File = { exists: false, lines: List(), stamped: true, w: 0, contig: true }
  pure val EMPTY: Seq = { first: 0, vals: List() }
  pure def allVals(v: List[List[int]]): List[int] = v.foldl(List(), (l, x) => l.concat(x))
  pure def look(q: Seq): Obs = okObs(
    List(q.first, q.vals.length()).concat(q.vals.foldl(List(), (l, x) => l.append(x.length()))), allVals(q.vals))
  // a value with at most six significant digits
  pure def sixDigits(s: int, i: int): int = {
    val h = rnd(s, i)
    val m = (h / 8) % 1999999 - 999999
    val c = h % 8
    if (c == 0) 0 else if (c == 1) ofInt(m) else if (c == 2) dec(m, 1) else if (c == 3) dec(m, 2)
    else if (c == 4) dec(m, 3) else if (c == 5) dec(m, 4) else if (c == 6) ofInt(m % 10) else dec(m % 1000, 3)
  }
  pure def sixVec(s: int, i: int, n: int): List[int] = range(0, n).foldl(List(), (l, k) => l.append(sixDigits(s, 100 * i + k)))
  // one line of the file per element: the index, then the values row by row
  pure def linesOf(q: Seq): List[List[int]] =
    range(0, q.vals.length()).foldl(List(), (l, k) => l.append(List(ofInt(q.first + k)).concat(q.vals[k])))
  pure def follows(ls: List[List[int]], q: Seq): bool =
    ls == List() or q.vals == List() or ls[ls.length() - 1][0] == ofInt(q.first - 1)

  action goTo(e: Ev, i: int, q: Seq, f: List[File]): bool = all {
    ev' = e, obs' = look(q), kind' = kind, nr' = nr, nc' = nc, sq1' = sq1.replaceAt(i, q), fs' = f, dead' = false }

  action init = all { ev' = NOEV, obs' = ANY, kind' = 0, nr' = 1, nc' = 1, sq1' = List(EMPTY, EMPTY),
                      fs' = List(NOFILE, NOFILE), dead' = true }
  action create = {
    nondet s = oneOf(0.to(SEEDS))
    val kd = rint(s, 0, 0, 1)
    val r = rint(s, 1, 1, 3)
    val c = if (kd == 1) 1 else rint(s, 2, 1, 3)
    all { ev' = event("new", List(kd, r, c), List()), obs' = look(EMPTY), kind' = kd, nr' = r, nc' = c,
          sq1' = List(EMPTY, EMPTY), fs' = List(NOFILE, NOFILE), dead' = false }
  }
  // store a value at the next index (or anywhere when empty)
  action add = {
    nondet i = oneOf(Set(0, 1))
    nondet s = oneOf(0.to(SEEDS))
    val q = sq1[i]
    val k = if (q.vals == List() and rint(s, 7, 0, 3) == 0) rint(s, 8, -4, 120) else q.first + q.vals.length()
    val f = if (q.vals == List()) k else q.first
    val x = sixVec(s, 1, nr * nc)
    goTo(event("add", List(i, k), x), i, { first: f, vals: q.vals.append(x) }, fs)
  }
  action write = {
    nondet i = oneOf(Set(0, 1))
    nondet f = oneOf(Set(0, 1))
    nondet clr = oneOf(Set(0, 1))
    nondet app = oneOf(Set(0, 1))
    val q = sq1[i]
    val old = if (app == 1) fs[f] else NOFILE.with("exists", true)
    val okApp = old.lines == List() or (old.stamped and old.w == nr * nc)
    val nf = { exists: true, stamped: true, w: nr * nc, lines: old.lines.concat(linesOf(q)),
               contig: old.contig and follows(old.lines, q) }
    val q2 = if (clr == 1) { first: q.first + q.vals.length(), vals: List() } else q
    all { okApp, goTo(event("write", List(i, f, clr, app), List()), i, q2, fs.replaceAt(f, nf)) }
  }
  // the file cannot be opened: the caller is told and nothing is lost
  action writeFail = {
    nondet i = oneOf(Set(0, 1))
    nondet clr = oneOf(Set(0, 1))
    nondet app = oneOf(Set(0, 1))
    goTo(event("writeFail", List(i, clr, app), List()), i, sq1[i], fs)
  }
  // a file produced by something else: without time stamps, regular or ragged
  action putFile = {
    nondet f = oneOf(Set(0, 1))
    nondet s = oneOf(0.to(SEEDS))
    nondet reg = oneOf(Set(0, 1))
    nondet endl = oneOf(Set(0, 1))   // whether the last line ends with a newline
    val n = rint(s, 0, 1, 4)
    val ls = range(0, n).foldl(List(), (l, k) => l.append(sixVec(s, 1 + k, if (reg == 1) nr * nc else rint(s, 90 + k, 1, 5))))
    goTo(event("put", List(f, endl).concat(ls.foldl(List(), (l, x) => l.append(x.length()))), allVals(ls)), 0, sq1[0],
         fs.replaceAt(f, { exists: true, lines: ls, stamped: false, w: if (reg == 1) nr * nc else 0, contig: true }))
  }
  // reading back with the shape it was written with
  action read = {
    nondet i = oneOf(Set(0, 1))
    nondet f = oneOf(Set(0, 1))
    val fl = fs[f]
    val q = if (fl.lines == List()) EMPTY
      else if (fl.stamped) { first: fl.lines[0][0] / ONE, vals: fl.lines.foldl(List(), (l, x) => l.append(x.tail())) }
      else { first: 0, vals: fl.lines }
    all { fl.exists, fl.contig, fl.w == nr * nc,
      goTo(event("read", List(i, f, b2i(fl.stamped)), List()), i, q, fs) }
  }
  // as a stream of numbers cut into elements of the given shape, no time stamps
  action readPlain = {
    nondet f = oneOf(Set(0, 1))
    nondet r = oneOf(1.to(3))
    val fl = fs[f]
    val nums = allVals(fl.lines)
    val n = nums.length() / r
    val q = { first: 0, vals: range(0, n).foldl(List(), (l, k) => l.append(nums.slice(k * r, k * r + r))) }
    all { fl.exists, n * r == nums.length(),
      ev' = event("readPlain", List(f, r), List()), obs' = look(q), kind' = kind, nr' = nr, nc' = nc,
      sq1' = sq1, fs' = fs, dead' = false }
  }
  // one vector per line
  action readVectors = {
    nondet f = oneOf(Set(0, 1))
    nondet ts = oneOf(Set(0, 1))
    val fl = fs[f]
    val q = if (fl.lines == List()) EMPTY
      else if (ts == 1) { first: fl.lines[0][0] / ONE, vals: fl.lines.foldl(List(), (l, x) => l.append(x.tail())) }
      else { first: 0, vals: fl.lines }
    all { fl.exists, fl.contig, ts == 1 implies fl.stamped,
      ev' = event("readVectors", List(f, ts), List()), obs' = look(q), kind' = kind, nr' = nr, nc' = nc,
      sq1' = sq1, fs' = fs, dead' = false }
  }
  action ops = any { add, add, add, add, add, write, write, writeFail, putFile, read, read, readPlain, readVectors }
  action step = if (dead) create else any { ops, ops, ops, ops, ops, ops, ops, ops, ops, ops, create }

  // written then read gives the same sequence: every stamped contiguous file holds
  // consecutive indices and complete elements
  val inv = fs.foldl(true, (b, f) => b and ((f.exists and f.stamped and f.contig) implies
    range(0, f.lines.length()).foldl(true, (c, k) => c and f.lines[k].length() == f.w + 1
      and f.lines[k][0] == f.lines[0][0] + ofInt(k))))
}
