// Shape of what every behaviour exposes: the operation performed on the public
// interface (ev) and what a user must observe right after it (obs).
// obs.tag: "ok"  = the call returns, with the given integers and reals
//          "rej" = the call is refused (assertion or exception) in a checked build
//          "any" = no claim
module common {
  type Ev = { op: str, i: List[int], r: List[int] }
  type Obs = { tag: str, i: List[int], r: List[int] }
  pure def event(o: str, ii: List[int], rr: List[int]): Ev = { op: o, i: ii, r: rr }
  pure def okObs(ii: List[int], rr: List[int]): Obs = { tag: "ok", i: ii, r: rr }
  pure val REJ: Obs = { tag: "rej", i: List(), r: List() }
  pure val ANY: Obs = { tag: "any", i: List(), r: List() }
  pure val NOEV: Ev = { op: "init", i: List(), r: List() }
}
