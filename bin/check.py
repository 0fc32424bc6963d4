#!/usr/bin/env python3
"""Decide one property: build the code under test, generate behaviours from the
Quint specification, replay them into the real code, compare every observation.

  check.py --property C01 [--tier quick|thorough] [--samples N] [--keep]

exit 0  the property held on everything explored
exit 1  a behaviour of the code disagrees with the specification (VIOLATION line)
exit 2  the check itself failed (specification, build or harness error)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, math, os, re, shutil
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SCALE = 1 << 110
JOBS = int(os.environ.get("VP_JOBS", "8"))


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def configure(out):
    """config.h as CMake's configure step would write it"""
    d = os.path.join(out, "inc", "state-observation")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "include/state-observation/config.h.in")
    txt = open(src).read() if os.path.exists(src) else ""
    txt = re.sub(r"\$<CONFIG:(\w+)>", lambda m: "1" if m.group(1) == "Debug" else "0", txt)
    open(os.path.join(d, "config.h"), "w").write(txt)
    return os.path.join(out, "inc")


def build(harness, sources, tmp):
    """compile the adapter and the library sources; returns the replayer's path"""
    inc = configure(tmp)
    h = os.path.join(VERIF, "harness")
    base = ["-std=c++11", "-O1", "-w", "-pipe", "-DBOOST_ENABLE_ASSERT_HANDLER",
            "-ftrivial-auto-var-init=pattern", "-ffp-contract=off",
            "-include", os.path.join(h, "assert_throw.hpp"),
            "-I" + os.path.join(REPO, "include"), "-I" + inc, "-I/usr/include/eigen3", "-I" + h,
            "-DBOOST_ALLOW_DEPRECATED_HEADERS"]
    env = dict(os.environ)
    cxx = ["g++"]
    if shutil.which("ccache") and os.environ.get("VP_NO_CCACHE") is None:
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_BASEDIR"] = tmp
        env["CCACHE_NOHASHDIR"] = "1"
        cxx = ["ccache", "g++"]

    def comp(src):
        o = os.path.join(tmp, hashlib.sha1(src.encode()).hexdigest()[:10] + ".o")
        if os.path.exists(o):
            return o, None
        r = subprocess.run(cxx + base + ["-c", src, "-o", o], env=env, capture_output=True, text=True)
        return o, (None if r.returncode == 0 else f"{src}\n{r.stderr[-4000:]}")

    def attempt(srcs):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(comp, srcs))
        errs = [e for _, e in res if e]
        if errs:
            return None, "compilation failed: " + errs[0]
        exe = os.path.join(tmp, "replayer")
        r = subprocess.run(["g++"] + [o for o, _ in res] + ["-o", exe, "-lboost_timer", "-lboost_system",
                           "-lboost_chrono", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            return None, "link failed: " + r.stderr[-3000:]
        return exe, None

    hs = os.path.join(h, harness + ".cpp")
    names = [os.path.join(REPO, "src", s + ".cpp") for s in sources]
    exe = None
    if all(os.path.exists(n) for n in names):
        exe, err = attempt([hs] + names)
    if exe is None:  # a refactoring may have moved code between files
        exe, err = attempt([hs] + sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))))
    if exe is None:
        raise CheckError(err)
    return exe


# ------------------------------------------------------- spec -> behaviours

def num(v):
    return int(v["#bigint"]) if isinstance(v, dict) else v


def load_itf(path):
    """list of (op, ints, reals(Fraction numerators), tag, ints, reals)"""
    d = json.load(open(path))
    steps, keys = [], []
    for st in d["states"]:
        ev, ob = st["ev"], st["obs"]
        steps.append((ev["op"], [num(x) for x in ev["i"]], [num(x) for x in ev["r"]],
                      ob["tag"], [num(x) for x in ob["i"]], [num(x) for x in ob["r"]],
                      st.get("mbt::actionTaken", "")))
        m = {k: v for k, v in st.items() if not k.startswith("mbt::") and k != "#meta"}
        keys.append(hashlib.blake2b(json.dumps(m, sort_keys=True).encode(), digest_size=8).digest())
    return steps, keys


def quint_run(job):
    spec, main, init, step, inv, samples, steps, seed, outdir = job
    os.makedirs(outdir, exist_ok=True)
    cmd = ["quint", "run", "--main", main, "--init", init, "--step", step,
           "--max-samples", str(samples), "--n-traces", str(samples), "--max-steps", str(steps),
           "--seed", str(seed), "--n-threads", "1", "--mbt", "--verbosity", "1",
           "--out-itf", os.path.join(outdir, "t_{seq}.itf.json")]
    if inv:
        cmd += ["--invariant", inv]
    cmd.append(os.path.join(VERIF, "spec", spec))
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.join(VERIF, "spec"), timeout=3000)
    if r.returncode:
        raise CheckError(f"quint failed ({main}/{step}): " + (r.stdout + r.stderr)[-3000:])
    return outdir


def dy(n):
    """fixed-point integer -> nearest double"""
    return n / SCALE


def script_of(steps):
    out = ["T"]
    for op, ii, rr, *_ in steps:
        if op == "init":
            continue
        out.append(" ".join([op, str(len(ii))] + [str(x) for x in ii] + [str(len(rr))] +
                            [float.hex(dy(x)) for x in rr]))
    return out


# ------------------------------------------------------------- replay, compare

def run_replayer(exe, lines, timeout, cwd):
    env = dict(os.environ, MALLOC_PERTURB_="165", LC_ALL="C")
    try:
        # a change may make the code loop and allocate for ever
        r = subprocess.run(["sh", "-c", 'ulimit -v 4000000; exec "$0"', exe], input="\n".join(lines) + "\n", capture_output=True, text=True,
                           timeout=timeout, env=env, cwd=cwd, errors="replace")
        return r.stdout.split("\n")[:-1], r.returncode
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        o = o.decode(errors="replace") if isinstance(o, bytes) else o
        return o.split("\n")[:-1], "timeout"


def compare(step, line, tol, carry=None):
    """None if the observation is the one the specification expects, else text.
    carry: [largest difference accepted so far]; it may persist in the state, so it is allowed again later"""
    carry = [0.0] if carry is None else carry
    worst = carry[0]
    op, ii, rr, tag, ei, er, *_ = step
    if line is None:
        return "the code under test crashed or hung"
    parts = line.split()
    got = parts[0]
    if got == "rej":
        why = line[4:]
        if why.startswith("harness"):
            raise CheckError("adapter: %s at %s %s" % (why, op, ii))
        if tag == "rej" or tag == "any":
            return None
        return "refused (%s) where the specification accepts" % why[:200]
    if tag == "rej":
        return "accepted where the specification refuses"
    if tag == "any":
        return None
    n = int(parts[1])
    gi = [int(x) for x in parts[2:2 + n]]
    m = int(parts[2 + n])
    gr = [float(x) for x in parts[3 + n:3 + n + m]]
    if gi != ei:
        return "integers: expected %s got %s" % (ei, gi)
    if len(gr) != len(er):
        return "reals: expected %d values got %d" % (len(er), len(gr))
    ex = [dy(x) for x in er]
    # a negative tolerance is relative to each value, a positive one to the largest
    big = max([abs(x) for x in ex], default=0)
    for k, (a, b) in enumerate(zip(ex, gr)):
        sc = abs(tol) * (1 + (big if tol > 0 else abs(a))) + 2 * carry[0]
        if not abs(a - b) <= sc:
            return "real[%d]: expected %.12g got %.12g (tolerance %.3g)" % (k, a, b, sc)
        worst = max(worst, abs(a - b))
    carry[0] = worst
    return None


def replay(exe, traces, tol, timeout, cwd, one=False):
    """yields (trace index, step index, message) for the first mismatch of each trace"""
    bad = []
    k = 0
    steps_done = 0
    while k < len(traces):
        lines = []
        for t in traces[k:]:
            lines += script_of(t)
        out, rc = run_replayer(exe, lines, timeout, cwd)
        p = 0
        died = None
        for j in range(k, len(traces)):
            mism = None
            carry = [0.0]
            for s, step in enumerate(traces[j]):
                if step[0] == "init":
                    continue
                line = out[p] if p < len(out) else None
                if mism is None:
                    if step[0].startswith("new"):
                        carry[0] = 0.0
                    msg = compare(step, line, tol, carry)
                    steps_done += 1
                    if msg:
                        mism = (j, s, msg)
                if line is None:
                    died = j
                    if mism is None:
                        mism = (j, s, "the code under test crashed or hung")
                    break
                p += 1
            if mism:
                bad.append(mism)
            if died is not None:
                break
        if died is None or rc == "timeout" or (one and bad):
            break
        k = died + 1
        if len(bad) >= 8:
            break
    return bad, steps_done


# ------------------------------------------------------------------------ main

def load_conf():
    return json.load(open(os.path.join(VERIF, "bin", "properties.conf.json")))


def show(step):
    op, ii, rr, tag, ei, er, act = step
    return {"op": op, "ints": ii, "reals": [dy(x) for x in rr], "expected": tag,
            "expected_ints": ei, "expected_reals": [dy(x) for x in er]}


def decide(prop, tier, seed, args):
    conf = load_conf()[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="chk_%s_" % prop, dir=BUILD)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "distinct_states": 0,
           "actions": {}, "samples": [], "runs": []}
    viol = []
    try:
        with cf.ThreadPoolExecutor(JOBS + 2) as ex:
            runs = conf["runs"]
            harnesses = sorted({r["harness"] for r in runs})
            jobs = []
            for ri, r in enumerate(runs):
                n = r["samples"] if tier == "quick" else r.get("thorough", r["samples"] * 10)
                if args.samples:
                    n = args.samples
                parts = r.get("parts", 8)
                per = max(1, n // parts)
                for q in range(parts):
                    sd = 1 + int(hashlib.sha1(f"{seed}/{prop}/{ri}/{q}".encode()).hexdigest()[:12], 16)
                    jobs.append((ri, (r["spec"], r["main"], r.get("init", "init"), r.get("step", "step"),
                                      r.get("inv"), per, r["steps"], sd, os.path.join(tmp, f"tr_{ri}_{q}"))))
            # the compiler jobs and the simulator jobs share the cores
            fut_q = [(ri, ex.submit(quint_run, j)) for ri, j in jobs]
            exes = {}
            for h in harnesses:
                hb = os.path.join(tmp, h)
                os.makedirs(hb)
                exes[h] = build(h, next(r for r in runs if r["harness"] == h).get("sources", []), hb)
            t_build = time.time() - t0
            outs = [(ri, f.result()) for ri, f in fut_q]
        t_gen = time.time() - t0
        seen = set()

        def work(item):
            ri, d = item
            r = conf["runs"][ri]
            traces, keys = [], []
            for f in sorted(glob.glob(os.path.join(d, "*.itf.json"))):
                s, k = load_itf(f)
                traces.append(s)
                keys += k
            cw = os.path.join(d, "cwd")
            os.makedirs(cw)
            bad, done = replay(exes[r["harness"]], traces, r["tol"], r.get("timeout", 120 + (len(traces) if tier == "quick" else 6 * len(traces))), cw)
            return ri, traces, keys, bad, done

        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(work, outs))
        known = load_known(prop)
        for ri, traces, keys, bad, done in results:
            r = conf["runs"][ri]
            seen.update(keys)
            cov["states"] += len(keys)
            cov["transitions"] += done
            cov["traces_validated_against_impl"] += len(traces) - len(bad)
            for t in traces:
                for s in t:
                    if s[0] != "init":
                        a = s[0] + ("" if s[3] == "ok" else "!" + s[3])
                        cov["actions"][a] = cov["actions"].get(a, 0) + 1
            if not cov["samples"] and traces:
                cov["samples"] = [{"behaviour": [s[0] for s in traces[0][1:]],
                                   "first_steps": [show(s) for s in traces[0][1:3]]}]
            for (j, s, msg) in bad:
                if viol and not args.all and not known:
                    break
                # confirm on its own, from a fresh process
                cw = tempfile.mkdtemp(dir=tmp)
                again, _ = replay(exes[r["harness"]], [traces[j]], r["tol"], 120, cw)
                if again:
                    viol.append((r, traces[j], again[0][1], again[0][2]))
        cov["distinct_states"] = len(seen)
        cov["runs"] = [{"spec": r["spec"], "main": r["main"], "step": r.get("step", "step"),
                        "max_steps": r["steps"], "tolerance": r["tol"], "invariant": r.get("inv")}
                       for r in conf["runs"]]
        cov["seconds"] = {"build": round(t_build, 1), "generate": round(t_gen, 1),
                          "replay": round(time.time() - t0 - t_gen, 1)}
        if tier == "thorough" and conf.get("exhaustive"):
            import exhaustive
            for e in conf["exhaustive"]:
                info = exhaustive.run(e, tmp, exes, viol, conf)
                cov.setdefault("exhaustive_runs", []).append(info)
        out = []
        for (r, trace, s, msg) in viol:
            k = match_known(known, trace, s, msg)
            if k:
                print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            else:
                out.append((r, trace, s, msg))
        return cov, out, time.time() - t0
    finally:
        if not args.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop]


def match_known(known, trace, s, msg):
    for k in known:
        if trace[s][0] == k["op"] and re.search(k["message"], msg):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--samples", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--all", action="store_true", help="print every mismatch")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.property
    conf = load_conf()[prop]
    try:
        cov, viol, wall = decide(prop, args.tier, seed, args)
    except CheckError as e:
        log("CHECK ERROR:", e)
        return 2
    ev = {"property": prop, "tier": args.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if not viol:
        print(f"OK property={prop} traces={cov['traces_validated_against_impl']} steps={cov['transitions']} "
              f"distinct_states={cov['distinct_states']} {cov['seconds']}")
        return 0
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    if args.all:  # one example per kind of disagreement
        kinds = {}
        for v in viol:
            kinds.setdefault((v[1][v[2]][0], re.sub(r"[0-9]+", "#", v[3].split(":")[0][:60])), []).append(v)
        for k, vs in kinds.items():
            print(len(vs), "x", k)
        viol = [min(vs, key=lambda v: v[2]) for vs in kinds.values()][:12]
    for n, (r, trace, s, msg) in enumerate(viol if args.all else viol[:1]):
        path = os.path.join(rd, f"{prop}-{seed}-{n}.json")
        json.dump({"property": prop, "harness": r["harness"], "sources": r.get("sources", []), "tol": r["tol"],
                   "failing_step": s, "what": msg, "script": script_of(trace[:s + 1]),
                   "steps": [show(x) for x in trace[:s + 1] if x[0] != "init"]}, open(path, "w"), indent=1)
        print(f"step {s} ({trace[s][0]} {trace[s][1]}): {msg}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "bin"))
    sys.exit(main())
