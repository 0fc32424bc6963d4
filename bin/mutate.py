#!/usr/bin/env python3
"""Development aid (no check uses it): plants small changes in scratch copies of the library and reports
those that no check notices.

  mutate.py prep PROP...                    behaviours of the specifications, kept under /tmp/mut
  mutate.py run FILE[:first-last]... [--max N] [--seed S] [--props A,B] [--out LOG]
"""
import glob, hashlib, json, multiprocessing as mp, os, pickle, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import check
W = "/tmp/mut"
CONF = json.load(open(V + "/bin/properties.conf.json"))
FEW = {"C19": 0.5, "C17": 0.15, "C18": 0.35}


def prep(prop):
    d = f"{W}/traces/{prop}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for ri, r in enumerate(CONF[prop]["runs"]):
        n = r["samples"]
        jobs = [(r["spec"], r["main"], r.get("init", "init"), r.get("step", "step"), r.get("inv"), max(1, n // 8), r["steps"], 4242 + q, f"{d}/x{ri}_{q}") for q in range(8)]
        with mp.Pool(8) as p:
            for q, o in enumerate(p.imap(check.quint_run, jobs)):
                tr = [check.load_itf(f)[0] for f in sorted(glob.glob(o + "/*.itf.json"))]
                pickle.dump(tr, open(f"{d}/r{ri}_{q}.pkl", "wb"))
                shutil.rmtree(o)
    print("prepared", prop, flush=True)


CODE = re.compile(r"[;{}(,]|&&|\|\|")
SWAP = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"(?<=[\w)\]])\+(?=[\w(])", "-"), (r"(?<=[\w)\]])-(?=[\w(])", "+"), (r"(?<=[\w)\]])\*(?=[\w(])", "+"),
        (r"\+=", "-="), (r"-=", "+="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"==", "!="), (r"!=", "=="),
        (r"(?<=\w)<(?=[\w(])(?=[^>]*[;)])", "<="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\.transpose\(\)", ""), (r"\.inverse\(\)", ""), (r"= -", "= "), (r"\(-", "("), (r"return -", "return "), (r"\bif\s*\(", "if (!"), 
        (r"\bnoalias\(\) \+=", "noalias() -="), (r"\b0\.5\b", "0.25"), (r"\bcross\(", "cwiseProduct("), (r"setZero\(", "setOnes("), (r"setIdentity\(", "setZero("),
        (r"\+\+(?=\w)", "--"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"square\(", "("), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\bpos\b", "linVel"), (r"\bangVel\b", "linVel"), (r"\blinAcc\b", "angAcc")]


def mutants(path, lo, hi):
    """(line number, new line, what)"""
    out = []
    lines = open(path).read().split("\n")
    block = False
    for n, l in enumerate(lines):
        s = l.strip()
        if block:
            block = "*/" not in s
            continue
        if s.startswith("/*"):
            block = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("#") or "BOOST_ASSERT" in s or not CODE.search(s) or not lo <= n + 1 <= hi:
            continue
        if s.startswith(("template", "class ", "struct ", "namespace", "typedef", "static_assert", "throw", "std::cout", "std::cerr", "&&", "\"")) or "throw " in s or "cerr" in s:
            continue
        code = l.split("//")[0]
        if '"' in code:
            continue
        seen = set()

        def add(new, what):
            if new != l and new not in seen:
                seen.add(new)
                out.append((n, new, what))
        for a, b in SWAP:
            for m in re.finditer(a, code):
                if a.startswith(r"\bif"):
                    # negate the whole condition
                    i = m.end() - 1
                    d, j = 0, m.end() - 1
                    j = code.index("(", m.start())
                    k = j
                    while k < len(code):
                        d += {"(": 1, ")": -1}.get(code[k], 0)
                        if d == 0:
                            break
                        k += 1
                    if d == 0:
                        add(code[:j] + "(!" + code[j:k + 1] + ")" + code[k + 1:], "negated")
                else:
                    add(code[:m.start()] + b + code[m.end():], f"{m.group(0).strip()} -> {b.strip()}")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            add(code[:m.start()] + str(v + 1) + code[m.end():], f"{v} -> {v+1}")
            if v > 0:
                add(code[:m.start()] + str(v - 1) + code[m.end():], f"{v} -> {v-1}")
        if re.match(r"^\s*[\w.\->\[\]():]+(<[^;]*>)?(\([^;]*\))*(\.[\w<>() ,]+)*\s*([-+*/]?=[^=].*|\+\+|\(.*\)|<<.*);\s*$", code) and not re.match(r"^\s*(return|delete|using|case|else)\b", code) and not re.match(r"^\s*(const\s+)?[\w:<>]+[&*]?\s+[&*]?\w+(\s*=|;|\()", code):
            add("  ;", "deleted")
    return out


def compile_cmd(repo, inc):
    h = V + "/harness"
    return ["ccache", "g++", "-std=c++11", "-O1", "-w", "-pipe", "-DBOOST_ENABLE_ASSERT_HANDLER", "-ftrivial-auto-var-init=pattern", "-ffp-contract=off",
            "-include", h + "/assert_throw.hpp", "-I" + repo + "/include", "-I" + inc, "-I/usr/include/eigen3", "-I" + h, "-DBOOST_ALLOW_DEPRECATED_HEADERS"]


ME = {}


def objs(repo, inc, srcs, odir):
    """object files; deps decide through ccache"""
    env = dict(os.environ, CCACHE_DIR=W + "/ccache", CCACHE_BASEDIR="/", CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="3G")
    out = []
    for s in srcs:
        o = odir + "/" + hashlib.sha1(s.encode()).hexdigest()[:10] + ".o"
        r = subprocess.run(compile_cmd(repo, inc) + ["-c", s, "-o", o], env=env, capture_output=True, text=True, cwd=repo)
        if r.returncode:
            return None
        out.append(o)
    return out


def killed(prop, repo, inc, odir, only_header):
    for ri, r in enumerate(CONF[prop]["runs"]):
        os.makedirs(odir, exist_ok=True)
        o = objs(repo, inc, [repo + "/src/" + s + ".cpp" for s in r["sources"]] + [V + "/harness/" + r["harness"] + ".cpp"], odir)
        if o is None:
            return "nocompile"
        exe = odir + "/replayer"
        if subprocess.run(["g++"] + o + ["-o", exe, "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-lboost_timer", "-lboost_system", "-lboost_chrono", "-lpthread"], capture_output=True).returncode:
            return "nocompile"
        for f in sorted(glob.glob(f"{W}/traces/{prop}/r{ri}_*.pkl")):
            cw = odir + "/cwd"
            shutil.rmtree(cw, ignore_errors=True)
            os.makedirs(cw)
            tr = pickle.load(open(f, "rb"))
            half = FEW.get(prop, 1)
            tr = tr[:max(1, int(len(tr) * half))]
            for k in range(0, len(tr), 25):
                try:
                    bad, _ = check.replay(exe, tr[k:k + 25], r["tol"], 30, cw, True)
                except check.CheckError as e:
                    return "adapter " + str(e)[:80]
                if bad:
                    j, s, msg = bad[0]
                    return f"killed {prop} {tr[k + j][s][0]} {msg[:60]}"
    return None


def setup():
    k = mp.current_process()._identity[0]
    ME["dir"] = d = f"{W}/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    subprocess.run("git -C /repo archive HEAD src include | tar x -C %s/repo" % d, shell=True, check=True)
    check.REPO = d + "/repo"
    ME["inc"] = check.configure(d)


def work(job):
    path, n, new, what, props = job
    d = ME["dir"]
    f = f"{d}/repo/{path}"
    orig = open(f).read()
    lines = orig.split("\n")
    old = lines[n]
    lines[n] = new
    open(f, "w").write("\n".join(lines))
    try:
        res = None
        for p in props:
            res = killed(p, d + "/repo", ME["inc"], d + "/o", False)
            if res:
                break
    finally:
        open(f, "w").write(orig)
    return path, n + 1, what, old.strip(), new.strip(), res or "SURVIVED"


def props_of(path):
    b = os.path.basename(path)
    stem = os.path.splitext(b)[0]
    out = []
    for p, c in CONF.items():
        if any(stem in r.get("sources", []) or stem.replace("_", "-") in r.get("sources", []) for r in c["runs"]):
            out.append(p)
    return out


def main():
    a = sys.argv[1:]
    if a[0] == "prep":
        for p in a[1:]:
            prep(p)
        return
    opt = {}
    files = []
    i = 1
    while i < len(a):
        if a[i].startswith("--"):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            files.append(a[i])
            i += 1
    rnd = random.Random(int(opt.get("seed", 1)))
    jobs = []
    for f in files:
        lo, hi = 1, 10 ** 9
        if ":" in f:
            f, rg = f.split(":")
            lo, hi = map(int, rg.split("-"))
        ps = opt["props"].split(",") if "props" in opt else props_of(f)
        base = f"{W}/base"
        os.makedirs(base, exist_ok=True)
        subprocess.run("git -C /repo archive HEAD src include | tar x -C " + base, shell=True, check=True)
        ms = mutants(base + "/" + f, lo, hi)
        if len(ms) > int(opt.get("max", 10 ** 9)):
            ms = rnd.sample(ms, int(opt["max"]))
        print(f, len(ms), "changes, checks", ps, flush=True)
        jobs += [(f, n, new, what, ps) for n, new, what in ms]
    tot = {}
    out = open(opt.get("out", "/tmp/mut/out.log"), "a")
    with mp.Pool(int(opt.get("jobs", 8)), setup) as pool:
        for r in pool.imap_unordered(work, jobs):
            k = r[5].split()[0]
            tot[k] = tot.get(k, 0) + 1
            print(*r, sep=" | ", file=out, flush=True)
            if k in ("SURVIVED", "adapter"):
                print(f"{r[0]}:{r[1]} [{r[2]}] {r[4]}   WAS {r[3]}  -> {r[5]}", flush=True)
    print(tot)


if __name__ == "__main__":
    main()
