"""The properties: for each one a case generator (workload, schedule, faults) and an oracle.
A case is plain JSON; judging it is a pure function of the case and the binary under test."""
import collections, json, random, re
import core, oracle as O, smt, workload as W
from core import MS, b, u8

class Prop:
    variant = ""; level = "exploration"; cases = {"quick": 2000, "thorough": 60000}; cap = {"quick": 90, "thorough": 1500}; rule = ""
    def scenarios(s, case): return case["sc"]

# ------------------------------------------------------------------ scenario building
FMTS = ["stdout", "stdout", "json", "json", "json", "quiet", "pretty-json"]
SQ = {"sq-full1-%d.json" % k: k for k in (1, 2, 3, 4)}
SQ.update({"sq-canauth-%d.json" % k: k for k in (1, 2, 3, 4)})
SQALL = dict(SQ, **{"sq-full1-13.json": 13})

DECISIVE = {"z3": [["o"], ["r"], ["d", 5 * MS], ["w", 1, "unsat\n"], ["e"], ["x", 0]], "vampire": [["o"], ["r"], ["d", 5 * MS], ["e"], ["x", 0]]}
def mk(rng, proto, fmt=None, n=None, T=None, lemmas=None, ignore=False, debug=None, disable=(), glob=(), bins=None, calm=False, fileopt=None, noiseprob=0.4, explicit_auto=None):
    """An automatic-mode scenario on a corpus file, no scripts yet."""
    sq = proto.endswith(".json")
    nl = 0 if sq else W.PROTO[proto]["lemmas"]
    auto = []
    if n is not None: auto += ["--num-of-retry", str(n)]
    if T is not None: auto += ["--timeout", str(T)]
    if debug: auto += ["--solver-file-debug", debug]
    for d in disable: auto.append("--disable-" + d)
    if ignore: auto.append("--ignore-lemmas")
    if lemmas is None: lemmas = nl > 0 and not ignore
    use_sub = bool(auto) or not lemmas and nl > 0 or (explicit_auto if explicit_auto is not None else rng.random() < 0.3)
    if use_sub and lemmas: auto.append(rng.choice(["-l", "--lemmas"]))
    if fmt is None: fmt = rng.choice(FMTS)
    g = list(glob)
    if fmt != "stdout" or rng.random() < 0.1: g += ["--output-format", fmt]
    if sq: g += ["--input-format", "squirrel-json"]
    name = proto
    argv = g + [name] + (["auto"] + auto if use_sub else [])
    N = SQALL[proto] if sq else (nl + 1 if lemmas and not ignore else 1)
    sc = dict(argv=argv, files={name: "@" + proto}, plan=W.gen_plan(rng, calm), meta=dict(problems=N, proto=proto), scripts={}, faults=[])
    if bins: sc["bins"] = bins
    if n == 0: sc["default"] = DECISIVE     # unbounded: whoever runs out of script refutes
    if noiseprob and not calm: W.noise(rng, sc, p=noiseprob)
    return sc

IND_Z = ["timeout", "unknown", "unknown", "signal"]; ERR_Z = ["empty", "badexit", "nonutf8"]
IND_V = ["timeout", "timeout", "timeout", "signal"]; ERR_V = ["badexit", "nonutf8"]
def story(rng, sc, ends=None, hang=0.25, maxr=8, pool=None, repeats=True, stop=0.25):
    """Scripts the solvers round by round so that most runs make real progress; the final problem
    (or, sometimes, an earlier one) ends in one of `ends`."""
    solvers = O.expected_solvers(sc); N = O.npbl(sc); n = O.expect_rounds(sc)
    if not solvers: sc["scripts"] = {}; sc["meta"]["learn"] = []; return sc
    pool = list(W.PROTO.get(sc["meta"]["proto"], {}).get("lits", []) if pool is None else pool)
    left = list(pool); rng.shuffle(left); used = []
    zs = []; vs = []; learn = []
    both = len(solvers) == 2; V = "vampire" in solvers; Z = "z3" in solvers
    def addz(kind):
        if Z: zs.append(W.z3_answer(rng, kind))
    def addv(kind):
        if not V: return
        if kind == "timeout":
            l = [left.pop() for _ in range(min(rng.randrange(1, 4), len(left)))]
            if not l: kind = "signal"
            else:
                rep = rng.sample(used, min(len(used), rng.randrange(3))) if repeats and N == 1 else []
                used.extend(l); vs.append(W.v_answer(rng, "timeout", l + rep, pool)); learn.append(True); return
        if kind == "repeat":
            if used and N == 1: vs.append(W.v_answer(rng, "timeout", rng.sample(used, rng.randrange(1, len(used) + 1)), pool)); learn.append(False); return
            kind = "none"
        vs.append(W.v_answer(rng, kind, (), pool)); learn.append(False)
    def indz(): return rng.choice(IND_Z)
    def indv(): return rng.choice(IND_V)
    ends = ends or ["proven"] * 4 + ["sat", "sat", "err", "err", "nonew", "exhausted", "exhausted", "conflict", "errdec"]
    told = []
    for p in range(N):
        last = p == N - 1
        e = rng.choice(ends) if last or rng.random() < stop else "proven"
        if e == "nonew" and not V: e = "exhausted"
        if e == "sat" and not Z: e = "err"
        if e in ("conflict", "errdec") and not both: e = "proven"
        lim = n if n is not None else maxr
        if e == "exhausted":
            if n is None: e = "proven"
            else:
                for _ in range(lim): addz(indz()); addv(indv())
                told.append(e); break
        k = rng.choice([0, 0, 0, 1, 1, 2, rng.randrange(lim), lim - 1]) if lim > 1 else 0
        k = min(k, lim - 1)
        for _ in range(k): addz(indz()); addv(indv())
        other = lambda ind: "hang" if both and rng.random() < hang else ind()
        if e == "proven":
            w = rng.choice((["z"] * 2 if Z else []) + (["v"] * 2 if V else []) + (["zv"] if both else []))
            addz("unsat" if "z" in w else other(indz)); addv("unsat" if "v" in w else other(indv))
        elif e == "sat": addz("sat"); addv(other(indv))
        elif e == "err":
            w = rng.choice((["z"] if Z else []) + (["v"] if V else []) + (["zv"] if both else []))
            addz(rng.choice(ERR_Z) if "z" in w else other(indz)); addv(rng.choice(ERR_V) if "v" in w else other(indv))
        elif e == "nonew": addz(indz()); addv(rng.choice(["none", "repeat"]))
        elif e == "conflict": addz(rng.choice(["sat", "sat", "unsat"])); addv("unsat")
        elif e == "errdec":
            if rng.random() < .5: addz(rng.choice(["unsat", "sat"])); addv(rng.choice(ERR_V))
            else: addz(rng.choice(ERR_Z)); addv("unsat")
        told.append(e)
        if e != "proven": break
    sc["scripts"] = {}
    if zs: sc["scripts"]["z3"] = zs
    if vs: sc["scripts"]["vampire"] = vs
    sc["meta"]["learn"] = learn; sc["meta"]["story"] = told
    return sc

def has_hang(sc): return any(t[0] == "h" for L in sc.get("scripts", {}).values() for s in L for t in s)
def nlaunch(sc): return max([len(L) for L in sc.get("scripts", {}).values()] + [1])

HARD = [("openw", [13, 28, 24, 30, 5], 2), ("writef", [28, 5, 122, 27], 4), ("spawn", [12, 11, 2, 13, 8, 7], 2), ("pipe", [24, 23], 2), ("readp", [5, 12], 3), ("wait", [10, 22], 2), ("thread", [11], 2), ("kill", [1, 3], 1)]
def sticky(rng, p=0.35):
    """How many further calls of the class fail too: a full disk or a closed pipe stays that way."""
    return rng.choice([-1, -1, 1, 3]) if rng.random() < p else 0
def hard(rng, sc, classes=None, many=1, menu=HARD):
    """Places hard faults inside the rounds the story runs."""
    hang = has_hang(sc); k = nlaunch(sc)
    m = [x for x in menu if (classes is None or x[0] in classes) and not (hang and x[0] in ("kill", "thread", "wait"))]
    for _ in range(rng.randrange(1, many + 1)):
        c, errs, per = rng.choice(m)
        if c == "mkdir" and "--solver-file-debug" not in sc["argv"]: continue
        sc["faults"].append([c, rng.randrange(max(1, per * k)), rng.choice(errs), sticky(rng)])
    return sc

def bins_of(rng, p=0.15):
    if rng.random() >= p: return None
    return {rng.choice(["z3", "vampire"]): rng.choice([None, "nox", "dir"])}

def general(rng, fmts=None, ends=None, faults=0.0, many=2, lemmas=True, sq=0.06, n=None, hang=0.25, classes=None, calm=False, protos=None, debug=0.1):
    f = rng.random() < faults
    fmt = rng.choice(fmts or FMTS)
    if not f and rng.random() < sq: proto = rng.choice(list(SQ))
    else: proto = W.pick_proto(rng, protos)
    nl = W.PROTO[proto]["lemmas"] if proto in W.PROTO else 0
    single = f or not lemmas or rng.random() < 0.3
    dis = rng.choice([(), (), (), (), (), ("z3",), ("vampire",)])
    nn = n if n is not None else rng.choice([None, None, 1, 2, 3, 3, 4, 6, 0])
    kw = dict(fmt=fmt, n=nn, disable=dis, calm=calm)
    if nl and single: kw.update(rng.choice([dict(ignore=True), dict(lemmas=False)]))
    if rng.random() < debug: kw["debug"] = rng.choice(["dbg", "a/b/dbg", "tmp/d"])
    if rng.random() < 0.3: kw["T"] = rng.choice([1, 2, 5, 60, 1000])
    sc = mk(rng, proto, **kw)
    story(rng, sc, ends=ends, hang=hang)
    if f: hard(rng, sc, classes=classes, many=many)
    return sc

def strip(v, c): return [(k[len(c) + 1:] if k.startswith(c + ":") else k, m) for k, m in v]

# ------------------------------------------------------------------ C01
class C01(Prop):
    id = "C01"; rule = "random protocol, options, output format, solver stories over several rounds and problems (every pair of answers), solver crashes, hangs, garbled and truncated output, failing system calls, thread schedules."
    def gen(s, rng, i):
        k = rng.choice(["story", "story", "fault", "weak", "weakfault"])
        if k.startswith("weak"):   # nobody ever refutes: any success is wrong
            sc = general(rng, ends=["sat", "err", "nonew", "exhausted", "err"], faults=0.6 if k == "weakfault" else 0, sq=0.05)
        else: sc = general(rng, faults=1.0 if k == "fault" else 0)
        if k == "fault" and rng.random() < 0.1: sc["faults"].append(["malloc", W.logu(rng, 1, 30000), 12, 0])
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        r = ctx.run(case["sc"][0]); v = strip(O.verdict_model(r, want=("c01",)), "c01")
        R = O.report(r)
        if R.ok and not any(a == "unsat" for x in O.analyse(r) for _, a in x.ans): v.append(("no-refutation-at-all", "success although no solver ever answered a refutation: %s" % O.summary(O.analyse(r))))
        for p in r.procs.values():   # the refutation must be about a complete file
            if R.ok and p.snap is not None and O.answer(r.sc, p) == "unsat" and not p.snap.rstrip().endswith(b"(check-sat)") and not p.snap.rstrip().endswith(b"(get-unsat-core)"):
                e = O.wellformed(p.snap)
                if e: v.append(("partial-file", "the refutation was obtained on an incomplete file: %s" % e[0]))
        return v

class C02(Prop):
    id = "C02"; rule = "stories in which some solver answers decisively in some round, with the other solver slow, hung, crashing, indecisive or agreeing; benign short and interrupted transfers; thread schedules."
    def gen(s, rng, i):
        k = rng.choice(["proven", "proven", "sat", "mixed"])
        sc = general(rng, ends={"proven": ["proven"], "sat": ["sat"], "mixed": ["proven", "sat", "conflict", "errdec"]}[k], hang=0.3, fmts=["stdout", "json", "json", "pretty-json", "quiet"])
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        r = ctx.run(case["sc"][0]); return strip(O.verdict_model(r, want=("c02", "c05")), "c02")

class C03(Prop):
    id = "C03"; level = "fault_enumeration"; rule = "one to three failing system calls of every class at every position of every round, or failing solvers (bad exit, no output, undecodable output, missing executable), combined with every answer of the other solver."
    def gen(s, rng, i):
        k = rng.choice(["fault", "fault", "fault", "solver", "solver", "debugdir"])
        if k == "fault": sc = general(rng, faults=1.0, many=rng.choice([1, 1, 1, 3]), ends=["proven", "err", "exhausted", "exhausted", "sat"])
        elif k == "solver": sc = general(rng, ends=["err", "err", "errdec"], hang=0.4)
        else:
            proto = W.pick_proto(rng, W.SMALL)
            kw = dict(ignore=True) if W.PROTO[proto]["lemmas"] else {}
            sc = mk(rng, proto, n=rng.choice([1, 3]), debug=rng.choice(["dbg", "a/b/c"]), **kw); story(rng, sc, ends=["exhausted", "err"], hang=0)
            how = rng.choice(["file", "fault"])
            d = sc["argv"][sc["argv"].index("--solver-file-debug") + 1]
            if how == "file":
                parts = d.split("/"); sc["files"]["/".join(parts[:rng.randrange(1, len(parts) + 1)])] = "not a directory\n"; sc["meta"]["mustfail"] = True
            else: hard(rng, sc, menu=[("mkdir", [13, 28, 30], 2), ("openw", [13, 28, 30], 2)])
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc); v = strip(O.verdict_model(r, want=("c03",)), "c03")
        if sc["meta"].get("mustfail"):
            R = O.report(r)
            if R.ok: v.append(("hidden", "the debug directory could not be created but the run reports success"))
            if r.procs: v.append(("launched", "the debug directory could not be created but %d solvers were started" % len(r.procs)))
        return v

class C04(Prop):
    id = "C04"; rule = "stories with decisive answers, errors, hangs and late starts, kill latencies, process-id reuse, failing calls (file, pipe, spawn, read, thread), schedules biased to the spawn/answer/kill window."
    def gen(s, rng, i):
        k = rng.choice(["story", "story", "race", "fault"])
        if k == "fault": sc = general(rng, faults=1.0, classes=("openw", "writef", "spawn", "pipe", "readp", "thread"))
        elif k == "race":
            sc = general(rng, protos=W.SMALL, ends=["proven", "proven", "sat", "err"], hang=0.6, n=rng.choice([1, 2, 3]))
            for L in sc["scripts"].values():     # answers arrive at once: the other solver may not have been started yet
                for q in L:
                    if rng.random() < 0.6: q[:] = [t for t in q if t[0] != "d"]
            if rng.random() < .5: sc["plan"].update(mode=0, gap=W.logu(rng, 100, 20000), pcall=rng.choice([.3, .7]), burst=.5, maxpre=1500, pwake=1)
        else: sc = general(rng, hang=0.5)
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx): return O.c04(ctx.run(case["sc"][0]))

class C05(Prop):
    id = "C05"; rule = "one solver hangs, prints megabytes, closes its output early, dies late or is slow to die while the other answers, fails or is indecisive; benign EINTR/short transfers; schedules."
    def gen(s, rng, i):
        k = rng.choice(["hang", "hang", "flood", "story", "fault", "earlyclose"])
        if k == "fault": sc = general(rng, faults=1.0, classes=("openw", "writef", "spawn", "pipe", "readp"), protos=W.SMALL)
        else: sc = general(rng, hang=0.9 if k == "hang" else 0.3, ends=["proven", "proven", "sat", "err"] if k == "hang" else None)
        if k == "flood":
            for L in sc["scripts"].values():
                for q in L:
                    if rng.random() < 0.6:
                        at = next((j for j, t in enumerate(q) if t[0] == "r"), 0) + 1
                        q.insert(at, ["w", rng.choice([1, 1, 2]) if O.stdout_of(q) else 2, rng.choice(["%\n", "x" * 60 + "\n", "noise line\n"]) * rng.choice([100, 20000, 60000])])
        if k == "earlyclose":
            for L in sc["scripts"].values():
                for q in L:
                    if rng.random() < 0.7 and q[-1][0] != "h":
                        if any(t[0] == "w" and max(t[2], default="") > "\x7f" for t in q): continue
                        q[:] = [t for t in q if t[0] != "c"]; q[-2:-2] = [["c", 1], ["d", W.delay(rng)]]
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx): return O.c05(ctx.run(case["sc"][0]))

class C06(Prop):
    id = "C06"; rule = "option grid: retry budgets 0 to 7, time limits, enabled, disabled, missing, non-executable solvers, explicit locations, with indecisive stories of every kind over several problems."
    def gen(s, rng, i):
        k = rng.choice(["budget", "budget", "solvers", "mixed"]) if i % 16 else "long"
        if k == "long":      # many rounds: the budget, or the story, is the only end
            huge = i % 800 == 16
            n = rng.choice([0, 0, 9, 13, 17, 20, 33, 40]) if not huge else rng.choice([0, 270, 300])
            sc = mk(rng, rng.choice(["plain.ptcl", "plain.ptcl", "tiny.ptcl"]), n=n, fmt=rng.choice(["stdout", "json"]), disable=rng.choice([(), ("z3",), ("vampire",)]))
            if huge: sc["plan"].update(mode=2); sc.pop("short", None); sc.pop("eintr", None)
            es = O.expected_solvers(sc); R = n or rng.choice([rng.randrange(6, 45), 64, 70] if not huge else [258, 280])
            L = dict(z3=[["o"], ["w", 1, "unknown\n"], ["x", 0]], vampire=[["o"], ["k", 9]])
            sc["scripts"] = {x: [json.loads(json.dumps(L[x])) for _ in range(R)] for x in es}; sc["meta"]["learn"] = [False] * R
            end = rng.random()
            if n == 0 or end < .5: sc["scripts"][rng.choice(es)][R - 1 - (0 if rng.random() < .7 else 1)] = json.loads(json.dumps(DECISIVE["z3" if es == ["z3"] else es[0]])) if len(es) == 1 else [["o"], ["w", 1, "unsat\n"], ["x", 0]]
            return dict(kind=k, sc=[sc])
        proto = W.pick_proto(rng) if rng.random() > 0.1 else rng.choice(list(SQ))
        kw = {}
        if proto in W.PROTO and W.PROTO[proto]["lemmas"]: kw = rng.choice([dict(ignore=True), dict(lemmas=False), {}, {}])
        dis = ()
        if k == "solvers": dis = rng.choice([(), ("z3",), ("vampire",), ("cvc5",), ("z3", "vampire"), ("cvc5", "z3")])
        sc = mk(rng, proto, n=rng.choice([None, 0, 1, 2, 3, 4, 5, 7]), T=rng.choice([None, 1, 2, 3, 10, 60, 3600, "0.5", "2.75", "1e2", "90.125"]), disable=dis, bins=bins_of(rng, 0.6 if k == "solvers" else 0.05), fmt=rng.choice(["stdout", "json", "json"]), **kw)
        if k == "solvers" and rng.random() < 0.5 and "auto" in sc["argv"]:
            # solvers named by their location: relative, absolute, or a bare name found through PATH; a location wins over the default name
            for w in rng.choice([["z3"], ["vampire"], ["vampire", "z3"]]):
                how = rng.choice(["x", "x", "x", "nox", None])
                path, arg = rng.choice([("alt/%s", "alt/%s"), ("alt/%s-4.13.0", "alt/%s-4.13.0"), ("alt/deep/x%s.exe", "/proc/self/cwd/alt/deep/x%s.exe"), ("bin/%s_nightly", "%s_nightly"), ("bin/my-%s", "my-%s")])
                sc.setdefault("loc", {})[w] = [path % w, how]; sc["argv"] += ["--%s-location" % w, arg % w]
        if not O.expected_solvers(sc): sc["meta"]["norun_ok"] = True
        story(rng, sc, ends=["exhausted"] * 3 + ["proven", "nonew"] if k == "budget" else None, hang=0.1)
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc)
        v = strip(O.verdict_model(r, want=("c06",)), "c06") + O.c06_launches(r)
        if not O.expected_solvers(sc):
            if O.report(r).ok: v.append(("nothing-ran", "no solver is available but the run reports success"))
        return v

FLAGSETS = [(), (), (), ("--legacy-evaluate",), ("--no-preprocessing",), ("--skolemnise",), ("--eval-rewrite",), ("--crypto-rewrite",), ("--symbolic",), ("--symbolic", "--no-bitstring"),
    ("--symbolic", "--eval-rewrite"), ("--symbolic", "--vampire-subterm"), ("--symbolic", "--vampire-subterm", "--eval-rewrite", "--crypto-rewrite", "--no-preprocessing"),
    ("--symbolic", "--skolemnise", "--no-preprocessing"), ("--skolemnise", "--no-preprocessing"), ("--legacy-evaluate", "--no-preprocessing")]
FLAGNAMES = {f for F in FLAGSETS for f in F}
class C07(Prop):
    id = "C07"; rule = "multi-round stories with learning over the whole corpus and the generation options; solvers open and re-read their file at arbitrary moments; short, interrupted and failing writes; schedules of the concurrent generations."
    cases = {"quick": 1500, "thorough": 40000}
    def gen(s, rng, i):
        k = rng.choice(["story", "story", "flags", "fault", "slowread", "race"]) if i else "flags"
        if k == "race":     # many generated names, both files generated at the same time
            sc = mk(rng, rng.choice(["quad.ptcl", "quad.ptcl", "multi.ptcl"]), n=rng.choice([2, 4, 6]), glob=("--no-preprocessing",), ignore=True); story(rng, sc, ends=["exhausted"])
            sc["plan"] = W.gen_plan(rng); sc["plan"].update(mode=0, pstatic=rng.choice([.1, .3, .6]), gap=W.logu(rng, 3000, 300000), burst=0, maxpre=300, pcall=0, pwake=rng.choice([0, .5]))
        elif k == "flags":
            proto = W.pick_proto(rng); kw = dict(ignore=True) if W.PROTO[proto]["lemmas"] and rng.random() < .5 else {}
            glob = rng.choice(FLAGSETS[3:])
            if i == 0: proto, kw, glob = "basic-hash-1.ptcl", {}, ("--symbolic",)     # the recorded finding
            sc = mk(rng, proto, n=2, glob=glob, **kw); story(rng, sc, ends=["proven", "exhausted"])
        elif k == "fault": sc = general(rng, faults=1.0, classes=("writef", "openw"), many=2)
        else:
            sc = general(rng, ends=["proven", "exhausted", "exhausted", "nonew", "err"], sq=0.15)
            if k == "slowread":
                for L in sc["scripts"].values():
                    for q in L: q.insert(0, ["d", rng.randrange(1, 50) * 100 * MS])
        if k != "race": W.noise(rng, sc, classes=("writef",), p=0.5)
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        r = ctx.run(case["sc"][0]); v = O.c07(r)
        if case["kind"] == "flags": v = [(c, "%s %s: %s" % (r.sc["meta"]["proto"], " ".join(x for x in r.sc["argv"] if x in FLAGNAMES), m)) for c, m in v]
        return v

def content_of(r):
    """(solver, launch number) -> canonical problem"""
    out = {}
    for p in r.procs.values():
        if p.snap is not None:
            try: out[(p.name, p.idx)] = O.canon(p.snap)
            except Exception: pass
    return out

def respin(rng, sc, timing=True):
    """The same input and the same answers, everything else different: schedule, clock, addresses, hash seeds, chunking, delays."""
    c = json.loads(json.dumps(sc)); c["plan"] = W.gen_plan(rng); c.pop("short", None); c.pop("eintr", None); W.noise(rng, c)
    if timing:
        for name, L in c.get("scripts", {}).items():
            for j, q in enumerate(L):
                d = "".join(t[2] for t in q if t[0] == "w" and t[1] == 1)
                L[j] = W.life(rng, d, q[-1], early_close=False if q[-1][0] == "h" else None)
    return c

def setopt(argv, opt, val):
    a = list(argv)
    if opt in a: a[a.index(opt) + 1] = val; return a
    if "auto" not in a: return a
    return a + [opt, val]

class C08(Prop):
    id = "C08"; rule = "the same input and round history run twice or more under different schedules, hash seeds, heap and stack layouts, clocks, process ids, output delivery, time limits, debug directories, output formats and other enabled solvers; files compared per solver and round after canonical renaming."
    cases = {"quick": 700, "thorough": 20000}
    def gen(s, rng, i):
        k = rng.choice(["respin", "respin", "options", "options", "solvers", "many"])
        if k == "many":       # a lot learned at once: sets of instances are iterated in some order
            proto = rng.choice(["tiny.ptcl", "lem3.ptcl"]); n = rng.choice([2, 3])
            sc = mk(rng, proto, n=n, explicit_auto=True, fmt="json", **(dict(ignore=True) if proto == "lem3.ptcl" else {}))
            lits = W.many_lits(rng, proto, rng.choice([12, 25, 40, 70])); h = len(lits) // 2
            parts = [lits] if n == 2 else [lits[:h], lits[h:]]
            sc["scripts"] = dict(vampire=[W.v_answer(rng, "timeout", p, lits) for p in parts] + [[["o"], ["r"], ["k", 9]]], z3=[W.z3_answer(rng, "unknown") for _ in range(n)])
            sc["meta"]["learn"] = [True] * len(parts) + [False]
            return dict(kind=k, sc=[sc, respin(rng, sc)])
        if rng.random() < .12: proto = rng.choice(list(SQ))
        else: proto = W.pick_proto(rng)
        kw = {}
        if proto in W.PROTO and W.PROTO[proto]["lemmas"] and rng.random() < .5: kw = rng.choice([dict(ignore=True), dict(lemmas=False)])
        if rng.random() < .25: kw["glob"] = rng.choice(FLAGSETS[3:])
        sc = mk(rng, proto, n=rng.choice([1, 2, 3, 4]), explicit_auto=True, **kw)
        if k == "solvers":
            # indecisive non-teaching answers: every round poses the same problem
            n = O.expect_rounds(sc); sc["scripts"] = dict(z3=[W.z3_answer(rng, rng.choice(["unknown", "timeout", "signal"])) for _ in range(n)], vampire=[W.v_answer(rng, "signal") for _ in range(n)])
            other = respin(rng, sc); other["argv"] = sc["argv"] + ["--disable-" + rng.choice(["z3", "vampire"])]
            scs = [sc, other]
        else:
            story(rng, sc, ends=["exhausted", "exhausted", "proven", "nonew"], hang=0)
            scs = [sc] + [respin(rng, sc) for _ in range(rng.choice([1, 1, 2]))]
            if k == "options":
                for c in scs[1:]:
                    c["argv"] = setopt(c["argv"], "--timeout", str(rng.choice([1, 2, 7, 100, 3600, 100000])))
                    if rng.random() < .4:     # the same text under another name, or from standard input
                        name = sc["meta"]["proto"]; at = c["argv"].index(name)
                        if rng.random() < .5: new = rng.choice(["x.cv", "dir/in put.ptcl", "./" + name]); c["argv"][at] = new; c["files"] = {new.lstrip("./") if new.startswith("./") else new: "@" + name}
                        else: del c["argv"][at]; c["files"] = {}; c["stdin"] = [["w", 1, core.content("@" + name).decode("latin-1")], ["x", 0]]
                    if rng.random() < .3: c.setdefault("env", {})["RUST_LOG"] = rng.choice(["error", "info", "debug", "cryptovampire::runner=trace"])
                    if rng.random() < .5: c["argv"] = c["argv"] + ["--solver-file-debug", "dbg%d" % rng.randrange(9)]
                    if rng.random() < .5: c.setdefault("env", {}).update({"HOME": "/x%d" % rng.randrange(99), "LANG": rng.choice(["C", "fr_FR.UTF-8"]), "USER": "u%d" % rng.randrange(99)})
        return dict(kind=k, sc=scs)
    def judge(s, case, ctx):
        v = []; base = None
        for j, sc in enumerate(case["sc"]):
            r = ctx.run(sc); c = content_of(r); k = len(O.rounds(r))
            if base is None: base = c; rounds = k; continue
            if case["kind"] != "solvers" and k != rounds and not O.report(r).bad: v.append(("rounds", "same input and history, but %d rounds in the first run and %d in run %d" % (rounds, k, j + 1)))
            for key in sorted(set(base) & set(c)):
                if base[key] != c[key]: v.append(("content", "%s launch %d: same input and history, different problem in run %d: %s" % (key[0], key[1] + 1, j + 1, "; ".join(smt.diff(base[key], c[key]))))); break
        return v

def tofile_sc(rng, files, name, out, lemmas=False, cvc5=False, theory=False, glob=(), calm=True, fmt="stdout"):
    g = list(glob) + (["--output-format", fmt] if fmt != "stdout" else []) + (["--input-format", "squirrel-json"] if name.endswith(".json") else [])
    a = g + [name, "to-file"] + (["-o", out] if out else [])
    if lemmas: a.append("-l")
    if cvc5: a.append("--cvc5")
    if theory: a.append("--assert-theory")
    if rng and rng.random() < .2: a.append("--assert-ground")
    return dict(argv=a, files=dict(files), plan=W.gen_plan(rng, calm) if rng else dict(seed=7, mode=2, randseed=7, t0=10**18), meta=dict(proto=name), faults=[])

def out_files(r, prefix):
    return {n: c for n, c in r.tree.items() if c is not None and (n == prefix or n.startswith(prefix.rstrip("/") + "/"))}

class C09(Prop):
    id = "C09"; rule = "multi-round, multi-lemma stories; within every round the two files are compared after canonical renaming (dialect keywords removed), and round one with what to-file writes for the same input, under schedules of the concurrent generations."
    cases = {"quick": 900, "thorough": 25000}
    def gen(s, rng, i):
        k = rng.choice(["round", "round", "tofile", "flags"])
        proto = rng.choice(list(SQ)) if rng.random() < .1 and k == "round" else W.pick_proto(rng)
        nl = W.PROTO[proto]["lemmas"] if proto in W.PROTO else 0
        lem = bool(nl) and rng.random() < .6
        kw = {} if not nl else (dict(lemmas=True) if lem else dict(lemmas=False))
        glob = rng.choice(FLAGSETS[3:]) if k == "flags" else ()
        sc = mk(rng, proto, n=rng.choice([1, 2, 3]), explicit_auto=True, glob=glob, **kw)
        story(rng, sc, ends=["proven", "exhausted", "nonew", "err"], hang=0)
        scs = [sc]
        if k != "round": scs.append(tofile_sc(rng, {proto: "@" + proto}, proto, "out", lemmas=lem, cvc5=rng.random() < .4 and "--vampire-subterm" not in glob, theory=rng.random() < .4, glob=glob, calm=False))
        return dict(kind=k, sc=scs, lem=lem)
    def judge(s, case, ctx):
        v = []; r = ctx.run(case["sc"][0]); c = content_of(r)
        for k, evs in enumerate(O.rounds(r)):
            ks = [(p.name, p.idx) for _, _, p in evs if p and (p.name, p.idx) in c]
            if len(ks) == 2 and c[ks[0]] != c[ks[1]]: v.append(("round-differs", "round %d: %s and %s were given different problems: %s" % (k + 1, ks[0][0], ks[1][0], "; ".join(smt.diff(c[ks[0]], c[ks[1]])))))
        if len(case["sc"]) > 1:
            t = ctx.run(case["sc"][1])
            name = "out/0.smt" if case["lem"] else "out"
            f = t.tree.get(name)
            if f is None or t.rc != 0: v.append(("no-file", "to-file produced no %s (rc %s) %s" % (name, t.rc, t.err[-200:]))); return v
            cf = O.canon(f)
            for n in ("z3", "vampire"):
                if (n, 0) in c and c[(n, 0)] != cf: v.append(("tofile-differs", "first round file of %s differs from the to-file output: %s" % (n, "; ".join(smt.diff(c[(n, 0)], cf)))))
        return v

# ------------------------------------------------------------------ C10
def rounds_canon(r, name="vampire"):
    out = []
    for p in sorted([p for p in r.procs.values() if p.name == name], key=lambda p: p.idx):
        out.append(O.canon(p.snap) if p.snap is not None else None)
    return out

class C10(Prop):
    id = "C10"; rule = "pairs of runs whose timed-out vampire printed the same set of usable literals, once plainly and once chunked, reordered, repeated, mixed with unrelated and malformed lines and with a different other solver; the following rounds' files compared; growth, no-progress detection and preservation of the rest checked on every multi-round history."
    cases = {"quick": 900, "thorough": 25000}
    def gen(s, rng, i):
        k = rng.choice(["pair", "pair", "grow", "nonew", "lemma", "split", "split", "many"]) if i % 40 else "many"
        proto = W.pick_proto(rng, lits=True) if k != "many" else rng.choice(["tiny.ptcl", "lem3.ptcl"])
        nl = W.PROTO[proto]["lemmas"]
        kw = {}
        if nl: kw = dict(lemmas=True) if k == "lemma" else dict(ignore=True)
        n = rng.choice([2, 3, 4])
        sc = mk(rng, proto, n=n, fmt="json", **kw)
        pool = list(W.PROTO[proto]["lits"]); rng.shuffle(pool)
        if k in ("grow", "lemma"):
            story(rng, sc, ends=["exhausted", "proven"], hang=0)
            return dict(kind=k, sc=[sc])
        if k == "nonew":
            extra = pool.pop(); L = [pool.pop() for _ in range(min(len(pool), rng.randrange(1, 4)))]
            t1 = W.v_answer(rng, "timeout", L, pool)
            kind = rng.choice(["same", "subset", "none", "noise", "first"])
            if kind == "same": t2 = W.v_answer(rng, "timeout", L, pool)
            elif kind == "subset": t2 = W.v_answer(rng, "timeout", rng.sample(L, rng.randrange(1, len(L) + 1)), pool)
            else: t2 = W.v_answer(rng, "none", (), pool)
            vs = [t1, t2] if kind != "first" else [t2]
            sc["argv"] = setopt(sc["argv"], "--num-of-retry", "4")
            sc["scripts"] = dict(vampire=vs + [W.v_answer(rng, "timeout", [extra], pool)], z3=[W.z3_answer(rng, rng.choice(IND_Z)) for _ in range(4)])
            sc["meta"]["learn"] = [True, False, True] if kind != "first" else [False, True]
            return dict(kind="nonew:" + kind, sc=[sc])
        mkp = lambda l: [["o"], ["r"], ["d", MS], ["w", 1, "".join("[SA] new: %d. %s [input]\n" % (j + 1, x) for j, x in enumerate(l))], ["e"], ["x", 1]]
        if k in ("split", "many"):   # the same literals at once and over several rounds
            if k == "many": pool = W.many_lits(rng, proto, rng.choice([10, 20, 35, 60]) if i % 40 else 140)
            L = pool[:rng.randrange(2, 7)] if k == "split" else pool
            if len(L) < 2: L = L * 2
            cuts = sorted(rng.randrange(1, len(L)) for _ in range(rng.randrange(1, 4))); parts = []; a = 0
            for c in cuts + [len(L)]:
                if c > a: parts.append(L[a:c]); a = c
            once = json.loads(json.dumps(sc)); once["argv"] = setopt(once["argv"], "--num-of-retry", "2")
            sc["argv"] = setopt(sc["argv"], "--num-of-retry", str(len(parts) + 1))
            once["scripts"] = dict(vampire=[mkp(L), [["o"], ["r"], ["k", 9]]], z3=[W.z3_answer(rng, rng.choice(IND_Z)) for _ in range(2)])
            sc["scripts"] = dict(vampire=[W.v_answer(rng, "timeout", l, pool) for l in parts] + [[["o"], ["r"], ["k", 9]]], z3=[W.z3_answer(rng, rng.choice(IND_Z)) for _ in range(len(parts) + 1)])
            once["meta"]["learn"] = [len(set(L)) > 0, False]; sc["meta"]["learn"] = [True] * len(parts) + [False]
            return dict(kind=k, sc=[once, sc])
        teach = []
        for _ in range(n - 1):
            l = [pool.pop() for _ in range(min(len(pool), rng.randrange(1, 4)))]
            if l: teach.append(l)
        plain = json.loads(json.dumps(sc)); plain["plan"] = W.gen_plan(rng, True); plain.pop("short", None); plain.pop("eintr", None)
        plain["scripts"] = dict(vampire=[mkp(l) for l in teach])
        sc["scripts"] = dict(vampire=[W.v_answer(rng, "timeout", l, W.PROTO[proto]["lits"]) for l in teach], z3=[W.z3_answer(rng, rng.choice(IND_Z)) for _ in range(n)])
        for c in (plain, sc): c["meta"]["learn"] = [True] * len(teach)
        if rng.random() < .3: sc["argv"] = sc["argv"] + ["--disable-z3"]
        return dict(kind=k, sc=[plain, sc])
    def judge(s, case, ctx):
        v = []; rs = [ctx.run(sc) for sc in case["sc"]]
        for r in rs: v += growth(r)
        if case["kind"].startswith("nonew"):
            v += strip(O.verdict_model(rs[0], want=("c10", "c15")), "c10")
        if case["kind"] in ("split", "many"):
            a, c = rounds_canon(rs[0]), rounds_canon(rs[1])
            if len(a) == 2 and len(c) == len(case["sc"][1]["scripts"]["vampire"]):
                if a[1] != c[-1] and None not in (a[1], c[-1]): v.append(("depends-on-history", "learning the same literals at once or over %d rounds leads to different problems: %s" % (len(c) - 1, "; ".join(smt.diff(a[1], c[-1])))))
            elif not any(O.report(r).bad for r in rs): v.append(("rounds", "the same literals led to %d and %d rounds instead of 2 and %d" % (len(a), len(c), len(case["sc"][1]["scripts"]["vampire"]))))
        elif len(rs) == 2:
            a, c = rounds_canon(rs[0]), rounds_canon(rs[1])
            if len(a) != len(c): v.append(("rounds", "the same literals led to %d rounds when printed plainly and %d when printed with noise" % (len(a), len(c))))
            for j, (x, y) in enumerate(zip(a, c)):
                if x is not None and y is not None and x != y: v.append(("depends-on-noise", "round %d: the next problem depends on how the same literals were printed: %s" % (j + 1, "; ".join(smt.diff(x, y))))); break
        return v

def growth(r):
    """Within one problem: declarations and goal stay, assertions only grow; a teaching round adds something, any other adds nothing."""
    v = []; learn = r.sc["meta"].get("learn") or []
    prev = None; kept = collections.Counter()
    for k, x in enumerate(O.analyse(r)):
        if (r.sc["meta"].get("proto") or "").endswith(".json"): kept.clear()       # separate problems
        cs = [(p, O.canon(p.snap)) for p in x.procs if p.snap is not None]
        if not cs: prev = None; continue
        cur = cs[0][1]
        if prev is not None:
            pc, px = prev
            if pc[2] != cur[2]:   # next problem (checked by C11): what was learned is kept
                lost = [a for a in kept - cur[1] if "~" not in a]
                if lost: v.append(("lost", "round %d: what was learned for an earlier problem disappeared: %s" % (k + 1, lost[0][:200])))
            else:
                if pc[0] != cur[0]: v.append(("declarations", "round %d: declarations changed after learning: %s" % (k + 1, "; ".join(smt.diff(pc, cur)))))
                lost = pc[1] - cur[1]
                if lost: v.append(("lost", "round %d: assertions disappeared after learning: %s" % (k + 1, list(lost)[0][:200])))
                new = cur[1] - pc[1]; kept |= new
                taught = any(p.idx < len(learn) and learn[p.idx] for p in px.vt)
                if taught and not new: v.append(("not-learned", "round %d: vampire printed new relevant literals but the next problem did not change" % (k + 1)))
                if not taught and new: v.append(("invented", "round %d: nothing new was printed but assertions were added: %s" % (k + 1, list(new)[0][:200])))
        prev = (cur, x)
    return v

# ------------------------------------------------------------------ C11
def lemma_proto(rng, L):
    """A protocol with L lemmas, each marked by constants of its own."""
    t = ["type index;", "fun h(Message, Message):Message", "fun vf(Message, Message, Message):Bool", "fun key:Name", "fun n(index):Name", "fun z0:Message"]
    for i in range(L): t += ["fun mk%d:Message" % i, "fun ml%d(Message):Message" % i]
    t += ["fun mq:Message", "step t(i:index)\n    { true }\n    { h(n(i), key) }"]
    lem = []
    for i in range(L):
        lem.append(rng.choice(["(mk%d != ml%d(z0))" % (i, i), "forall (x:Message) { (ml%d(x) != mk%d) }" % (i, i), "forall (x:Message, y:Message) { ((ml%d(x) == ml%d(y)) => (x == y)) }" % (i, i), "forall (j:index) { (ml%d(mk%d) != n(j)) }" % (i, i), "exists (x:Message) { (ml%d(x) == z0) }" % i]))
    q = rng.choice(["(mq != z0)", "forall (s:Step) {( happens(s) => (input(s) != mq) )}"])
    tail = ["assert-crypto euf-cma h vf;", "assert-crypto nonce;", "assert\n    forall (s:Message, m:Message, k:Message) {\n        (vf(s, m, k) <=> (s == h(m, k)))\n    }"]
    def text(asserts, lemmas, query):
        body = ["assert %s" % x for x in asserts] + ["lemma %s" % x for x in lemmas]
        return "\n".join(t + body + ["query %s" % query] + tail) + "\n"
    return text, lem, q

class C11(Prop):
    id = "C11"; rule = "generated protocols with one to six (sometimes up to seventeen) lemmas; stories over all problems with retries, learning, failing lemmas and schedules; every file compared with the file of the corresponding lemma-free protocol (earlier lemmas as assertions, this lemma as query)."
    cases = {"quick": 700, "thorough": 20000}
    def gen(s, rng, i):
        L = rng.choice([1, 1, 2, 3, 4, 6]) if i % 40 != 5 else rng.choice([11, 12, 17]); seed = rng.getrandbits(32)
        text, lem, q = lemma_proto(random.Random(seed), L)
        src = text([], lem, q)
        if rng.random() < .3:  # declared after the query: still all proved before it
            src = text([], [], q) + "".join("lemma %s\n" % x for x in lem)
        k = rng.choice(["proven", "story", "tofile", "nolemma"])
        fmt = rng.choice(["stdout", "json", "json", "pretty-json"])
        if k == "tofile": sc = tofile_sc(rng, {"p.ptcl": u8(src)}, "p.ptcl", "out", lemmas=True, calm=False, fmt=fmt)
        else:
            opts = [] if k != "nolemma" else [rng.choice(["--ignore-lemmas", "--disable-cvc5"])]
            n = rng.choice([1, 2, 3])
            argv = ["--output-format", fmt, "p.ptcl", "auto", "--num-of-retry", str(n)] + opts + (["-l"] if k != "nolemma" else [])
            sc = dict(argv=argv, files={"p.ptcl": u8(src)}, plan=W.gen_plan(rng), meta=dict(problems=L + 1 if k != "nolemma" else 1, proto="p"), faults=[])
            W.noise(rng, sc, p=.3)
            lits = W.PROTO["tiny.ptcl"]["lits"]; lits = [l for l in lits if "u(X0)" not in l]
            story(rng, sc, ends=["proven"] if k == "proven" else None, pool=lits, repeats=False, hang=.2)
        return dict(kind=k, sc=[sc], L=L, seed=seed)
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc); v = []; L = case["L"]
        text, lem, q = lemma_proto(random.Random(case["seed"]), L)
        def ref(p):
            goal = lem[p] if p < L else q
            t = text(lem[:p], [], goal)
            rr = ctx.cached(("c11", t), tofile_sc(None, {"p.ptcl": u8(t)}, "p.ptcl", "out"))
            return O.canon(rr.tree["out"]) if rr.tree.get("out") else None
        if case["kind"] == "tofile":
            if r.rc != 0: return [("tofile-failed", "to-file -l failed: %s" % r.err[-200:])]
            got = out_files(r, "out")
            want = {"out/%d.smt" % p for p in range(L + 1)}
            if set(got) != want: return [("files", "expected %s, found %s" % (sorted(want), sorted(got)))]
            for p in range(L + 1): v += cmp_lemma(O.canon(got["out/%d.smt" % p]), ref(p), p, L, "file %d.smt" % p)
            return v
        if case["kind"] == "nolemma":
            t = text([], [], q); rr = ctx.cached(("c11", t), tofile_sc(None, {"p.ptcl": u8(t)}, "p.ptcl", "out")); w = O.canon(rr.tree["out"])
            for p in r.procs.values():
                if p.snap is not None: v += cmp_lemma(O.canon(p.snap), w, L, L, "launch %d of %s" % (p.idx + 1, p.name), p.idx > 0)
            return v[:2]
        prob = 0; learned = False
        for k, x in enumerate(O.analyse(r)):
            if prob > L: v.append(("extra", "a round was started after the query was refuted")); break
            for p in x.procs:
                if p.snap is not None: v += cmp_lemma(O.canon(p.snap), ref(prob), prob, L, "round %d (%s)" % (k + 1, p.name), learned)
            if x.vt: learned = True
            if "unsat" in x.D: prob += 1
            elif not x.D and x.E: break
        v += strip(O.verdict_model(r, want=("c01", "c02")), "c01")
        R = O.report(r)
        if R.ok and R.tries is not None and len(R.tries) != L + 1: v.append(("results", "%d lemmas and a query, but %d results reported" % (L, len(R.tries))))
        return v[:3]

def cmp_lemma(got, want, p, L, where, learned=False):
    if want is None: return []
    v = []
    if got[2] != want[2]: return [("goal", "%s: problem %d of %d has the wrong goal: %s" % (where, p + 1, L + 1, str(got[2])[:200]))]
    miss = set(want[1]) - set(got[1]); extra = set(got[1]) - set(want[1]) - {"true"}
    if learned: extra = {x for x in extra if re.search(r"\bm[klq]", x)}
    if miss: v.append(("missing-lemma", "%s: an assumption of problem %d is missing: %s" % (where, p + 1, sorted(miss)[0][:200])))
    if extra: v.append(("unproved-assumed", "%s: problem %d assumes something it must not: %s" % (where, p + 1, sorted(extra)[0][:200])))
    return v

# ------------------------------------------------------------------ C12
SMALLF = ["tiny.ptcl", "lem3.ptcl", "multi.ptcl", "plain.ptcl", "euf_key_secrecy.ptcl", "basic-hash-1.ptcl", "sq-full1-1.json", "sq-full1-3.json"]
OUTF = [("mkdir", [13, 28, 30], 1), ("openw", [13, 28, 30, 24, 5], 1), ("writef", [28, 5, 122, 27], 3)]
def success(r):
    R = O.report(r); return bool(R.ok)
class C12(Prop):
    id = "C12"; level = "fault_enumeration"; rule = "to-file over corpus files, with and without lemmas, into new, nested, existing (longer, read back), blocked and standard-output locations; failing, short, interrupted and disk-full writes at every position."
    cases = {"quick": 1600, "thorough": 40000}
    def gen(s, rng, i):
        proto = rng.choices(SMALLF, [6, 5, 4, 3, 3, 1, 1, 1])[0]
        sq = proto.endswith(".json")
        nl = 0 if sq else W.PROTO[proto]["lemmas"]
        lem = not sq and rng.random() < (.6 if nl else .2)
        k = rng.choice(["plain", "fault", "fault", "exists", "blocked", "diskfull", "stdout"])
        if k == "stdout" and (lem or sq): k = "plain"
        out = rng.choice(["out.smt", "d/out.smt", "d/e/f/out", "tmp/x/out", "./o", "/proc/self/cwd/abs/out.smt"])
        sc = tofile_sc(rng, {proto: "@" + proto}, proto, out if k != "stdout" else (None if rng.random() < .5 else "/dev/stdout"), lemmas=lem, cvc5=rng.random() < .3, theory=rng.random() < .3, calm=rng.random() < .5, fmt=rng.choice(["stdout", "json", "quiet", "pretty-json"]) if k != "stdout" else rng.choice(["stdout", "quiet"]))
        rel = out.replace("/proc/self/cwd/", "").replace("./", "")
        nf = (nl + 1) if lem else 1
        suf = ["/%d.smt" % j for j in range(nf)] if lem else (["/%d" % j for j in range(SQALL[proto])] if sq else [""])
        names = [rel + x for x in suf]
        W.noise(rng, sc, classes=("writef",) if k != "stdout" else ("writef", "writeo"), p=.5)
        if k == "fault":
            for _ in range(rng.choice([1, 1, 2])):
                c, errs, per = rng.choice(OUTF); sc["faults"].append([c, rng.randrange(per * len(names)), rng.choice(errs), sticky(rng)])
        elif k == "diskfull": sc["plan"]["diskcap"] = W.logu(rng, 1, 60000)
        elif k == "exists":
            for n in names: sc["files"][n] = rng.choice(["", "x", "(check-sat)\n" * rng.choice([1, 5000, 20000]), "old content " * 30000])
            if rng.random() < .3: sc["faults"].append(["writef", rng.randrange(3), 28, sticky(rng)])
        elif k == "blocked":
            n = rng.choice(names)
            if rng.random() < .5 or "/" not in n: sc.setdefault("dirs", []).append(n)     # a directory where the file should go
            else: sc["files"][n.split("/")[0] if not n.startswith("tmp/") else "tmp/x"] = "a file where a directory should go"
        return dict(kind=k, sc=[sc], names=names, suf=suf)
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc); v = []; names = case["names"]; k = case["kind"]
        ok = success(r); hf = O.hard_faults(r)
        if O.report(r).bad and O.report(r).bad != "nojson": return O.abnormal(r)
        full = any("ENOSPC" in l or " 28" in l for _, l in r.writeerrs)
        rc = json.loads(json.dumps(sc)); rc["plan"] = dict(seed=7, mode=2, randseed=7, t0=10**18); rc["faults"] = []; rc["files"] = {f: c for f, c in sc["files"].items() if c.startswith("@")}; rc.pop("dirs", None); rc.pop("short", None); rc.pop("eintr", None)
        a = rc["argv"]
        if "-o" in a and k != "stdout": a[a.index("-o") + 1] = "zz/ref"
        ref = ctx.cached(("c12", json.dumps(rc, sort_keys=True)), rc)
        if ok:
            if hf: v.append(("hidden-fault", "a system call failed (%s) but to-file reports success" % hf[0][4]))
            if k == "blocked": v.append(("hidden-block", "the output location cannot be created but to-file reports success"))
            if k == "stdout":
                got = {"-": r.out}
            else: got = {n: r.tree.get(n) for n in names}
            for n, c in got.items():
                w = ref.out if k == "stdout" else ref.tree.get("zz/ref" + case["suf"][names.index(n)])
                if c is None: v.append(("missing", "to-file reports success but %s does not exist" % n)); continue
                if w is None: v.append(("reference", "the reference run wrote no file for %s (%s)" % (n, sorted(ref.tree)))); continue
                if c == w: continue
                try: same = O.canon(c) == O.canon(w) and not O.wellformed(c)
                except Exception: same = False
                if not same: v.append(("incomplete", "to-file reports success but %s is not the complete problem (%d bytes, complete one has %d)" % (n, len(c), len(w))))
        elif not hf and k not in ("blocked", "diskfull") : v.append(("spurious-failure", "nothing failed but to-file reports failure: %s" % (r.err[-200:].decode("utf-8", "replace") or r.out[-200:])))
        elif k == "diskfull" and not hf and not r.writeerrs: v.append(("spurious-failure", "no write failed but to-file reports failure: %s" % r.err[-200:]))
        for n, c in sc["files"].items():
            if n not in names and r.tree.get(n) != core.content(c): v.append(("clobbered", "%s was modified" % n))
        return v
# ------------------------------------------------------------------ C13
class C13(Prop):
    id = "C13"; rule = "stories with every exit path, with and without a (relative, nested, existing, populated) debug directory, temporary-name collisions, failing calls, foreign files lying around; the scratch tree is compared before and after."
    def gen(s, rng, i):
        k = rng.choice(["tmp", "tmp", "debug", "debug", "fault", "debugfault"])
        dbg = k.startswith("debug")
        sc = general(rng, faults=1.0 if "fault" in k else 0, classes=("openw", "writef", "spawn", "pipe", "readp", "thread"), debug=1.0 if dbg else 0, n=rng.choice([1, 2, 3, 5]), protos=W.SMALL + ["basic-hash-1.ptcl"])
        for _ in range(rng.randrange(3)): sc["faults"].append(["openw", rng.randrange(2 * nlaunch(sc)), 17, 0])   # name taken: try another
        for _ in range(rng.randrange(3)):
            sc["files"][rng.choice(["tmp/cryptovampire-z3%s.smt", "tmp/cryptovampire-vampire%s.smt", "tmp/other%s", "dbg/cryptovampire-z3%s.smt", "dbg/0%s.smt"]) % "".join(rng.choice("abcXYZ012") for _ in range(6))] = "somebody else's file %d\n" % rng.randrange(1000)
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc); v = []
        R = O.report(r)
        if R.bad and R.bad != "nojson": return v
        a = sc["argv"]; d = a[a.index("--solver-file-debug") + 1] if "--solver-file-debug" in a else None
        for e in r.escapes: v.append(("escape", "wrote outside the temporary and debug directories: %s" % e))
        for n, c in sc["files"].items():
            if r.tree.get(n) != core.content(c): v.append(("foreign", "%s, which is not the tool's, was changed or removed" % n))
        pre = set(sc["files"])
        for n in list(pre):
            while "/" in n: n = n.rsplit("/", 1)[0]; pre.add(n + "/")
        new = {n: c for n, c in r.tree.items() if n not in pre and n not in ("tmp/",)}
        hf = O.hard_faults(r)
        handed = {}
        for p in r.procs.values():
            f = norm(p.file)
            if f in handed: v.append(("reused", "%s was handed to two solvers" % f))
            handed[f] = p
            if not d and not f.startswith("tmp/"): v.append(("place", "%s is not in the temporary directory" % f))
            if d and f.rsplit("/", 1)[0] != d: v.append(("place", "%s is not in the debug directory %s" % (f, d)))
        if d is None:
            if new: v.append(("leftover", "left behind: %s" % sorted(new)))
        else:
            dirs = set()
            q = d
            while q: dirs.add(q + "/"); q = q.rsplit("/", 1)[0] if "/" in q else ""
            fs = {n: c for n, c in new.items() if n not in dirs}
            for f, p in handed.items():
                if f not in fs: v.append(("debug-missing", "%s was handed to %s but was not kept" % (f, p.name)))
                elif p.snap is not None and fs[f] != p.snap: v.append(("debug-changed", "%s differs from what %s read" % (f, p.name)))
            extra = set(fs) - set(handed)
            allow = len(r.spawnfails) + len(hf)
            if len(extra) > allow: v.append(("extra", "unexpected files: %s" % sorted(extra)))
            for f in extra:
                if f.rsplit("/", 1)[0] != d: v.append(("place", "unexpected file %s outside the debug directory" % f))
        return v
def norm(f):
    f = f.replace("/proc/self/cwd/", "")
    import os
    return os.path.normpath(f)

# ------------------------------------------------------------------ C14
def marked_input(rng, size, huge=0):
    """A protocol with many markers, the last of them at the very end; every prefix up to a marker is itself acceptable."""
    head = core.content("@tiny.ptcl").decode()
    n = 0; parts = [head]; cuts = []
    while sum(map(len, parts)) < size or n == 0:
        cuts.append(sum(map(len, parts)))
        pad = "".join(rng.choice("abcdefghij é∀\u00df" if n % 3 else "ab \u00e9\x00\x1a\r\ufeff\x0c\x04\x1b\U0001f512\u2028") for _ in range(rng.randrange(0, 300))) if rng.random() < .5 else ""
        if huge and n == 2: pad = "a line of prose\n" * (huge // 16)
        parts.append(("/* %s */\n" % pad if pad else "") + "fun mark%d:Message\nassert (mark%d != mark%d)\n" % (n, n, max(0, n - 1)) if n else "fun mark0:Message\nassert (mark0 != mark0)\n")
        n += 1
    return "".join(parts), n

class C14(Prop):
    id = "C14"; level = "fault_enumeration"; rule = "inputs of up to several pipe buffers from a file or standard input, delivered in arbitrary pieces with pauses and EINTR; failing opens, reads at every position, undecodable bytes at every position, directories and missing files."
    cases = {"quick": 1300, "thorough": 30000}
    def gen(s, rng, i):
        k = rng.choice(["file", "stdin", "stdin", "file-fault", "stdin-fault", "open-fault", "nonutf8", "missing"])
        seed = rng.getrandbits(32); size = rng.choice([0, 1000, 5000, 9000, 20000]) if rng.random() < .9 else 60000
        huge = 0 if i % 40 else rng.choice([150000, 400000, 1200000, 2500000])
        if huge: size = 5000; k = rng.choice(["file", "stdin"])
        text, n = marked_input(random.Random(seed), size, huge)
        data = text.encode("utf-8").decode("latin-1")
        auto = rng.random() < .5
        fmt = rng.choice(FMTS)
        stdin = "stdin" in k or (k == "nonutf8" and rng.random() < .5)
        if k == "nonutf8":
            at = rng.randrange(len(data) + 1); bad = rng.choice(["\xff", "\xc3\x28", "\xe2\x88", "\x80", "\xf0\x9f"])
            data = data[:at] + bad + data[at:]
            try: b(data).decode("utf-8"); data += "\xff"
            except UnicodeDecodeError: pass
        argv = ["--output-format", fmt] + ([] if stdin else ["in.ptcl"]) + (["auto", "--num-of-retry", "1"] if auto else ["to-file", "-o", "out.smt"])
        sc = dict(argv=argv, files={}, plan=W.gen_plan(rng, rng.random() < .5), meta=dict(problems=1, proto="in"), faults=[])
        if not stdin and k != "missing": sc["files"]["in.ptcl"] = data
        if k == "missing" and rng.random() < .4: sc["dirs"] = ["in.ptcl"]
        if stdin:
            st = []; pos = 0; lim = rng.choice([1, 10, 500, 5000, 100000]) if len(data) < 3000 else rng.choice([100, 4096, 65536, 200000]) if not huge else rng.choice([len(data) // 100, 3000000])
            while pos < len(data):
                m = rng.randrange(1, lim + 1); st.append(["w", 1, data[pos:pos + m]]); pos += m
                if rng.random() < .2: st.append(["d", W.delay(rng)])
            sc["stdin"] = st + [["x", 0]]
        c = "readin" if stdin else "readf"
        if rng.random() < .7 and not huge: sc["short"] = [[c, rng.choice([2000, 30000, 65536]), rng.choice([1, 3, 64, 1000]), rng.getrandbits(31)]] if len(data) < 12000 else [[c, 30000, rng.choice([500, 5000]), rng.getrandbits(31)]]
        if rng.random() < .6: sc["eintr"] = [[c, rng.choice([5000, 30000]), rng.getrandbits(31)]]
        if k.endswith("-fault"):
            if k == "open-fault": sc["faults"] = [["openr", 0, rng.choice([2, 13, 24, 5, 40]), sticky(rng)]]
            else: sc["faults"] = [[c, rng.randrange(rng.choice([1, 2, 4, 20])), rng.choice([5, 12, 21, 11] if c == "readin" else [5, 12, 21]), sticky(rng)]]
        return dict(kind=k, sc=[sc], n=n, stdin=stdin)
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc); v = []; k = case["kind"]; n = case["n"]
        R = O.report(r)
        if R.bad and R.bad != "nojson": return O.abnormal(r)
        fired = [f for f in r.faults if f[1] in ("readf", "readin", "openr") and f[3] != 4]
        must_fail = k in ("nonutf8", "missing") or bool(fired)
        files = [p.snap for p in r.procs.values() if p.snap is not None]
        if r.tree.get("out.smt") is not None: files.append(r.tree["out.smt"])
        if must_fail:
            if success(r): v.append(("hidden", "the input could not be read (%s) but the run reports success" % (k if not fired else fired[0][4])))
            if r.procs: v.append(("started", "the input could not be read (%s) but a solver was started" % k))
            if "out.smt" in r.tree: v.append(("wrote", "the input could not be read (%s) but an output file was written" % k))
            if r.rc == 0 and O.fmt_of(sc) not in ("json", "pretty-json"): v.append(("status", "the input could not be read but the exit status is 0"))
        else:
            if not files: v.append(("nothing", "the input was readable but nothing was generated (rc %s): %s" % (r.rc, (r.err or r.out)[-200:].decode("utf-8", "replace"))))
            for f in files:
                t = f.decode("utf-8", "replace")
                got = {int(x) for x in re.findall(r"\bmark(\d+)\b", t)}
                if got != set(range(n)): v.append(("truncated", "the input has %d markers, the generated problem has %d of them" % (n, len(got)))); continue
                na = len(re.findall(r"\bassert", t.replace("assert-theory", "assert").replace("assert-not", "assert")))
                for j in {0, 1, n // 2, n - 1} & set(range(n)):
                    pass
                e = O.wellformed(f)
                if e: v.append(("malformed", "generated file is malformed: %s" % e[0]))
        return v

# ------------------------------------------------------------------ C15
class C15(Prop):
    id = "C15"; rule = "every output format crossed with every run outcome (stories, failing solvers, failing calls, several problems, Squirrel calls, to-file), with failing, short and interrupted writes on standard output and error."
    def gen(s, rng, i):
        k = rng.choice(["story", "story", "outfault", "fault", "tofile", "same"])
        if k == "tofile":
            proto = rng.choice(SMALLF); nl = W.PROTO[proto]["lemmas"] if proto in W.PROTO else 0
            sc = tofile_sc(rng, {proto: "@" + proto}, proto, rng.choice(["o.smt", "nested/o", 'a "b" c.smt', "x\\y/o", "d/naïve \u2203.smt", "t\tab'.smt", "e.d/x.y.smt"]), lemmas=bool(nl) and rng.random() < .5, calm=False, fmt=rng.choice(FMTS))
            W.noise(rng, sc, classes=("writeo", "writee", "writef"), p=.5)
            if rng.random() < .4: c, errs, per = rng.choice(OUTF); sc["faults"].append([c, rng.randrange(per), rng.choice(errs), sticky(rng)])
            return dict(kind=k, sc=[sc])
        if k == "same":    # one history, all formats
            sc = general(rng, fmts=["stdout"], hang=0, ends=["proven", "proven", "sat", "err", "nonew", "exhausted"], sq=.15)
            scs = []
            for f in ("stdout", "json", "pretty-json", "quiet"):
                c = json.loads(json.dumps(sc)); a = [x for x in c["argv"]]
                if "--output-format" in a: j = a.index("--output-format"); del a[j:j + 2]
                c["argv"] = (["--output-format", f] if f != "stdout" else []) + a; c["plan"] = W.gen_plan(rng)
                scs.append(c)
            return dict(kind=k, sc=scs)
        sc = general(rng, faults=1.0 if k == "fault" else 0, sq=.15)
        W.noise(rng, sc, classes=("writeo", "writee"), p=.5)
        if k == "outfault":
            for _ in range(rng.choice([1, 1, 2])): sc["faults"].append([rng.choice(["writeo", "writee"]), rng.randrange(rng.choice([1, 1, 4])), rng.choice([5, 28, 32]), sticky(rng, .6)])
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        v = []; outs = []
        for sc in case["sc"]:
            r = ctx.run(sc); v += c15(r, case["kind"]); outs.append(r)
        if case["kind"] == "same" and not v:
            R = [O.report(r) for r in outs]
            if len({x.ok for x in R}) > 1: v.append(("formats-disagree", "the same history is reported as %s" % {O.fmt_of(r.sc): x.ok for r, x in zip(outs, R)}))
            js = [x.tries for x in R[:3] if x.ok]
            if js and len({json.dumps(t) for t in js}) > 1: v.append(("formats-disagree", "tries differ between formats: %s" % js))
            cs = {O.cause(x.text) for x in R[:3] if x.ok is False}
            if len(cs) > 1: v.append(("formats-disagree", "the cause of the failure differs between formats: %s" % [x.text[-100:] for x in R[:3]]))
        return v

def c15(r, kind):
    v = []; sc = r.sc; fmt = O.fmt_of(sc); R = O.report(r)
    if R.bad and R.bad != "nojson": return v
    outfault = [f for f in r.faults if f[1] in ("writeo", "writee")]
    hf = O.hard_faults(r)
    if fmt == "quiet":
        err = re.sub(rb"(?m)^solver warning: something\n", b"", r.err)     # a solver's own standard error is inherited
        if r.out or (err and r.rc in (0, 1)): v.append(("quiet", "quiet mode printed %r %r" % (r.out[:80], r.err[:200])))
    elif fmt in ("json", "pretty-json"):
        if not outfault and not any(f[1] == "thread" for f in r.faults):
            try: j = json.loads(r.out.decode("utf-8"))
            except Exception as e: j = None; v.append(("json", "standard output is not exactly one JSON value: %r (rc %s, stderr %r)" % (r.out[:120], r.rc, r.err[-200:])))
            if j is not None and (not isinstance(j, dict) or len(j) != 1 or list(j)[0] not in ("Ok", "Err")): v.append(("json", "unexpected JSON value %r" % r.out[:120]))
            if j is not None and "Ok" in j and r.rc != 0: v.append(("status", "an Ok object with exit status %s" % r.rc))
            if isinstance(j, dict) and "Err" in j and not (isinstance(j["Err"], str) and j["Err"].strip()): v.append(("cause", "the error object names no cause"))
        elif outfault and r.rc == 0:
            try: json.loads(r.out.decode("utf-8"))
            except Exception: v.append(("lost-output", "standard output failed (%s), the JSON value is incomplete, but the exit status is 0" % outfault[0][4]))
    else:
        if r.rc != 0 and not r.err and not outfault: v.append(("silent", "exit status %s without a word" % r.rc))
    if kind == "tofile":
        bad = [f for f in hf if f[1] not in ("writeo", "writee")]
        if bad and R.ok: v.append(("hidden", "a call failed (%s) but success is reported" % bad[0][4]))
        if not hf and not R.ok: v.append(("spurious", "nothing failed but failure is reported: %r %r" % (r.out[-200:], r.err[-200:])))
        if R.ok and fmt == "json" and not outfault:
            loc = sc["argv"][sc["argv"].index("-o") + 1]; fl = O.flatten(R.json["Ok"])
            if any(k != "file" for k, _ in fl): v.append(("kind", "to-file reported as %s" % fl))
            elif not sc["argv"][-1].endswith("json") and len(fl) == 1 and fl[0][1] != loc and "squirrel-json" not in sc["argv"]: v.append(("location", "reported location %s, requested %s" % (fl[0][1], loc)))
    else:
        v += strip([x for x in O.verdict_model(r, want=("c15", "c01", "c02"))], "c15")
        # one result per problem
        if R.ok and R.tries is not None and not outfault and len(R.tries) != O.npbl(sc): v.append(("results", "%d problems, %d results" % (O.npbl(sc), len(R.tries))))
    return v

# ------------------------------------------------------------------ C16
def hostile(rng, pool, depth=0):
    """A piece of solver output meant to upset the parser."""
    lit = rng.choice(pool) if pool else "foo(X0)"
    f = lit.split("(")[0]
    syms = sorted(set(re.findall(r"'[^']*'|[a-z]\w*", " ".join(pool)))) or ["foo"]
    if rng.random() < .45:
        return "".join("[SA] new: %d. %s [%s]\n" % (rng.randrange(1, 9999), " | ".join(tptp_literal(rng, rng.choice(pool) if pool else lit, syms) for _ in range(rng.choice([1, 1, 2, 4]))), rng.choice(["input", "resolution 1,2"])) for _ in range(rng.choice([1, 3, 8])))
    if rng.random() < .2: return "".join(rng.choice(WORDS) + "\n" for _ in range(rng.choice([1, 2, 5])))
    def garb(n): return u8("".join(rng.choice(["[SA] new: ", "(", ")", ",", "|", "~", "!=", "=", "X0", "X1", f, "'", '"', "$", " ", "\t", "1", "é", "\x00", "%", "[input]", ". ", "\r", "[", "]", "&", "?", "!", ":", "input", "'cast$Message$name'", "vf", "key"]) for _ in range(n)))
    return rng.choice([
        lambda: garb(rng.randrange(1, 60)) + "\n",
        lambda: "[SA] new: %s. %s [input]\n" % (rng.choice(["1", "", "-3", "9" * 40, "x", "1.5"]), garb(rng.randrange(1, 30))),
        lambda: "[SA] new: 3. %s [input]\n" % mutate(rng, lit),
        lambda: "[SA] new: 3. %s [input]\n" % mutate(rng, mutate(rng, lit)),
        lambda: "[SA] new: 4. %s" % lit[:rng.randrange(len(lit))],
        lambda: "[SA] new: 4. %s\r\n" % lit, lambda: "\r\r\n\n", lambda: "\x00" * rng.randrange(1, 50) + "\n",
        lambda: "[SA] new: 5. %s [input]\n" % " | ".join(mutate(rng, rng.choice(pool) if pool else "p") for _ in range(rng.choice([1, 3, 40]))),
        lambda: "[SA] new: 6. %s%s%s [input]\n" % (f + "(" * 1, ",".join(["X%d" % rng.choice([0, 1, 99, 2**31, 2**32 - 1, 2**32, 2**64, 10**30])] * 3), ")"),
        lambda: "[SA] new: 7. %s [input]\n" % nest(rng, rng.choice([3, 10, 40, 40, 120, 250, 5000, 60000])),
        lambda: "unsat\n", lambda: "sat\n", lambda: "timeout\n", lambda: "unsat \n", lambda: " unsat", lambda: "unsat\nunknown\n", lambda: "% SZS status Unsatisfiable\n", lambda: "Satisfiable!\n",
        lambda: W.big(rng, rng.choice([1000, 70000, 150000])), lambda: "x" * rng.choice([10, 70000]), lambda: "[SA] new: 1. " * 300 + "\n", lambda: "[SA] new: 8. %s [superposition %s]\n" % (lit, ",".join(map(str, range(rng.choice([2, 2000]))))),
        lambda: u8("\u2200\u00df\u0130 [SA] new: 9. \u2200(X0) [input]\n")])()
def tptp_term(rng, syms, d):
    """Any term TPTP syntax knows, with symbols of the problem at right and wrong arities."""
    x = rng.random()
    if d <= 0 or x < .25: return rng.choice(["X%d" % rng.randrange(6), "X%d" % rng.randrange(6), rng.choice(syms), rng.choice(syms), "3", "-3", "+3", "1/2", "1.5", "1.0E5", "0", '"a string"', '""', "'quoted'", "'it\\'s'", "'Message$x'", "$true", "$false", "$i", "$$sys", "nosuch", "sK12", "'sK3'", "_X", "'X0'"])
    f = rng.choice(syms + [rng.choice(["nosuch", "'odd name'", "$sum", "$uminus", "$$sys", "$distinct", "$ite", "sK1", "if_then_else", "'cast$Message$name'", "'sel1of2'", "not", "=", "and"])])
    return "%s(%s)" % (f, ",".join(tptp_term(rng, syms, d - 1) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4]))))
def tptp_literal(rng, lit, syms):
    """A literal that mentions the relevant symbol of lit; often lit with one subterm replaced."""
    f = lit.split("(")[0]
    if rng.random() < .6:      # replace one argument somewhere
        subs = [m.span() for m in re.finditer(r"X\d|\b[a-z]\w*\b(?!\()", lit)] or [(0, 0)]
        a, z = rng.choice(subs); l = lit[:a] + tptp_term(rng, syms, rng.choice([0, 0, 1, 2])) + lit[z:]
    else: l = "%s(%s)" % (f, ",".join(tptp_term(rng, syms, 2) for _ in range(rng.choice([1, 2, 3, 3, 3, 4]))))
    t = lambda: tptp_term(rng, syms, 1)
    return rng.choice([l, l, l, "~" + l, "~ " + l, "%s = %s" % (l, t()), "%s != %s" % (t(), l), "~(%s = %s)" % (l, t()), "(%s)" % l, "(%s = %s)" % (l, t()), "![X0] : %s" % l, "%s <=> %s" % (l, t()), "%s & %s" % (l, t())])
WORDS = ["unsat", "sat", "unknown", "timeout", "Unsatisfiable", "Satisfiable", "Theorem", "Refutation", "Refutation found. Thanks to Tanya!", "% SZS status Unsatisfiable for x", "% SZS status Satisfiable", "% SZS status Timeout", "% SZS status Theorem", "% SZS status GaveUp", "% SZS output start Proof for x",
         "% Termination reason: Refutation", "% Termination reason: Time limit", "% Termination reason: Satisfiable", "% Termination reason: Memory limit", "% Refutation not found, incomplete strategy", "% Time limit reached!", "Timeout", "TIMEOUT", "timed out", "error", "(error \"x\")", "Error: x", "ERROR", "Segmentation fault", "out of memory", "Aborted", "killed", "panicked at",
         "User error: x", "Parsing Error on line 3", "success", "failure", "interrupted by user", "canceled", "(:reason-unknown \"timeout\")", "Ok", "Err", "% Exception at proof search level", "resource limit reached", "WARNING: x", "unsupported"]
def nest(rng, n):
    g = rng.choice(["h(%s,X0)", "f(%s)", "'cast$Message$name'(%s)", "input(%s)", "pair(%s,%s)" if n < 8 else "h(%s,X1)"])
    t = "X0"
    for _ in range(n): t = g.replace("%s", t)
    return rng.choice(["vf(%s,X0,key)", "vf(X0,%s,'cast$Message$name'(key))", "p(%s)", "~%s"]) % t
def mutate(rng, l):
    ops = [lambda: l.replace("(", "", 1), lambda: l.replace(")", "", 1), lambda: l + ")", lambda: l.replace(",", "", 1), lambda: l.replace(",", ",,", 1), lambda: l.replace("X0", "X99999999999999999999"), lambda: l.replace("X0", "x0"), lambda: l.replace("(", "(nosuch(", 1) + ")", lambda: "~" + l, lambda: "~~" + l, lambda: "(" + l + ")", lambda: l + " = " + l, lambda: l + " != " + l, lambda: l.replace("'", ""), lambda: l.replace("'", "''"), lambda: l[:rng.randrange(len(l) + 1)], lambda: l[rng.randrange(len(l) + 1):], lambda: l.replace("(", "()", 1), lambda: l.replace("key", "n"), lambda: l.replace("key", "input"), lambda: l.replace("input", "key"), lambda: l.replace("X0", "t(X0)"), lambda: l + "\x00", lambda: l.upper(), lambda: l.replace(",", " "), lambda: " ".join(l), lambda: l * 2, lambda: "$true", lambda: "$false", lambda: l.replace("X0", l)]
    return rng.choice(ops)()

class C16(Prop):
    id = "C16"; rule = "solver output assembled from mutated and truncated clauses of the protocol's own symbols, wrong arities and sorts, huge variable numbers, control and multi-byte characters, floods, misplaced verdict words and odd line endings, with every exit status and delivery, over several rounds."
    def gen(s, rng, i):
        k = rng.choice(["vampire", "vampire", "vampire", "z3", "both", "words"])
        proto = W.pick_proto(rng, lits=True); nl = W.PROTO[proto]["lemmas"]
        kw = dict(ignore=True) if nl and rng.random() < .8 else {}
        sc = mk(rng, proto, fmt="json", n=rng.choice([1, 2, 3, 4]), **kw)
        pool = W.PROTO[proto]["lits"]
        def blob():
            t = "".join(hostile(rng, pool) for _ in range(rng.choice([1, 2, 5, 12])))
            if rng.random() < .2: t = t[:rng.randrange(len(t) + 1)]
            if rng.random() < .08: t += rng.choice(["\xff", "\xc3", "\xed\xa0\x80"])
            return t
        zs = []; vs = []; n = O.expect_rounds(sc) * O.npbl(sc)
        if k == "words":      # clear answers, misleading words around them
            ws = lambda: "".join(rng.choice(["", " ", "% "]) + rng.choice(WORDS) + rng.choice(["\n", "\n", " \n", "\r\n"]) for _ in range(rng.choice([0, 1, 2, 6])))
            for j in range(n):
                z = rng.choice(["unsat", "sat", "unknown", "unknown", "unknown", "timeout"]); ve = rng.choice([["x", 0], ["x", 1], ["x", 1], ["k", 9], ["k", 9]])
                zs.append(W.life(rng, ws() + z + rng.choice(["\n", "", "\r\n"]), ["x", 0])); vs.append(W.life(rng, ws(), ve))
            sc["scripts"] = dict(z3=zs, vampire=vs); sc["meta"]["learn"] = [False] * len(vs)
            return dict(kind=k, sc=[sc])
        for j in range(n):
            lastz = rng.choice(["", "", "unknown\n", "unsat\n", "unsat", "sat\n", "unsat \r\n", "unsat\n\n", "unsat\n \n", "unsat.", "\tunsat"]) if rng.random() < .4 else "unknown\n"
            zs.append(W.life(rng, (blob() if k != "vampire" else "") + lastz, rng.choice([["x", 0]] * 6 + [["x", 1], ["k", 11]])))
            vs.append(W.life(rng, blob() if k != "z3" else "", rng.choice([["x", 1]] * 8 + [["x", 0], ["x", 2], ["k", 9]])))
        sc["scripts"] = dict(z3=zs, vampire=vs); sc["meta"]["learn"] = None
        return dict(kind=k, sc=[sc])
    def judge(s, case, ctx):
        r = ctx.run(case["sc"][0]); v = []
        R = O.report(r)
        if R.bad: return [("crash-" + R.bad, "the run ended abnormally on solver output: %s (rc %s) %s" % (R.bad, r.rc, r.err[-300:].decode("utf-8", "replace")))]
        if r.rc != 0: return [("panic", "solver output made the run panic: rc %s %s" % (r.rc, r.err[-400:].decode("utf-8", "replace")))]
        v += [x for x in O.verdict_model(r, want=("c01", "c02", "c03", "c06"))]
        for x in O.c07(r): v.append(("next-" + x[0], "after hostile output: " + x[1]))
        return v

# ------------------------------------------------------------------ C17
class C17(Prop):
    id = "C17"; rule = "Squirrel calls with one to four, and thirteen, problems: stories over all problems with failures in between, to-file with and without faults and existing files; order and content of the problems compared with the single-problem calls."
    cases = {"quick": 700, "thorough": 15000}
    def gen(s, rng, i):
        k = rng.choice(["auto", "auto", "tofile", "tofile-fault"])
        proto = rng.choice(list(SQ)) if i % 25 != 7 else "sq-full1-13.json"; n = SQALL[proto]
        if k == "auto":
            sc = mk(rng, proto, n=rng.choice([None, 1, 2]), fmt=rng.choice(["json", "json", "stdout", "quiet", "pretty-json"]))
            story(rng, sc, hang=.2); return dict(kind=k, sc=[sc], n=n, proto=proto)
        out = rng.choice(["out", "a/b/out", "out/"])
        sc = tofile_sc(rng, {proto: "@" + proto}, proto, out, calm=False, fmt=rng.choice(["json", "stdout"]), lemmas=rng.random() < .3)
        W.noise(rng, sc, classes=("writef", "readf"), p=.5)
        if k == "tofile-fault":
            c, errs, per = rng.choice(OUTF); sc["faults"].append([c, rng.randrange(per * n), rng.choice(errs), sticky(rng)])
        if rng.random() < .3: sc["files"][out.rstrip("/") + "/%d" % rng.randrange(n) + ("/0.smt" if "-l" in sc["argv"] else "")] = "old " * rng.choice([1, 100000])
        return dict(kind=k, sc=[sc], n=n, proto=proto)
    def judge(s, case, ctx):
        sc = case["sc"][0]; r = ctx.run(sc); v = []; n = case["n"]
        ref = single_problems(ctx, case["proto"])
        if case["kind"] == "auto":
            v += strip(O.verdict_model(r, want=("c01", "c02", "c03", "c06")), "c17")
            prob = 0
            for k, x in enumerate(O.analyse(r)):
                if prob >= n: v.append(("extra", "solvers were started after the last problem was refuted")); break
                for p in x.procs:
                    if p.snap is not None and ref and O.canon(p.snap)[2] != ref[prob][2]: v.append(("order", "round %d poses the wrong problem (expected number %d of %d)" % (k + 1, prob + 1, n)))
                    elif p.snap is not None and ref and not strictly(O.canon(p.snap), ref[prob]): v.append(("mixed", "round %d: problem %d differs from the same problem on its own: %s" % (k + 1, prob + 1, "; ".join(smt.diff(O.canon(p.snap), ref[prob])))))
                if "unsat" in x.D: prob += 1
            R = O.report(r)
            if R.ok and R.tries is not None and len(R.tries) != n: v.append(("results", "%d problems, %d results" % (n, len(R.tries))))
            return v[:3]
        base = sc["argv"][sc["argv"].index("-o") + 1].rstrip("/"); hf = O.hard_faults(r); ok = success(r); lem = "-l" in sc["argv"]
        got = out_files(r, base); want = ["%s/%d%s" % (base, j, "/0.smt" if lem else "") for j in range(n)]
        if ok and hf: v.append(("hidden", "a call failed (%s) but success is reported" % hf[0][4]))
        if not ok and not hf: v.append(("spurious", "nothing failed but failure is reported: %r %r" % (r.out[-200:], r.err[-200:])))
        if ok and sorted(got) != sorted(want): v.append(("places", "expected exactly %s, found %s" % (want, sorted(got))))
        if not set(got) <= set(want): v.append(("places", "unexpected files %s" % sorted(set(got) - set(want))))
        if ok:
            for j, w in enumerate(want):
                if w in got and ref:
                    try: bad = not strictly(O.canon(got[w]), ref[j])
                    except Exception: bad = True
                    if bad: v.append(("content", "%s does not hold problem %d" % (w, j)))
            R = O.report(r)
            if O.fmt_of(sc) == "json" and len(R.many) != n: v.append(("results", "%d problems, %d results" % (n, len(R.many))))
        return v
def strictly(a, w):
    return a[2] == w[2] and a[0] == w[0] and set(a[1]) - {"true"} == set(w[1]) - {"true"}

def single_problems(ctx, proto):
    """each problem of the call, generated from a call that contains only that one"""
    if ("sq", proto) in ctx.cache: return ctx.cache[("sq", proto)]
    import squirrel
    out = []
    for t in squirrel.singles(core.content("@" + proto).decode()):
        rr = core.run(tofile_sc(None, {"s.json": u8(t)}, "s.json", "ref"), ctx.d, cov=ctx.cov)
        f = [c for k, c in sorted(rr.tree.items()) if k.startswith("ref/") and c]
        out.append(O.canon(f[0]) if f else None)
    if any(x is None for x in out): out = None
    ctx.cache[("sq", proto)] = out
    return out

# ------------------------------------------------------------------ C18
def crash_at(rng, sc):
    """The tool is killed at an arbitrary point: at an instruction, or just before a given call."""
    c = rng.random()
    if c < .4: sc["plan"]["crash"] = W.logu(rng, 20000, 20000000)
    else:
        k, per = rng.choice([("openw", 2), ("writef", 4), ("writef", 30), ("unlink", 2), ("spawn", 2), ("pipe", 2), ("readp", 3), ("wait", 2), ("mkdir", 1), ("thread", 2), ("close", 8)])
        sc["faults"] = [[k, rng.randrange(per * nlaunch(sc)), 1001, 0]]
    if rng.random() < .5: sc["short"] = [["writef", 65536, rng.choice([1, 7, 100, 4096]), rng.getrandbits(31)]]

def same_names(rng, scs):
    if rng.random() < .6:
        for c in scs[1:]: c["plan"]["randseed"] = scs[0]["plan"]["randseed"]; c["plan"]["pidbase"] = scs[0]["plan"]["pidbase"]; c["plan"]["t0"] = scs[0]["plan"]["t0"]

class C18(Prop):
    id = "C18"; rule = "sequences of two to four runs sharing working, temporary, debug and output directories (often with the same temporary-name seed and process ids); all but the last are killed at an arbitrary instruction or call, or complete; what they leave behind may be torn; the last run is compared with the same run in fresh directories."
    cases = {"quick": 700, "thorough": 25000}
    def gen(s, rng, i):
        k = rng.choice(["auto", "auto", "debug", "tofile", "tofile"])
        n = rng.choice([1, 1, 1, 2, 3]); scs = []
        if k == "tofile":
            lem = rng.random() < .4; sq = not lem and rng.random() < .2
            names = (["lem3.ptcl", "multi.ptcl", "euf_key_secrecy.ptcl"] if lem else (["sq-full1-2.json", "sq-full1-3.json"] if sq else [x for x in SMALLF if not x.endswith(".json")]))
            out = rng.choice(["out.smt", "d/out", "tmp/o"])
            for j in range(n + 1):
                proto = rng.choice(names)
                c = tofile_sc(rng, {proto: "@" + proto}, proto, out, lemmas=lem, cvc5=rng.random() < .3, theory=rng.random() < .3, calm=rng.random() < .5, fmt=rng.choice(["stdout", "json"])); c["scripts"] = {}
                scs.append(c)
        else:
            for j in range(n + 1):
                proto = W.pick_proto(rng, W.SMALL)
                kw = {} if not W.PROTO[proto]["lemmas"] else rng.choice([dict(ignore=True), dict(lemmas=False), {}])
                c = mk(rng, proto, n=rng.choice([1, 2, 3]), debug="dbg" if k == "debug" else None, **kw)
                story(rng, c, ends=["exhausted", "proven", "proven", "nonew", "sat"], hang=0)
                scs.append(c)
        for c in scs[:-1]:
            if rng.random() < .85: crash_at(rng, c)
        same_names(rng, scs)
        return dict(kind=k, sc=scs, torn=[rng.random() if rng.random() < .4 else None for _ in range(8)], base=dict(scs[-1]["files"]), extra={"tmp/keep.txt": "not the tool's\n"})
    def judge(s, case, ctx):
        v = []; left = {n: core.content(c) for n, c in case["extra"].items()}; scs = case["sc"]; tidx = 0
        for c in scs[:-1]:
            src = c.setdefault("src", dict(c["files"]))
            c["files"] = dict({n: x.decode("latin-1") for n, x in left.items()}, **src)
            r = ctx.run(c)
            left = {n: x for n, x in r.tree.items() if x is not None and n not in src}
            for n in sorted(left):
                if n in case["extra"]: continue
                t = case["torn"][tidx % len(case["torn"])]; tidx += 1
                if t is not None: left[n] = left[n][:int(len(left[n]) * t)]
        last = scs[-1]; ref = json.loads(json.dumps(last)); ref["files"] = dict(case["base"])
        last["files"] = dict({n: x.decode("latin-1") for n, x in left.items()}, **case["base"])
        r = ctx.run(last); q = ctx.run(ref)
        a, b_ = O.report(r), O.report(q)
        if b_.bad and b_.bad != "nojson": return v
        if (r.rc, a.ok, a.tries) != (q.rc, b_.ok, b_.tries): v.append(("outcome", "after %d earlier runs the same run ends with status %s (%s) instead of %s: %s" % (len(scs) - 1, r.rc, a.tries if a.ok else "failure", q.rc, (r.err or r.out)[-200:].decode("utf-8", "replace"))))
        if O.fmt_of(last) in ("json", "pretty-json", "quiet") and r.out != q.out and not v and "/tmp/" not in r.out.decode("utf-8", "replace"): v.append(("output", "the report differs after earlier runs: %s / %s" % (r.out[-150:], q.out[-150:])))
        x, y = content_of(r), content_of(q)
        if len(O.rounds(r)) != len(O.rounds(q)) and not v: v.append(("launches", "%d rounds instead of %d after earlier runs" % (len(O.rounds(r)), len(O.rounds(q)))))
        for key in sorted(set(x) & set(y)):
            if x[key] != y[key]: v.append(("content", "%s launch %d: the problem differs after earlier runs: %s" % (key[0], key[1] + 1, "; ".join(smt.diff(x[key], y[key]))))); break
        outn = {n for n in q.tree if q.tree[n] is not None and n not in case["base"]} if case["kind"] == "tofile" else set()
        for n, c in left.items():
            if n not in outn and r.tree.get(n) != c: v.append(("foreign", "%s, left by an earlier run or somebody else, was changed or removed" % n))
        new = {n for n in r.tree if r.tree[n] is not None and n not in left and n not in case["base"]}
        if case["kind"] == "tofile":
            for n in outn:
                if r.tree.get(n) is None: v.append(("missing", "%s was not written" % n))
                else:
                    e = O.wellformed(r.tree[n])
                    if e: v.append(("malformed", "%s is damaged after an earlier run was killed: %s" % (n, e[0])))
                    elif O.canon(r.tree[n]) != O.canon(q.tree[n]): v.append(("stale", "%s does not hold this run's problem: %s" % (n, "; ".join(smt.diff(O.canon(r.tree[n]), O.canon(q.tree[n]))))))
            if new - outn: v.append(("extra", "unexpected files: %s" % sorted(new - outn)))
        elif case["kind"] == "debug":
            k0 = len({n for n in q.tree if q.tree[n] is not None and n not in case["base"]})
            if len(new) != k0: v.append(("debug", "%d debug files instead of %d after earlier runs" % (len(new), k0)))
        elif new: v.append(("leftover", "left behind: %s" % sorted(new)))
        return v

# ------------------------------------------------------------------ C19
class C19(Prop):
    id = "C19"; variant = "log"; rule = "the same scenario without logging and with every log level and filter, standard error being fast, short, interrupted or failing; launches, problems, report, exit status and files compared."
    cases = {"quick": 1200, "thorough": 15000}
    def gen(s, rng, i):
        k = rng.choice(["auto", "auto", "auto", "tofile"])
        fmt = rng.choice(["json", "json", "quiet", "pretty-json", "stdout"])
        if k == "tofile":
            proto = rng.choice(["tiny.ptcl", "lem3.ptcl", "plain.ptcl", "multi.ptcl"])
            sc = tofile_sc(rng, {proto: "@" + proto}, proto, "out", lemmas=bool(W.PROTO[proto]["lemmas"]) and rng.random() < .5, calm=rng.random() < .5, fmt=fmt); sc["scripts"] = {}
        else:
            proto = W.pick_proto(rng, ["tiny.ptcl", "lem3.ptcl", "plain.ptcl", "multi.ptcl", "euf_key_secrecy.ptcl"])
            kw = {} if not W.PROTO[proto]["lemmas"] else rng.choice([dict(ignore=True), dict(lemmas=False), {}])
            sc = mk(rng, proto, n=rng.choice([1, 2, 3]), fmt=fmt, debug=rng.choice([None, None, "dbg"]), **kw)
            story(rng, sc, ends=["exhausted", "proven", "proven", "nonew", "sat", "err"], hang=.2)
        if rng.random() < .4:
            for L in sc["scripts"].values():       # long outputs: whatever handles them only when logging must not change them
                for q in L:
                    if O.stdout_of(q) and rng.random() < .7: q.insert(next((j for j, t in enumerate(q) if t[0] == "r"), 0) + 1, ["w", 1, "% search statistics of one strategy\n" * rng.choice([30, 200, 3000])])
        scs = [sc]
        for _ in range(rng.choice([1, 1, 2])):
            c = respin(rng, sc, timing=False); c["env"] = dict(RUST_LOG=rng.choice(["error", "warn", "info", "debug", "trace", "trace", "cryptovampire::runner=trace", "cryptovampire=debug,cryptovampire::smt=trace", "off", ""]))
            if rng.random() < .5 and fmt != "stdout":
                c["faults"] = [["writee", rng.choice([0, 0, 1, 3, 20, 200]), rng.choice([5, 28, 32, 11]), rng.choice([-1, -1, 0, 2])]]
            if rng.random() < .4: c["short"] = [["writee", 65536, rng.choice([50, 500]), rng.getrandbits(31)]]
            if rng.random() < .2: c["env"]["RUST_LOG_STYLE"] = rng.choice(["always", "never", "x"])
            scs.append(c)
        return dict(kind=k, sc=scs)
    def judge(s, case, ctx):
        v = []; base = None
        for j, sc in enumerate(case["sc"]):
            r = ctx.run(sc); c = content_of(r); R = O.report(r)
            own = {n for n in r.tree if r.tree[n] is not None and not re.match(r"tmp/solver_output_", n)}
            cur = (r, c, R, own)
            if base is None:
                base = cur
                if R.bad and R.bad != "nojson": return v
                continue
            q, c0, R0, own0 = base; lvl = sc["env"]["RUST_LOG"]
            if R.bad and R.bad != "nojson": v += [(a, "RUST_LOG=%s: %s" % (lvl, m)) for a, m in O.abnormal(r)]; continue
            if (r.rc, R.ok, R.tries) != (q.rc, R0.ok, R0.tries): v.append(("outcome", "RUST_LOG=%s: status %s (%s) instead of %s: %s" % (lvl, r.rc, R.tries if R.ok else "failure", q.rc, r.err[-200:].decode("utf-8", "replace")))); continue
            if R.ok and O.fmt_of(sc) in ("json", "pretty-json", "quiet") and re.sub(rb"cryptovampire-\w+", b"", r.out) != re.sub(rb"cryptovampire-\w+", b"", q.out): v.append(("output", "RUST_LOG=%s: standard output differs: %s / %s" % (lvl, r.out[-150:], q.out[-150:])))
            if set(c) != set(c0) and case["kind"] == "auto" and len(O.rounds(r)) != len(O.rounds(q)): v.append(("launches", "RUST_LOG=%s: %d rounds instead of %d" % (lvl, len(O.rounds(r)), len(O.rounds(q)))))
            for key in sorted(set(c) & set(c0)):
                if c[key] != c0[key]: v.append(("content", "RUST_LOG=%s: %s launch %d poses another problem: %s" % (lvl, key[0], key[1] + 1, "; ".join(smt.diff(c0[key], c[key]))))); break
            if case["kind"] == "tofile":
                if own != own0: v.append(("files", "RUST_LOG=%s: files %s instead of %s" % (lvl, sorted(own), sorted(own0))))
                else:
                    for n in own:
                        if r.tree[n] != q.tree[n] and (n in sc["files"] or O.canon(r.tree[n]) != O.canon(q.tree[n])): v.append(("content", "RUST_LOG=%s: %s differs" % (lvl, n)))
            elif {n for n in own if not n.startswith("dbg")} != {n for n in own0 if not n.startswith("dbg")}: v.append(("files", "RUST_LOG=%s: files %s instead of %s" % (lvl, sorted(own), sorted(own0))))
        return v

PROPS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19)}
