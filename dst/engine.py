"""Seeded search: generates cases, runs them on all cores, judges, minimises and reports."""
import collections, hashlib, json, multiprocessing as mp, os, random, shutil, subprocess, sys, time, traceback
import core, oracle

def scratch_root():
    for base in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(base)
            if os.access(base, os.W_OK) and st.f_bavail * st.f_frsize > 300 << 20: return base
        except OSError: pass
    return "/tmp"

class Ctx:
    """What a case may use while it is being judged: runs scenarios, remembers results."""
    def __init__(s, d): s.d = d; s.results = []; s.cov = None; s.cache = {}
    def run(s, sc):
        r = core.run(sc, s.d, cov=s.cov); s.results.append(r); return r
    def cached(s, key, sc):
        """a reference run (fault-free, run-to-block schedule)"""
        if key not in s.cache:
            r = core.run(sc, s.d, cov=s.cov); s.cache[key] = r
        return s.cache[key]

class Harness(Exception): pass

def execute(prop, case, ctx):
    """-> (violations, results)"""
    ctx.results = []
    v = prop.judge(case, ctx)
    for r in ctx.results:
        if r.harness: raise Harness(r.harness)
    return v, ctx.results

def case_of(prop, seed, i):
    rng = random.Random("%s:%d:%d" % (prop.id, seed, i))
    return prop.gen(rng, i)

# ------------------------------------------------------------------ workers
_w = {}
def _init(root, propid, seed):
    import props
    d = os.path.join(root, "w%d" % os.getpid()); os.makedirs(d, exist_ok=True)
    _w["ctx"] = Ctx(os.path.join(d, "run")); _w["prop"] = props.PROPS[propid]; _w["seed"] = seed
    cov = os.path.join(d, "cov")
    with open(cov, "wb") as f: f.truncate(core.COVSZ)
    _w["ctx"].cov = cov; _w["covf"] = cov

def classes(v): return sorted({c for c, _ in v})

def _job(i):
    prop, ctx = _w["prop"], _w["ctx"]
    t = time.time()
    try:
        case = case_of(prop, _w["seed"], i)
        v, rs = execute(prop, case, ctx)
    except Harness as e:
        return dict(i=i, harness=str(e)[:300])
    except Exception:
        return dict(i=i, harness="exception: " + traceback.format_exc()[-1500:])
    st = dict(i=i, runs=len(rs), simt=sum(r.t for r in rs), steps=sum(r.steps for r in rs), hashes=[r.shape for r in rs], faults=collections.Counter(), nontrivial=[], wall=time.time() - t, launches=sum(len(r.procs) for r in rs), kills=sum(len(r.kills) for r in rs), kind=case.get("kind"), pre=sum(int(r.end["pre"]) for r in rs if r.end), probes=collections.Counter())
    for r in rs:
        for f in r.faults: st["faults"]["%s/%d" % (f[1], f[3])] += 1
        for c, (n, sh, ei) in r.counts.items():
            if sh: st["faults"]["short:" + c] += sh
            if ei: st["faults"]["eintr:" + c] += ei
        st["nontrivial"].append(nontrivial(r))
        probes(r, st["probes"])
    if v: st["violations"] = v
    if i < 3: st["sample"] = case
    return st

def nontrivial(r):
    """a run counts when solvers were launched or an injected fault fired, or the input/output path was disturbed"""
    return bool(r.procs or r.faults or any(c[1] or c[2] for c in r.counts.values()) or r.openws)

def probes(r, c):
    for p in r.procs.values():
        if p.end == "killed": c["solver killed while running"] += 1
        if p.hang: c["solver hung"] += 1
        if p.missing: c["solver never read its file"] += 1
        if p.end == "signal": c["solver died of a signal"] += 1
        if p.wrote > 65536: c["output larger than a pipe buffer"] += 1
    if any(d["target"] == "zombie" for _, d in r.kills): c["kill raced with exit (zombie)"] += 1
    ps = sorted(r.procs.values(), key=lambda p: p.line)
    for a, b_ in zip(ps, ps[1:]):
        if a.lend is not None and a.lend < b_.line and a.name != b_.name: c["one solver ended before the other was started"] += 1
        if a.reap is None or a.reap > b_.line: c["two solvers alive at once"] += 1
    ro = oracle.rounds(r)
    if len(ro) > 1: c["more than one round"] += 1
    if r.spawnfails: c["failed launch"] += 1
    if r.rc == 101: c["failing run (text)"] += 1
    if r.rc == 0: c["exit 0"] += 1
    if r.rc == 137: c["tool killed mid-run"] += 1

# ------------------------------------------------------------------ minimisation
def same(prop, case, ctx, cls):
    try: v, _ = execute(prop, case, ctx)
    except Exception: return False
    return cls in classes(v)

def ddmin(items, test, budget):
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n); reduced = False
        k = 0
        while k < len(items) and budget[0] > 0:
            cand = items[:k] + items[k + size:]
            budget[0] -= 1
            if test(cand): items = cand; reduced = True
            else: k += size
        if not reduced:
            if size == 1: break
            n = min(len(items), n * 2)
        else: n = max(n - 1, 2)
    return items

def minimise(prop, case, ctx, cls, budget=260, wall=120):
    """Freezes the schedule of every run into an explicit decision list, then removes decisions,
    faults, noise and script steps while the same violation class persists."""
    b = [budget]; t0 = time.time()
    cur = json.loads(json.dumps(case))
    def ok(c):
        if time.time() - t0 > wall: return False
        return same(prop, c, ctx, cls)
    execute_safe(prop, cur, ctx)
    # explicit schedules for the scenarios of the case
    scs = prop.scenarios(cur)
    by = {id(r.sc): r for r in ctx.results}
    cand = json.loads(json.dumps(cur)); cs = prop.scenarios(cand)
    for a, c in zip(scs, cs):
        r = by.get(id(a))
        if r: c["dec"] = core.decisions(r)
    if ok(cand): cur = cand
    for si in range(len(prop.scenarios(cur))):
        def setter(key, val, c=None):
            c = json.loads(json.dumps(cur)); prop.scenarios(c)[si][key] = val; return c
        sc = prop.scenarios(cur)[si]
        for key in ("short", "eintr", "faults"):
            if sc.get(key):
                c = setter(key, []); b[0] -= 1
                if ok(c): cur = c
                else:
                    L = ddmin(sc[key], lambda x, k=key: ok(setter(k, x)), b); cur = setter(key, L)
            sc = prop.scenarios(cur)[si]
        if sc.get("dec"):
            c = setter("dec", []); b[0] -= 1
            if ok(c): cur = c
            else:
                L = ddmin(sc["dec"], lambda x: ok(setter("dec", x)), b); cur = setter("dec", L)
        sc = prop.scenarios(cur)[si]
        for name in list(sc.get("scripts", {})):
            for k in range(len(sc["scripts"][name])):
                def sets(x):
                    c = json.loads(json.dumps(cur)); prop.scenarios(c)[si]["scripts"][name][k] = x; return c
                s = prop.scenarios(cur)[si]["scripts"][name][k]
                drop = [t for t in s if t[0] in "xkh" or t[0] not in "dc"]
                if len(drop) < len(s):
                    b[0] -= 1
                    if ok(sets(drop)): cur = sets(drop)
    return cur

def execute_safe(prop, case, ctx):
    try: return execute(prop, case, ctx)
    except Exception: return None, ctx.results

# ------------------------------------------------------------------ top level
def build(prop):
    """builds (if needed) and selects the binary the property is decided on"""
    if prop.variant: core.BIN = os.path.join(core.HERE, "build/target-%s/release/cryptovampire" % prop.variant)
    return subprocess.run(["bash", os.path.join(core.HERE, "tools/build.sh")] + ([prop.variant] if prop.variant else []))
def check(propid, tier, seed):
    import props
    prop = props.PROPS[propid]
    t0 = time.time()
    b = build(prop)
    if b.returncode: print("ERROR: build failed"); return 2
    tb = time.time() - t0
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    n = prop.cases[tier]; cap = prop.cap[tier]
    if os.environ.get("VERIF_CASES"): n = int(os.environ["VERIF_CASES"])
    root = os.path.join(scratch_root(), "verif-%d-%s" % (os.getpid(), propid)); os.makedirs(root)
    tot = collections.Counter(); faults = collections.Counter(); hashes = set(); nt = set(); kinds = collections.Counter(); prb = collections.Counter()
    bad = []; harness = []; samples = []; done = 0; known = {}
    kf = load_known(propid)
    t1 = time.time()
    try:
        with mp.get_context("fork").Pool(workers, _init, (root, propid, seed)) as pool:
            for st in pool.imap_unordered(_job, range(n), chunksize=2):
                done += 1
                if "harness" in st: harness.append(st); continue
                tot["runs"] += st["runs"]; tot["simt"] += st["simt"]; tot["steps"] += st["steps"]; tot["launches"] += st["launches"]; tot["kills"] += st["kills"]; tot["pre"] += st["pre"]
                faults.update(st["faults"]); kinds[st["kind"]] += 1; prb.update(st["probes"])
                for h, x in zip(st["hashes"], st["nontrivial"]):
                    hashes.add(h)
                    if x: nt.add(h)
                if "sample" in st: samples.append((st["i"], st["sample"]))
                if st.get("violations"):
                    rest = []
                    for c, m in st["violations"]:
                        k = match_known(kf, c, m)
                        if k: known.setdefault(k, 0); known[k] += 1
                        else: rest.append((c, m))
                    if rest: bad.append((st["i"], rest))
                if len(bad) >= 3 and time.time() - t1 > 5: pool.terminate(); break
                if time.time() - t1 > cap: pool.terminate(); tot["capped"] = 1; break
            covs = 0
        tx = time.time() - t1
        covbits = bytearray(core.COVSZ)
        for d in os.listdir(root):
            f = os.path.join(root, d, "cov")
            if os.path.exists(f):
                for j, x in enumerate(open(f, "rb").read()):
                    if x: covbits[j] = 1
        rc = 0; replay = None
        for k in kf:   # listed findings are demonstrated, not searched for
            pass
        if bad:
            bad.sort()
            ctx = Ctx(os.path.join(root, "min"))
            i, v = bad[0]; cls, msg = v[0]
            case = case_of(prop, seed, i)
            case = minimise(prop, case, ctx, cls, *( (260, 120) if tier == "quick" else (2000, 900) ))
            vv, rs = execute_safe(prop, case, ctx)
            final = [m for c, m in (vv or []) if c == cls]
            os.makedirs(os.path.join(core.HERE, "build/replays"), exist_ok=True)
            replay = os.path.join(core.HERE, "build/replays/%s-%d-%d.json" % (propid, seed, i))
            json.dump(dict(property=propid, seed=seed, index=i, violation=cls, message=final[0] if final else msg, log_hashes=[r.hash for r in rs], case=case, how="python3 %s/check replay %s" % (core.HERE, replay)), open(replay, "w"), indent=1)
            p = subprocess.run([sys.executable, os.path.join(core.HERE, "check"), "replay", replay, "--quiet"], stdout=subprocess.PIPE)
            if p.returncode == 1:
                print("violation: %s" % (final[0] if final else msg)); print("seed %d, case %d, class %s; replayed in a fresh process: reproduced exactly" % (seed, i, cls))
                print("VIOLATION property=%s replay=%s" % (propid, replay)); rc = 1
            else:
                print("violation: %s (seed %d case %d, class %s)" % (msg, seed, i, cls)); print("note: the minimised file did not replay identically: %s" % p.stdout.decode()[-300:])
                print("VIOLATION property=%s replay=%s" % (propid, replay)); rc = 1
        for k in sorted(known): print("KNOWN-FINDING: property=%s %s" % (propid, k))
        if harness:
            print("harness errors: %d of %d cases; first: case %d %s" % (len(harness), done, harness[0]["i"], harness[0]["harness"]))
            if rc == 0 and len(harness) > max(2, done // 10): rc = 2
        ev = dict(property=propid, tier=tier, seed=seed, level=prop.level, wall_s=round(time.time() - t0, 1), violations=len(bad),
            coverage=dict(evaluations=tot["runs"], distinct_nontrivial=len(nt),
                rule="one evaluation = one simulated execution of the real binary under one seed. Cases: " + prop.rule + " Distinct: by a hash over the recorded event history (thread switches with their position, file and process events, solver reads and answers, signals, faults) after removing absolute times and process ids. Non-trivial: a solver was launched, a file was written, or an injected fault or short/interrupted transfer actually happened.",
                samples=[dict(case=i, scenario=trim(s)) for i, s in sorted(samples)[:2]],
                cases=done, case_kinds=dict(kinds), distinct_histories=len(hashes), runs_per_hour=int(tot["runs"] / max(tx, .01) * 3600), seeds_per_hour=int(done / max(tx, .01) * 3600), simulated_seconds=round(tot["simt"] / 1e9, 1), basic_blocks_executed=tot["steps"], preemptions=tot["pre"], solver_processes=tot["launches"], signals_sent=tot["kills"], faults_injected=dict(sorted(faults.items())), rare_conditions=dict(sorted(prb.items())), edge_buckets_covered=sum(covbits), harness_errors=len(harness), wall_capped=bool(tot["capped"]), workers=workers, build_s=round(tb, 1), search_s=round(tx, 1), known_findings=sorted(known),
                real_components="the complete cryptovampire binary built from /repo's working tree (parser, generation, threads, channels, child handling, temp files, report); Rust std and libc", simulated_components="thread scheduler, clock, randomness, heap and stack addresses, pipes, process table, signals, solver processes (scripted stubs for vampire and z3), system-call failures; files are real files in a scratch directory"),
            assumptions=["preemption only at basic-block boundaries, loads/stores and intercepted calls of workspace code (dependencies and std are atomic between intercepted calls); sequentially consistent memory", "solver stubs obey the documented command-line protocol of vampire and z3"])
        os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(core.HERE, "evidence/%s.json" % propid), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d runs (%d distinct non-trivial histories), %d known-finding hits, %d violating cases, build %.0fs search %.0fs" % (propid, tier, seed, done, tot["runs"], len(nt), sum(known.values()), len(bad), tb, tx))
        return rc
    finally:
        shutil.rmtree(root, ignore_errors=True)

def trim(s):
    t = json.dumps(s)
    return s if len(t) < 6000 else t[:6000] + "..."

def load_known(propid):
    out = []
    p = os.path.join(core.HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            e = json.loads(l)
            if e["property"] == propid: out.append(e)
    return out
def match_known(kf, c, m):
    for e in kf:
        if e["class"] == c and all(x in m for x in e["contains"]): return e["what"]
    return None

def replay(path, quiet=False):
    import props
    j = json.load(open(path)); prop = props.PROPS[j["property"]]
    b = build(prop)
    if b.returncode: return 2
    root = os.path.join(scratch_root(), "verif-replay-%d" % os.getpid()); os.makedirs(root)
    try:
        ctx = Ctx(os.path.join(root, "r"))
        v, rs = execute(prop, j["case"], ctx)
        hs = [r.hash for r in rs]
        if not quiet or True:
            for c, m in v: print("%s: %s" % (c, m))
            print("histories %s the recorded ones" % ("equal" if hs == j["log_hashes"] else "DIFFER from"))
        if j["violation"] in classes(v):
            print("VIOLATION property=%s replay=%s" % (j["property"], path)); return 1 if hs == j["log_hashes"] else 4
        return 0
    finally: shutil.rmtree(root, ignore_errors=True)
