"""The reference model of a run and the checks over the recorded history.

Every check looks only at observable behaviour: processes launched (and with what), what they
read and answered, signals and waits, files left behind, the report and the exit status."""
import collections, json, re
import smt
from core import b

# hard faults: the operation failed and nothing may hide it.  (class, errno) pairs that every
# correct program retries or may ignore are benign.
BENIGN = {("openw", 17), ("unlink", 5), ("unlink", 13), ("unlink", 30), ("unlink", 16), ("futex", 11), ("futex", 4), ("sleep", 4), ("wait", 4), ("close", 5), ("close", 4), ("openw", 4), ("openr", 4)}
def hard_faults(r): return [f for f in r.faults if (f[1], f[3]) not in BENIGN and f[3] != 4]

def stdout_of(script):
    return b"".join(b(t[2]) for t in script if t[0] == "w" and t[1] == 1)

def script_of(sc, p):
    L = sc.get("scripts", {}).get(p.name, [])
    if p.idx < len(L): return L[p.idx]
    import core
    return sc.get("default", {}).get(p.name, core.DEFAULT.get(p.name, []))

def rust_last_line(t):
    if not t: return None
    if t.endswith("\n"): t = t[:-1]
    l = t.split("\n")[-1]
    return l[:-1] if l.endswith("\r") else l

def answer(sc, p):
    """What a solver process answered: unsat sat timeout other error | None while it did not end by itself."""
    if p.end not in ("self", "signal"): return None
    out = stdout_of(script_of(sc, p))
    out = out[:p.wrote] if p.wrote < len(out) else out
    try: t = out.decode("utf-8")
    except UnicodeDecodeError: return "error"
    if p.end == "signal": return "other"
    code = (p.status >> 8) & 255
    if p.name == "vampire": return {0: "unsat", 1: "timeout"}.get(code, "error")
    if code != 0: return "error"
    l = rust_last_line(t)
    if l is None: return "error"
    return {"unsat": "unsat", "sat": "sat"}.get(l.strip(), "other")

class Report: pass
def fmt_of(sc):
    a = sc["argv"]
    return a[a.index("--output-format") + 1] if "--output-format" in a else "stdout"

def report(r):
    """What the user is told.  .ok True/False/None (None: ended abnormally), .tries, .cause"""
    R = Report(); R.tries = None; R.text = ""; R.ok = None; R.bad = None; R.many = None
    if r.crash: R.bad = "crash"; return R
    if r.runaway: R.bad = "runaway"; return R
    if r.timeout or r.end is None: R.bad = "hang"; return R
    if r.rc in (95, 96, 97, 98): R.bad = {95: "badfree", 96: "memory", 97: "deadlock", 98: "livelock"}[r.rc]; return R
    if r.rc == 134 or r.rc < 0: R.bad = "abort"
    f = fmt_of(r.sc)
    if f in ("json", "pretty-json"):
        try:
            j = json.loads(r.out.decode("utf-8")) if r.out.strip() else None
        except Exception: j = None
        R.json = j
        if isinstance(j, dict) and set(j) == {"Ok"} and r.rc == 0:
            R.ok = True; R.many = flatten(j["Ok"]); R.tries = [t for m in R.many for t in (m[1] or [])]
        elif isinstance(j, dict) and set(j) == {"Err"}: R.ok = False; R.text = str(j["Err"])
        else: R.ok = False if r.rc != 0 else None; R.text = r.err.decode("utf-8", "replace")
        if R.ok is None and not R.bad: R.bad = "nojson"
    elif f == "quiet": R.ok = r.rc == 0
    else:
        R.ok = r.rc == 0; R.text = r.err.decode("utf-8", "replace")
        if R.ok: R.tries = [int(x) for x in re.findall(r"proven in (\d+) tr", R.text)]
    return R

def flatten(v):
    """[(kind, value)] of an Ok value"""
    if "Many" in v: return [x for m in v["Many"] for x in flatten(m)]
    if "AutoRun" in v: return [("auto", [x["num_tries"] for x in v["AutoRun"]])]
    if "ToFile" in v: return [("file", v["ToFile"])]
    return [("?", None)]

CAUSES = [("disproved", r"[Dd]isprove|[Dd]isproved"), ("tries", r"[Rr]an ?[Oo]ut ?[Oo]f ?[Tt]ries|ran out of tries"), ("nonew", r"NoNewInstances|no new instances")]
def cause(text):
    for k, p in CAUSES:
        if re.search(p, text): return k
    return "other"

def rounds(r):
    """Launch attempts grouped into rounds: a round ends when a solver is launched again."""
    ev = sorted([(p.line, p.name, p) for p in r.procs.values()] + [(i, n, None) for i, n, _ in r.spawnfails], key=lambda x: x[0])
    out = []
    for line, name, p in ev:
        if not out or any(n == name for _, n, _ in out[-1]): out.append([])
        out[-1].append((line, name, p))
    return out

class Round: pass
def analyse(r):
    """Per round: D decisive answers, E errors, V how vampire ended."""
    rs = []
    R = rounds(r)
    hf = hard_faults(r)
    tc = {}
    for i, l in enumerate(r.lines):
        if l.startswith("tcreate "): tc.setdefault(int(l.split(" ")[1]), i)
    bounds = []   # first line that can belong to the next round
    for k, evs in enumerate(R):
        reaps = [p.reap for _, _, p in evs if p]
        bounds.append(max(reaps) if reaps and None not in reaps else None)
    def owner(f):
        for k in range(len(R)):
            nxt = R[k + 1][0][0] if k + 1 < len(R) else len(r.lines)
            if f[0] >= nxt: continue
            if k + 1 < len(R) and bounds[k] is not None and f[0] > bounds[k]:
                t = int(re.search(r"tid=(\d+)", f[4])[1])
                if t == 0 or tc.get(t, 0) > bounds[k] or (k and tc.get(t, 0) < R[k][0][0] and tc.get(t, 0) < (bounds[k - 1] or 0)): return k + 1
            return k
        return len(R) - 1
    own = [(owner(f), f) for f in hf]
    for k, evs in enumerate(R):
        x = Round(); x.evs = evs; x.start = evs[0][0]; x.stop = R[k + 1][0][0] if k + 1 < len(R) else len(r.lines)
        x.procs = [p for _, _, p in evs if p]; x.fails = [n for _, n, p in evs if not p]
        x.ans = [(p, answer(r.sc, p)) for p in x.procs]
        x.D = {a for _, a in x.ans if a in ("unsat", "sat")}
        x.E = [("answer", p.name) for p, a in x.ans if a == "error"] + [("spawnfail", n) for n in x.fails]
        x.F = [f for o, f in own if o == k]
        x.vt = [p for p, a in x.ans if a == "timeout"]
        rs.append(x)
    return rs

def expect_rounds(sc):
    """number of rounds allowed per problem (None = unbounded)"""
    a = sc["argv"]
    for f in ("--num-of-retry",):
        if f in a:
            n = int(a[a.index(f) + 1]); return n or None
    return 5

def expected_solvers(sc):
    a = sc["argv"]; out = []
    for n in ("vampire", "z3"):
        if "--disable-" + n in a: continue
        loc = sc.get("loc", {}).get(n)
        if (loc[1] if loc else dict({"z3": "x", "vampire": "x"}, **sc.get("bins", {})).get(n)) != "x": continue
        out.append(n)
    return out

# ------------------------------------------------------------------ checks; each returns [(class, message)]
def abnormal(r, allow=()):
    R = report(r)
    if R.bad and R.bad not in allow:
        return [("abnormal-" + R.bad, "the run ended abnormally: %s (rc %s) %s" % (R.bad, r.rc, r.err[-200:].decode("utf-8", "replace")))]
    return []

def npbl(sc): return sc.get("meta", {}).get("problems", 1)

def verdict_model(r, want=("c01", "c02", "c03", "c06", "c15")):
    """Walks the rounds with the reference model and compares the reported outcome."""
    v = []
    sc = r.sc; R = report(r); rs = analyse(r); n = expect_rounds(sc); N = npbl(sc); fmt = fmt_of(sc)
    hf = hard_faults(r)
    learn = sc.get("meta", {}).get("learn")   # per vampire launch index: does its output teach something new? None = unknown
    solvers = expected_solvers(sc)
    outfault = any(f[1] in ("writeo", "writee") for f in r.faults)
    def add(c, k, m):
        if c in want: v.append((c + ":" + k, m))
    if R.bad and not (outfault and R.bad == "nojson"):
        if "c05" in want: v += abnormal(r)
        if R.bad != "runaway": return v
    ok = R.ok
    pre = [f for f in hf if not rs or f[0] < rs[0].start]
    # ---- walk
    prob = 0; tries = 0; done = []; i = 0; state = "run"; may = None; hadboth = False
    while i < len(rs):
        x = rs[i]; tries += 1; last = i + 1 == len(rs)
        E = x.E + [("fault", f[1]) for f in x.F]
        if x.D and not E:
            if x.D == {"unsat"}:
                prob += 1; done.append(tries); tries = 0
                if prob == N:
                    if not last: add("c02", "extra-round", "round %d was refuted and was the last problem, but solvers were launched again" % (i + 1))
                    state = "proven"; break
                i += 1; continue
            if x.D == {"sat"}:
                if not last: add("c02", "after-sat", "a solver answered sat in round %d, but solvers were launched again" % (i + 1))
                state = "disproved"; break
            # both answers in one round: either may win
            hadboth = True
            if last:
                state = "either"; break
            prob += 1; done.append(tries); tries = 0
            if prob >= N: add("c02", "extra-round", "launch after a decisive round"); state = "either"; break
            i += 1; continue
        if E and not x.D:
            if not last: add("c03", "continued", "round %d failed (%s) but solvers were launched again" % (i + 1, E[:3]))
            state = "failed"; break
        if E and x.D:
            if last: state = "either"; break
            if "unsat" not in x.D: add("c02", "after-sat", "launch after sat/failure in round %d" % (i + 1)); state = "failed"; break
            prob += 1; done.append(tries); tries = 0
            if prob >= N: add("c02", "extra-round", "launch after a decisive round"); state = "either"; break
            i += 1; continue
        # indecisive
        unended = [p.name for p in x.procs if p.end is None or p.end == "killed"]
        vt = [p for p in x.vt]
        nn = None
        if vt and learn is not None:
            nn = not any(learn[p.idx] if p.idx < len(learn) else False for p in vt)
        if n is not None and tries >= n:
            if not last: add("c06", "too-many-rounds", "%d rounds for a problem although only %d are allowed" % (tries + 1, n))
            state = "exhausted" if nn is False or not vt else "exhausted-or-nonew"; break
        if last:
            if nn is True: state = "nonew"
            elif vt and nn is None: state = "stopped"
            else: state = "too-few"
            break
        if nn is True:
            add("c10", "repeat", "vampire taught nothing new in round %d but another round was started" % (i + 1))
        i += 1
    if not rs:
        state = "failed" if hf or not solvers else "norun"
    if R.bad == "runaway": return v
    # ---- compare
    E_any = any(x.E or x.F for x in rs) or bool(pre)
    if state == "proven":
        if not ok and not (hf or outfault): add("c02", "lost-proof", "every problem was refuted (tries %s) but the run reports failure: %s" % (done, R.text[-300:]))
        if ok and R.tries is not None and R.tries != done and not outfault: add("c02", "tries", "reported tries %s, actual %s" % (R.tries, done)); add("c15", "tries", "reported tries %s, actual %s" % (R.tries, done))
    elif state == "disproved":
        if ok: add("c02", "lost-disproof", "a solver answered sat but the run reports success"); add("c01", "false-proof", "a solver answered sat in the last round, nobody refuted, but the run reports success")
        elif fmt != "quiet" and cause(R.text) != "disproved" and not (hf or outfault): add("c02", "not-disproved", "a solver answered sat but the failure does not say so: %s" % R.text[-200:])
    elif state == "either":
        if ok and not any("unsat" in x.D for x in rs[-1:]): add("c01", "false-proof", "success without a refutation in the last round")
        if ok and R.tries is not None and R.tries != done + [tries] and not outfault: add("c02", "tries", "reported tries %s, actual %s" % (R.tries, done + [tries]))
        if ok and prob + 1 < N: add("c01", "unproved-problem", "success although only %d of %d problems were refuted" % (prob + 1, N))
    else:
        if ok: add("c01", "false-proof", "the run reports success but the model says '%s' (rounds: %s)" % (state, summary(rs)))
        if ok and state == "failed": add("c03", "hidden", "a failure was hidden: the run reports success (%s)" % summary(rs))
        c = cause(R.text) if fmt != "quiet" else None
        if not ok and c and not (outfault):
            if state == "exhausted" and c != "tries" and not hf: add("c06", "exhausted-cause", "ran %d rounds without an answer, the report says: %s" % (tries, R.text[-200:])); add("c15", "cause", "out of tries reported as: %s" % R.text[-200:])
            if state == "nonew" and c != "nonew" and not hf: add("c15", "cause", "no new instances reported as: %s" % R.text[-200:])
            if state == "failed" and rs and c != "other": add("c03", "cause", "a failed solver or call is reported as '%s'" % c)
            if state in ("stopped",) and c not in ("nonew",) and not hf: add("c06", "stopped", "stopped after %d of %s rounds with: %s" % (tries, n, R.text[-200:]))
        if state == "too-few" and not hf and not (rs and rs[-1].E): add("c06", "too-few-rounds", "only %d of %s rounds were run without an answer (%s); report: %s" % (tries, n, summary(rs), R.text[-200:]))
        if state == "norun" and not hf and not sc.get("meta", {}).get("norun_ok"): add("c06", "no-launch", "no solver was launched; report: %s" % R.text[-200:])
    if ok and prob < N and state not in ("either",) and not hf: add("c01", "unproved-problem", "success although only %d of %d problems were refuted" % (prob, N))
    if hf and ok and not rs: add("c01", "false-proof", "success without any launch")
    return v

def summary(rs): return "; ".join(",".join("%s=%s" % (p.name, a) for p, a in x.ans) + ("!%s" % x.E if x.E else "") + ("!F" + ",".join(f[1] for f in x.F) if x.F else "") for x in rs)

def c03_no_success_after_fault(r):
    """hard fault fired, nobody decisive in that round => failing report"""
    return verdict_model(r, want=("c03",))

def undecodable(sc, p):
    try: stdout_of(script_of(sc, p)).decode("utf-8"); return False
    except UnicodeDecodeError: return True

def c04(r):
    v = []
    if r.rc == 134 or r.timeout: return v
    # a solver whose status cannot be collected stays uncollected; so may one whose output cannot be read
    # in a run that at the same time is refused a thread (the panic leaves nobody to collect it)
    kinds = {f[1] for f in hard_faults(r)}
    waitfault = "wait" in kinds or ("thread" in kinds and len(kinds) > 1)
    for i, d in r.kills:
        if d["target"] not in ("running", "zombie"): v.append(("stray-signal", "signal %s sent to pid %s which is %s (%s)" % (d["sig"], d["pid"], d["target"], r.lines[i])))
    rs = rounds(r)
    if not waitfault:
        for k, evs in enumerate(rs):
            end = rs[k + 1][0][0] if k + 1 < len(rs) else None
            for _, _, p in evs:
                if not p: continue
                if p.reap is None and "thread" in kinds and p.end == "self" and undecodable(r.sc, p): continue
                if p.reap is None: v.append(("orphan", "%s (pid %d, round %d) was never waited for (%s)" % (p.name, p.pid, k + 1, "still running" if p.end is None else "zombie")))
                elif end is not None and p.reap > end: v.append(("overlap", "%s of round %d was still not collected when round %d started" % (p.name, k + 1, k + 2)))
        fmt = fmt_of(r.sc)       # JSON reports go to standard output (a panic message is not one), text reports to standard error
        outs = [i for i, fd, _ in r.outs if fd == "fd=1" or fmt == "stdout" and not r.sc.get("env", {}).get("RUST_LOG")]
        if outs and fmt in ("json", "pretty-json") or (outs and r.rc == 0):
            last = outs[0]
            for p in r.procs.values():
                if p.reap is not None and p.reap > last and p.line < last: v.append(("report-before-collect", "%s was collected only after the report was written" % p.name))
    return v

def c05(r, bound_ns=20 * 10**9):
    v = abnormal(r, allow=("abort", "nojson", "badfree", "memory"))
    if v: return v
    # progress within a bounded simulated time after the last event that the tool waits for
    rs = analyse(r)
    for k, x in enumerate(rs):
        if not x.procs: continue
        ends = [p.tend for p in x.procs if p.tend is not None and p.end in ("self", "signal")]
        dec = [p.tend for p, a in x.ans if a in ("unsat", "sat", "error") and p.tend is not None]
        alls = max(ends) if len(ends) == len(x.procs) and ends else None
        t = min([y for y in ([min(dec)] if dec else []) + ([alls] if alls is not None else [])], default=None)
        if t is None: continue
        t = max(t, max(p.t for p in x.procs))
        nxt = rs[k + 1].procs[0].t if k + 1 < len(rs) and rs[k + 1].procs else r.t
        if nxt - t > bound_ns: v.append(("slow", "round %d could have finished at t=%d but the tool went on only at t=%d (%.1f simulated s later)" % (k + 1, t, nxt, (nxt - t) / 1e9)))
    return v

def num(x):
    try: return float(x)
    except ValueError: return None
VARGS = {"--input_syntax": "smtlib2", "--show_new": "on", "--avatar": "off", "--inline_let": "on", "--newcnf": "on"}
def c06_launches(r):
    v = []; sc = r.sc; a = sc["argv"]
    if report(r).bad: return v
    T = float(a[a.index("--timeout") + 1]) if "--timeout" in a else 1
    es = expected_solvers(sc)
    hf = hard_faults(r)
    loc = {n: x[0] for n, x in sc.get("loc", {}).items()}
    for k, evs in enumerate(rounds(r)):
        names = [n for _, n, _ in evs]
        for n in names:
            if n not in es: v.append(("unexpected-solver", "%s was started although it is disabled or missing" % n))
        if not hf and sorted(names) != sorted(es): v.append(("launch-set", "round %d started %s instead of %s" % (k + 1, names, es)))
        files = [p.file for _, _, p in evs if p]
        if len(set(files)) != len(files): v.append(("shared-file", "two solvers of round %d share the file %s" % (k + 1, files)))
        for _, n, p in evs:
            if not p: continue
            av = p.argv[1:]
            want = loc.get(n, "bin/" + n)
            if not ("/" + p.argv[0]).endswith("/" + want): v.append(("location", "%s was started from %s, the configured location is %s" % (n, p.argv[0], want)))
            if n == "z3":
                if len(av) != 2 or not av[0].startswith("-T:") or num(av[0][3:]) != T: v.append(("z3-args", "z3 launched with %s (time limit %g)" % (av, T)))
            elif n == "vampire":
                pairs = dict(zip(av[:-1:2], av[1:-1:2]))
                if num(pairs.pop("--time_limit", "")) != T or pairs != VARGS or len(av) % 2 == 0: v.append(("vampire-args", "vampire launched with %s (time limit %g)" % (av, T)))
    return v

_wf = {}
def wellformed(snap):
    k = hash(snap)
    if k not in _wf:
        try:
            f = smt.File(snap.decode("utf-8")); e = f.check()
        except Exception as ex: e = ["not parseable: %s" % str(ex)[:200]]
        if len(_wf) > 400: _wf.clear()
        _wf[k] = e
    return _wf[k]
_cn = {}
def canon(snap):
    k = hash(snap)
    if k not in _cn:
        if len(_cn) > 400: _cn.clear()
        try: _cn[k] = smt.File(snap.decode("utf-8")).canon()
        except Exception as ex: _cn[k] = (collections.Counter(), collections.Counter(), "unparseable (%d bytes): %s" % (len(snap), str(ex)[:100]))
    return _cn[k]

def c07(r):
    v = []
    for p in r.procs.values():
        if p.missing and p.end in ("self", "signal"): v.append(("missing", "%s (round %d) could not open its problem file %s" % (p.name, p.idx + 1, p.file)))
        for c in p.checks:
            if c != "same": v.append(("unstable", "%s's problem file was %s while it was running" % (p.name, c)))
        if p.snap is not None:
            e = wellformed(p.snap)
            for x in dict.fromkeys(map(str, e[:5])): v.append(("malformed", "%s (round %d) was given a malformed file: %s" % (p.name, p.idx + 1, x)))
    return v

def leftovers(r):
    return [f for f in r.tree if f.startswith("tmp/") and f != "tmp/" and f not in r.sc.get("files", {}) and f not in [d.rstrip("/") + "/" for d in r.sc.get("dirs", [])]]
