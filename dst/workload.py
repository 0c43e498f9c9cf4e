"""Workload generation: protocols, solver behaviours, schedules and faults.  Every choice is
drawn from one random.Random that the caller seeds from VERIF_SEED."""
import math, random
from core import MS, u8
C = "'cast$Message$name'"
# protocol -> number of lemmas, literals that (each one alone) extend the next problem, weight
def _v(f, keys, msgs):
    return ["%s(%s,%s,%s)" % (f, a, b_, k) for k in keys for a in msgs for b_ in msgs if a != b_]
PROTO = {
 "tiny.ptcl": dict(lemmas=0, w=6, lits=_v("vf", [C + "(key)"], ["input(u(X0))", C + "(n(X1))", "input(t(X0))", "h(X2,X3)"])),
 "plain.ptcl": dict(lemmas=0, w=2, lits=[]),
 "lem3.ptcl": dict(lemmas=3, w=4, lits=_v("vf", [C + "(key)"], ["c1", "c2", "c3", "input(t(X0))"])),
 "multi.ptcl": dict(lemmas=1, w=4, lits=_v("vmac", [C + "(mk(X0))"], ["tag1", "tag2", "input(c(X0))"])
     + _v("checksign", ["pk(%s(sk(X0)))" % C], ["tag1", "tag2", "input(a(X0,X1))"])
     + ["dec(%s,%s(ek(X0))) != fail" % (m, C) for m in ("tag1", "tag2", "input(a(X0,X1))", "input(b(X0))", "input(c(X0))")]),
 "quad.ptcl": dict(lemmas=0, w=2, lits=_v("v1", [C + "(k1(X0))"], ["tag", "fail", "input(c(X0))"]) + _v("v2", [C + "(k2(X0))"], ["tag", "fail"]) + _v("v3", [C + "(k3)"], ["tag", "input(f(X0))"])
     + ["d1(%s,%s(ek(X0))) != fail" % (m, C) for m in ("tag", "input(d(X0))")] + ["d2(%s,%s(fk)) != fail" % (m, C) for m in ("tag", "input(f(X0))")]),
 "euf_key_secrecy.ptcl": dict(lemmas=1, w=2, lits=_v("verify", [C + "(key)"], ["input(t(X0))", C + "(fresh)", "hash(X1,X2)"])),
 "basic-hash-1.ptcl": dict(lemmas=0, w=1, lits=_v("verify", [C + "(key(X0))"], ["ok", "ko", "input(tag(X1,X0))"])),
 "hash-lock-1-extra.ptcl": dict(lemmas=0, w=1, lits=_v("verify", [C + "(key(X0))"], ["ok", "ko"])),
 "feldhofer-1.ptcl": dict(lemmas=0, w=1, lits=["dec(%s,%s(key(X0))) != fail" % (m, C) for m in ("ok", "ko", "tagR", "tagT")]),
 "mw-1.ptcl": dict(lemmas=0, w=1, lits=_v("verify", [C + "(key(X0))"], ["ok", "ko", "tag1"])),
 "ddh-s-2.ptcl": dict(lemmas=2, w=0.5, lits=_v("checksign", ["pk(%s(skS))" % C, "pk(%s(skP))" % C], ["ok", "ko"])),
 "canauth-autha.ptcl": dict(lemmas=0, w=0.5, lits=_v("verify", [C + "(sk(X0))"], ["ok", "myZero"])),
 "osk.ptcl": dict(lemmas=0, w=0.5, lits=_v("verify2", [C + "(key2(X0))"], ["ok", "ko"])),
 "lak-tag-1.ptcl": dict(lemmas=0, w=0.5, lits=_v("verify", [C + "(key(X0))"], ["ok", "ko", "tag1"])),
}
def many_lits(rng, proto, k):
    """k different literals for one protocol, built from nested terms"""
    f, key, fn, base = {"tiny.ptcl": ("vf", C + "(key)", "h(%s,%s)", ["input(u(X0))", C + "(n(X1))", "input(t(X0))", "X5"]), "lem3.ptcl": ("vf", C + "(key)", "h(%s,%s)", ["c1", "c2", "c3", "input(t(X0))"])}[proto]
    terms = list(base)
    while len(terms) < 14: 
        t = fn % (rng.choice(terms), rng.choice(terms))
        if t not in terms and len(t) < 120: terms.append(t)
    out = set()
    while len(out) < k: a, c = rng.sample(terms, 2); out.add("%s(%s,%s,%s)" % (f, a, c, key))
    out = sorted(out); rng.shuffle(out); return out
SMALL = ["tiny.ptcl", "lem3.ptcl", "euf_key_secrecy.ptcl", "plain.ptcl", "multi.ptcl"]

def pick_proto(rng, names=None, lits=False, lemmas=False):
    ns = [n for n in (names or PROTO) if (not lits or PROTO[n]["lits"]) and (not lemmas or PROTO[n]["lemmas"])]
    return rng.choices(ns, [PROTO[n]["w"] for n in ns])[0]

def logu(rng, a, b_): return int(round(math.exp(rng.uniform(math.log(a), math.log(b_)))))

def gen_plan(rng, calm=False):
    m = 2 if calm else rng.choice([0, 0, 0, 1, 1, 2])
    p = dict(seed=rng.getrandbits(48), mode=m, randseed=rng.getrandbits(48), t0=rng.randrange(10**9, 4 * 10**9) * 10**9, pidbase=rng.randrange(100, 30000),
             heapoff=rng.getrandbits(28) & ~15, stackoff=rng.getrandbits(15) & ~15, hpol=rng.randrange(3), hdown=rng.randrange(2), hpad=rng.choice([0, 0, 0.05, 0.3]), poison=1,
             alwaysmove=rng.choice([0, 0, 1]), killlat=rng.choice([0, 1000, MS, 3 * MS, 8 * MS, 60 * MS]), pidreuse=rng.choice([0, 0, 1, 1]), edge_ns=rng.choice([1, 10, 10, 50]), call_ns=rng.choice([200, 1000, 20000]))
    p["ncpu"] = [1, 1, 2, 3, 4, 8, 16, 64][p["seed"] & 7]; p["tty"] = int((p["seed"] >> 3) & 3 == 0)
    if m == 0: p["pstatic"] = [0, 0.2, 0.6, 1][p["seed"] >> 5 & 3]
    if m == 0:
        p.update(gap=logu(rng, 200, 500000), burst=rng.choice([0, 0.1, 0.5]), maxpre=rng.choice([50, 300, 1500]), pcall=rng.choice([0, 0.05, 0.3, 0.7]), pwake=rng.choice([0, 0.5, 1]))
    elif m == 1:
        p.update(pctd=rng.randrange(1, 9), pctlen=logu(rng, 100000, 4000000), pcall=0, pwake=0)
    return p

def noise(rng, sc, classes=("readf", "readin", "readp", "writef", "writeo", "writee"), p=0.5):
    """Benign disturbances every program has to cope with: short transfers and EINTR."""
    if rng.random() < p:
        for c in rng.sample(list(classes), rng.randrange(1, len(classes) + 1)):
            if rng.random() < 0.6: sc.setdefault("short", []).append([c, rng.choice([2000, 20000, 65536]), rng.choice([1, 7, 100, 4096]), rng.getrandbits(31)])
            if rng.random() < 0.6: sc.setdefault("eintr", []).append([c, rng.choice([2000, 20000, 40000]), rng.getrandbits(31)])
        if rng.random() < 0.5: sc.setdefault("eintr", []).append([rng.choice(["wait", "openw", "openr", "futex", "sleep"]), rng.choice([5000, 40000]), rng.getrandbits(31)])
    return sc

# ---------------------------------------------------------------- solver behaviours
def delay(rng):
    return rng.choice([0, 0, 1000, rng.randrange(1, 10) * 100000, rng.randrange(1, 60) * MS, rng.randrange(1, 30) * 100 * MS])

def chunks(rng, data, maxn=6):
    """data delivered in arbitrary pieces with pauses in between."""
    if not data: return []
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(maxn)))
    out = []; last = 0
    for c in cuts + [len(data)]:
        if c > last:
            out.append(["w", 1, data[last:c]])
            if rng.random() < 0.5: out.append(["d", delay(rng)])
        last = c
    return out

def life(rng, data, end, early_close=None, read_delay=None):
    """A solver process: maybe linger, open + read its file, print data, re-check the file, end."""
    s = []
    try: data.encode("latin-1").decode("utf-8")
    except UnicodeDecodeError: early_close = False     # the tool gives up on such a solver as soon as its output ends
    d = delay(rng) if read_delay is None else read_delay
    if d: s.append(["d", d])
    s += [["o"], ["r"]]
    if rng.random() < 0.7: s.append(["d", delay(rng)])
    s += chunks(rng, data)
    if rng.random() < 0.1: s.append(["w", 2, "solver warning: something\n"])
    if rng.random() < 0.5: s.append(["d", delay(rng)])
    if early_close or (early_close is None and rng.random() < 0.15):
        s.append(["c", 1]); s.append(["d", delay(rng)])
    s.append(["e"]); s.append(list(end))
    return s

FILL = "% SZS status unknown for problem\nsome statistics: 12 unsatisfied, sat time 3\n"
def big(rng, n):
    base = rng.choice(["x" * 79 + "\n", "unsat\n", "% (123)Instruction limit sat unsat timeout\n", "[SA] new: 1. foo(X0) [input]\n"])
    return base * (n // len(base) + 1)

SIGS = [9, 11, 6, 15, 9, 11, 1, 2, 3, 4, 7, 8, 13, 14, 24, 25, 31]
def zcode(r): return r.choice([1, 2, 3, 101, 255, 4, 10, 20, 124, 130, 134, 137, 139, 143, r.randrange(1, 256)])
def vcode(r): return r.choice([2, 3, 4, 255, 137, 5, 10, 20, 101, 124, 128, 129, 134, 139, 143, r.randrange(2, 256)])
def z3_answer(rng, kind):
    """-> (script, kind) ; kind is what the answer means, the oracle recomputes it from the script."""
    r = rng
    pre = r.choice(["", "", "", FILL, "(error \"line 3 column 2\")\n", "sat\n", "unsat\n", "timeout\n", big(r, r.choice([100, 70000, 200000]))])
    nl = r.choice(["\n", "\n", "\n", "", "", "\r\n", " \n", "\t"]); pre += r.choice([""] * 6 + [" ", "\t", "\n", "\r\n"])
    if kind == "unsat": return life(r, pre + "unsat" + nl, ["x", 0])
    if kind == "sat": return life(r, pre + "sat" + nl, ["x", 0])
    if kind == "timeout": return life(r, pre + "timeout" + nl, ["x", 0])
    if kind == "unknown": return life(r, pre + r.choice(["unknown", "", "unsat?", "unsatisfiable", "satisfied", "(objectives)", "UNSAT", "Timeout", "unsat.", "unsat core", "; unsat", "(unsat)", "un sat", "sat sat", "Unsat", "unsat\x00", "unsat\n;", "\"unsat\"", "unsat,", "nsat"])[:99] + "\n", ["x", 0]) if r.random() < .9 else life(r, "unsat\nunknown\n", ["x", 0])
    if kind == "empty": return life(r, "", ["x", 0])
    if kind == "badexit": return life(r, r.choice(["", "unsat\n", "sat\n", pre + "unsat\n", "timeout\n"]), ["x", zcode(r)])
    if kind == "signal": return life(r, r.choice(["", "unsat\n", "sat\n", "uns"]), ["k", r.choice(SIGS)])
    if kind == "hang": return life(r, r.choice(["", "", "partial", "unsat\n" if r.random() < .3 else "x\n"]), ["h"], early_close=False)
    if kind == "nonutf8": return life(r, r.choice(["", "abc\n"]) + r.choice(["\xff\xfe", "\xc3", "\xed\xa0\x80", "\xf8\x88"]) + r.choice(["", "\nunsat\n"]), ["x", 0])
    raise KeyError(kind)

def clause(rng, lits, no=None):
    return "[SA] new: %d. %s [%s]\n" % (rng.randrange(1, 10**6), " | ".join(lits), rng.choice(["superposition 12,13", "resolution 3,4", "input", "demodulation 7,8", "cnf transformation 2"]))

IRR = ["X0 = X1", "foo(X0)", "~bar(X1,X2)", "$false", "lt(X0,X1)", "'Message$_3$subterm_nonce'(X0,X1)", "(X0 != X1)", "p"]
def irrelevant(rng):
    return rng.choice([
        lambda: clause(rng, rng.sample(IRR, rng.randrange(1, 4))),
        lambda: "% Running in auto input_syntax mode.\n", lambda: "[SA] passive: 12. foo(X0) [input]\n", lambda: "[SA] active: 3. p [input]\n",
        lambda: "\n", lambda: "% Time limit reached!\n% ------------------------------\n% Version: Vampire 4.8\n", lambda: "unsat\n", lambda: "% Refutation found. Thanks to Tanya!\n", lambda: "sat\n",
        lambda: "[PP] flatten 22. ![X0] : foo(X0) [input]\n"])()
def malformed(rng, lit):
    """lines that mention lit's symbols but are no usable clause.  Nothing may be learned from them."""
    return rng.choice([
        lambda: "[SA] new: 5. %s" % lit.split("(")[0] + "(((\n", lambda: "[SA] new: 6. %s) [input]\n" % lit.split("(")[0].join(("(", ",")), lambda: "[SA] new: %s [input]\n" % lit, lambda: "[SA]new: 7. %s [input]\n" % lit,
        lambda: "[SA] new: 8. %s(nosuchsymbol(X0)) [input]\n" % lit.split("(")[0], lambda: "[SA] new: 9. %s [input]\n" % lit.split("(")[0], lambda: "[sa] new: 9. %s [input]\n" % lit, lambda: "%s\n" % lit, lambda: "[SA] passive: 9. %s [input]\n" % lit,
        lambda: "[SA] new: 10. %s(X0,X0,X0,X0,X0,X0) [input]\n" % lit.split("(")[0], lambda: "[SA] new: 11.%s [input]\n" % lit])()

def vampire_timeout_text(rng, lits, pool, noisy=True):
    """Output of a timed-out vampire that printed exactly the literals `lits` in usable clauses."""
    lines = []
    todo = list(lits); rng.shuffle(todo)
    while todo:
        k = rng.randrange(1, 4); part, todo = todo[:k], todo[k:]
        if noisy and rng.random() < 0.4: part = part + rng.sample(IRR, rng.randrange(1, 3)); rng.shuffle(part)
        lines.append(clause(rng, part))
        if noisy and rng.random() < 0.3: lines.append(clause(rng, part))
    if noisy:
        for _ in range(rng.randrange(0, 6)): lines.append(irrelevant(rng))
        if pool:
            for _ in range(rng.randrange(0, 3)): lines.append(malformed(rng, rng.choice(pool)))
    rng.shuffle(lines)
    t = "".join(lines)
    if noisy and rng.random() < 0.1: t = big(rng, 90000).replace("[SA]", "[sa]") + t
    return t

def v_answer(rng, kind, lits=(), pool=()):
    r = rng
    if kind == "unsat": return life(r, r.choice(["", "% Refutation found. Thanks to Tanya!\n% SZS status Unsatisfiable\n", "% SZS status Timeout\n", "sat\n", big(r, r.choice([100, 150000]))]) + "".join(irrelevant(r) for _ in range(r.randrange(3))), ["x", 0])
    if kind == "timeout": return life(r, vampire_timeout_text(r, lits, pool), ["x", 1])
    if kind == "none": return life(r, r.choice(["", "".join(irrelevant(r) for _ in range(4))]), ["x", 1])
    if kind == "badexit": return life(r, r.choice(["", "% Refutation found. Thanks to Tanya!\n", "User error: bad\n"]), ["x", vcode(r)])
    if kind == "signal": return life(r, r.choice(["", "% Refutation found.\n", clause(r, [r.choice(list(pool))]) if pool else "x"]), ["k", r.choice(SIGS)])
    if kind == "hang": return life(r, r.choice(["", "partial"]), ["h"], early_close=False)
    if kind == "nonutf8": return life(r, r.choice(["", "abc\n"]) + r.choice(["\xff\xfe", "\xc3", "\xed\xa0\x80"]), ["x", r.choice([0, 1])])
    raise KeyError(kind)
