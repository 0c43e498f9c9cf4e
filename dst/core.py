"""Runs one scenario (= one simulated execution of the real cryptovampire binary) and parses
the recorded history.  Everything here is a pure function of the scenario and the binary."""
import base64, hashlib, json, os, re, shutil, subprocess, sys
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.environ.get("VERIF_BIN", os.path.join(HERE, "build/target/release/cryptovampire"))
SIM = os.path.join(HERE, "build/libsim.so")
CORPUS = os.path.join(HERE, "corpus")
COVSZ = 1 << 16
LOGSZ = 6 << 20
WALL = 90
MS = 1000000
DEFAULT = {"z3": [["o"], ["r"], ["d", 5 * MS], ["w", 1, "unknown\n"], ["e"], ["x", 0]],
           "vampire": [["o"], ["r"], ["d", 5 * MS], ["e"], ["k", 9]],
           "other": [["x", 0]]}

def b(s): return s.encode("latin-1")
def u8(s): return s.encode("utf-8").decode("latin-1")

_files = {}
def content(spec):
    """'@name' = corpus file, otherwise the text itself (latin-1 encoded bytes)."""
    if spec.startswith("@"):
        if spec not in _files:
            with open(os.path.join(CORPUS, spec[1:]), "rb") as f: _files[spec] = f.read()
        return _files[spec]
    return b(spec)

def toks(script, blob, index):
    out = []
    for t in script:
        k = t[0]
        if k == "w":
            d = b(t[2])
            if d not in index: index[d] = len(blob); blob += d
            if d: out.append("w%d:%d:%d" % (t[1], index[d], len(d)))
        elif k in "oreh": out.append(k)
        else: out.append("%s%d" % (k, t[1]))
    return " ".join(out)

def plan_text(sc):
    blob = bytearray(); index = {}; L = []
    for k, v in sc.get("plan", {}).items(): L.append("%s %s" % (k, v))
    if sc.get("dec") is not None:
        L = [x for x in L if not x.startswith("mode ")] + ["mode 3"]
        L += [" ".join(map(str, d)) for d in sc["dec"]]
    for f in sc.get("faults", []): L.append("fault %s %d %d %d" % tuple(f))
    for f in sc.get("short", []): L.append("short %s %d %d %d" % tuple(f))
    for f in sc.get("eintr", []): L.append("eintr %s %d %d" % tuple(f))
    alias = [(os.path.basename(x[0]), n) for n, x in sc.get("loc", {}).items() if os.path.basename(x[0]) != n]
    for name, n in [("z3", "z3"), ("vampire", "vampire")] + alias:
        for i, s in enumerate(sc.get("scripts", {}).get(n, [])):
            L.append("script %s %d %s" % (name, i, toks(s, blob, index)))
        L.append("script %s -1 %s" % (name, toks(sc.get("default", {}).get(n, DEFAULT[n]), blob, index)))
    if sc.get("stdin") is not None: L.append("stdin " + toks(sc["stdin"], blob, index))
    return "\n".join(L) + "\n", bytes(blob)

class Proc:
    __slots__ = ("seq", "name", "idx", "pid", "tid", "t", "argv", "line", "end", "status", "tend", "lend", "wrote",
                 "reap", "treap", "kills", "snap", "tsnap", "missing", "checks", "script", "opipe", "hang", "lastkill")
    def __init__(s): s.end = s.status = s.tend = s.lend = s.reap = s.treap = s.snap = s.tsnap = s.lastkill = None; s.wrote = 0; s.kills = []; s.missing = False; s.checks = []; s.hang = False
    @property
    def file(s): return s.argv[-1] if s.argv else None

class Result: pass

RE_SHAPE = re.compile(r"( (t|pid|mem|steps)=\d+)|^THREAD .*$", re.M)
RE_SPAWN = re.compile(r"SPAWN (\d+) (\S+) idx=(-?\d+) pid=(\d+) script=(-?\d+) opipe=(-?\d+) tid=(\d+) t=(\d+)(.*)")
def unq(s):
    return re.findall(r' "((?:[^"\\]|\\.)*)"', s) if '"' in s else s.split()

def parse_log(text, r):
    r.lines = text.split("\n")
    r.procs = {}; r.spawnfails = []; r.kills = []; r.faults = []; r.counts = {}; r.outs = []; r.escapes = []; r.creates = []; r.unlinks = []; r.harness = None; r.threads = 0; r.end = None; r.sigpipe = 0; r.inherit = False; r.tlast = 0; r.openws = []; r.mkdirs = []; r.other = []; r.writeerrs = []
    for i, l in enumerate(r.lines):
        if l[:2] in ("P ", "C "): continue
        w = l.split(" ")
        k = w[0]
        if k == "SPAWN":
            m = RE_SPAWN.match(l)
            p = Proc(); p.seq = int(m[1]); p.name = m[2]; p.idx = int(m[3]); p.pid = int(m[4]); p.script = int(m[5]); p.opipe = int(m[6]); p.tid = int(m[7]); p.t = int(m[8]); p.argv = unq(m[9]); p.line = i
            r.procs[p.seq] = p
        elif k == "SPAWNFAIL": r.spawnfails.append((i, w[1], l))
        elif k == "EXITP":
            p = r.procs.get(int(w[1]))
            if p: p.end = w[3]; p.status = int(w[4][7:]); p.tend = int(w[5][2:]); p.lend = i; p.wrote = int(w[6][6:])
        elif k == "REAP":
            p = r.procs.get(int(w[1]))
            if p: p.reap = i; p.treap = int(w[-1][2:])
        elif k == "KILL":
            d = dict(x.split("=") for x in w[1:]); r.kills.append((i, d))
            p = r.procs.get(int(d["seq"]))
            if p: p.kills.append((i, d))
        elif k == "SREAD":
            p = r.procs.get(int(w[1]))
            if p:
                if w[2] == "missing": p.missing = True
                else: p.tsnap = int(w[-1][2:])
        elif k == "SOPEN":
            p = r.procs.get(int(w[1]))
            if p and w[2] != "ok": p.missing = True
        elif k == "SCHECK":
            p = r.procs.get(int(w[1]))
            if p: p.checks.append(w[2])
        elif k == "SHANG":
            p = r.procs.get(int(w[1]))
            if p: p.hang = True
        elif k == "FAULT": r.faults.append((i, w[1], int(w[2]), int(w[3]), l))
        elif k == "COUNT": r.counts[w[1]] = (int(w[2]), int(w[3][6:]), int(w[4][6:]))
        elif k == "OUT": r.outs.append((i, w[1], l))
        elif k == "SINHERIT": r.inherit = True
        elif k == "SIGPIPE": r.sigpipe += 1
        elif k.startswith("ESCAPE"): r.escapes.append(l)
        elif k in ("create", "openw"): r.openws.append((i, k, " ".join(w[1:])))
        elif k == "unlink": r.unlinks.append((i, " ".join(w[1:])))
        elif k == "mkdir": r.mkdirs.append((i, " ".join(w[1:])))
        elif k == "tcreate": r.threads += 1
        elif k == "HARNESS": r.harness = l
        elif k == "writeerr": r.writeerrs.append((i, l))
        elif k == "END":
            r.end = dict(x.split("=") for x in w[2:]); r.end["why"] = w[1]
    if r.end:
        r.t = int(r.end["t"]); r.steps = int(r.end["steps"]); r.hash = hashlib.sha1(text.encode("utf-8", "replace")).hexdigest()[:16]
    else: r.t = r.steps = 0; r.hash = "none"
    # the history without absolute times, process ids and memory use: what makes two runs "distinct"
    r.shape = hashlib.sha1(RE_SHAPE.sub("", text.partition("\n")[2]).encode("utf-8", "replace")).hexdigest()[:16]

def listing(d):
    out = {}
    for root, ds, fs in os.walk(d):
        rel = os.path.relpath(root, d)
        if rel == ".": ds[:] = [x for x in ds if x not in (".s", "bin", "alt")]
        for f in fs:
            p = os.path.join(root, f); rp = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(p): out[rp] = b"->" + os.readlink(p).encode()
            else:
                try:
                    with open(p, "rb") as h: out[rp] = h.read()
                except OSError as e: out[rp] = b"?" + str(e).encode()
        for x in ds: out.setdefault(os.path.normpath(os.path.join(rel, x)) + "/", None)
    return out

def wipe(d):
    for x in os.listdir(d):
        p = os.path.join(d, x)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        else: os.unlink(p)

def rel(x, d):
    """an absolute path into the scratch directory, as seen from there"""
    return "/proc/self/cwd" + x[len(d):] if x.startswith(d + "/") else x

def run(sc, d, cov=None, keep=False):
    """Executes the scenario in directory d (emptied first)."""
    os.makedirs(d, exist_ok=True); wipe(d)
    for x in (".s", "bin", "tmp"): os.mkdir(os.path.join(d, x))
    for x in sc.get("dirs", []): os.makedirs(os.path.join(d, x), exist_ok=True)
    for n, c in sc.get("files", {}).items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(content(c))
    for n, how in dict({"z3": "x", "vampire": "x"}, **sc.get("bins", {})).items():
        if how is None: continue
        p = os.path.join(d, "bin", n)
        if how == "dir": os.mkdir(p); continue
        with open(p, "w") as f: f.write("#!/bin/sh\nexit 1\n")
        os.chmod(p, 0o755 if how == "x" else 0o644)
    for n, (path, how) in sc.get("loc", {}).items():
        if how is None: continue
        p = os.path.join(d, path); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f: f.write("#!/bin/sh\nexit 1\n")
        os.chmod(p, 0o755 if how == "x" else 0o644)
    plan, blob = plan_text(sc)
    with open(d + "/.s/plan", "w") as f: f.write(plan)
    with open(d + "/.s/blob", "wb") as f: f.write(blob)
    with open(d + "/.s/log", "wb") as f: f.truncate(LOGSZ)
    env = {"SIM_PLAN": ".s/plan", "SIM_LOG": ".s/log", "SIM_BLOB": ".s/blob", "TMPDIR": "/proc/self/cwd/tmp", "PATH": "/proc/self/cwd/bin", "HOME": "/nonexistent", "LD_PRELOAD": SIM}
    if cov: env["SIM_COV"] = cov
    env.update(sc.get("env", {}))
    r = Result(); r.timeout = False
    so = open(d + "/.s/out", "w+b"); se = open(d + "/.s/err", "w+b")
    for attempt in (0, 1):
        try:
            p = subprocess.run([BIN] + sc["argv"], cwd=d, env=env, stdout=so, stderr=se, stdin=subprocess.DEVNULL, timeout=WALL)
            r.rc = p.returncode; break
        except subprocess.TimeoutExpired:
            r.rc = -999; r.timeout = True
            break
    so.seek(0); se.seek(0); r.out = so.read(); r.err = se.read(); so.close(); se.close()
    with open(d + "/.s/log", "rb") as f:
        raw = f.read()
    z = raw.find(b"\0"); raw = raw if z < 0 else raw[:z]
    r.log = raw.decode("utf-8", "replace")
    parse_log(r.log, r)
    rd = os.path.realpath(d)
    al = {os.path.basename(x[0]): n for n, x in sc.get("loc", {}).items()}
    if al: r.spawnfails = [(i, al.get(n, n), l) for i, n, l in r.spawnfails]
    for p in r.procs.values():
        p.name = al.get(p.name, p.name)
        p.argv = [rel(x, rd) for x in p.argv]
        f = d + "/.s/snap.%d" % p.seq
        if os.path.exists(f):
            with open(f, "rb") as h: p.snap = h.read()
    r.tree = listing(d)
    r.sc = sc
    r.crash = r.end is None and r.rc < 0 and not r.timeout   # the program died of a signal
    if "LOGFULL" in r.lines and r.rc not in (97, 98): r.harness = r.harness or "log full"
    r.runaway = bool(r.harness and "HARNESS threads" in r.harness)   # far more rounds than any scenario allows
    if r.runaway: r.harness = None
    elif r.rc == 99 or r.end is None and not r.timeout and not r.crash: r.harness = r.harness or "no END (rc %s): %s" % (r.rc, r.err[-300:].decode("utf-8", "replace"))
    if not keep: wipe(d)
    return r

def decisions(r):
    out = []
    for l in r.lines:
        if l[:2] in ("P ", "C "):
            w = l.split(" "); out.append([w[0]] + [int(x) for x in w[1:4]])
    return out
