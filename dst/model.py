"""Simulated executions of a protocol against a network attacker, and the evaluation of a problem
file over the recorded execution (C20).

The attacker controls the network: it delivers, replays, reorders, drops, swaps and forges messages
out of whatever was sent before (Dolev-Yao, perfect cryptography); the schedule, the sessions that
never run (crash) and every choice are drawn from one seed. Values are ground terms; the problem's
symbols are interpreted over the recorded execution; symbols the interpretation doesn't know are
solved for (the file only claims that *some* interpretation exists)."""
import itertools, re, sys, zlib
from ptcl import Unsupported
U = ("U",)                       # the step that doesn't happen
sys.setrecursionlimit(20000)


def crc(x): return zlib.crc32(repr(x).encode())


class Stop(Exception):
    """the budget of the evaluation is spent"""


class Need(Exception):
    def __init__(self, point): self.point = point


class World:
    def __init__(self, p, rng):
        self.p, self.r = p, rng
        self.dom = {}
        self.salt = rng.randrange(1 << 30)
        for t in p.types: self.dom[t] = [("i", t, k) for k in range(rng.choice([1, 2, 2, 2, 3]))]
        for a, o in p.funs.values():
            for s in a + [o]:
                if s not in self.dom and s not in ("Message", "Bool", "Name", "Step", "Condition"): raise Unsupported("sort " + s)
        self.kind = {}
        self.proj = {}
        for n, a, o in p.crypto:
            if n in ("euf-cma", "uf-cma"):
                self.kind[a[0]] = ("sign",) if len(a) > 2 else ("mac",); self.kind[a[1]] = ("chk", a[0], a[2]) if len(a) > 2 else ("ver", a[0])
                if len(a) > 2: self.kind[a[2]] = ("pk",)
            elif n == "int-ctxt": self.kind[a[0]] = ("enc",); self.kind[a[1]] = ("dec", a[0], a[2]); self.kind[a[2]] = ("const",)
        if sum(len(c[1]) for c in p.crypto) > len({x for c in p.crypto for x in c[1]}):
            seen = {}
            for c in p.crypto:
                for i, x in enumerate(c[1]):
                    if seen.setdefault(x, (c[0], i, c[1][0])) != (c[0], i, c[1][0]) and not (c[0] == "int-ctxt" and i == 2): raise Unsupported("one function in two roles")
        for f in p.asserts: self.findproj(f)
        self.collapse = {f for f, (a, o) in p.funs.items() if o == "Message" and a and f not in self.kind and f not in self.proj
                         and f not in {x[0] for x in self.proj.values()} and rng.random() < 0.15}
        self.order = []; self.pos = {}; self.inp = {}
        self.memo = {}; self.events = 0; self.depth = 0
        self.run()

    def findproj(self, f):
        if not isinstance(f, (tuple, list)): return
        if isinstance(f, tuple) and f[:2] == ("op", "=="):
            for a, b in (f[2], f[2][::-1]):
                if a[0] == b[0] == "app" and not a[2] and len(b[2]) == 1 and b[2][0][0] == "app" and a in b[2][0][2]:
                    g, c = b[1], b[2][0]
                    if all(x[0] == "app" and not x[2] for x in c[2]) and g not in self.kind and c[1] not in self.kind and self.p.funs.get(g, ([], 0))[0] == ["Message"]:
                        self.proj.setdefault(g, (c[1], c[2].index(a)))
        for x in f: self.findproj(x)

    # -- values -------------------------------------------------------------------------------
    def apply(self, f, a):
        a = tuple(a)
        args, out = self.p.funs[f]
        if out == "Name": return ("N", f) + a
        k = self.kind.get(f, ("free",))
        if f in self.proj and a[0][:2] == ("f", self.proj[f][0]): return a[0][2][self.proj[f][1]]
        if k[0] == "ver": r = a[0] == ("f", k[1], a[1:]); self.events += r; return r
        if k[0] == "chk":
            r = a[0][:2] == ("f", k[1]) and a[0][2][0] == a[1] and a[2] == ("f", k[2], (a[0][2][1],)); self.events += r; return r
        if k[0] == "dec":
            if a[0][:2] == ("f", k[1]) and a[0][2][2] == a[1]: self.events += 1; return a[0][2][0]
            return ("f", k[2], ())
        if out in ("Bool", "Condition"): return crc((self.salt, f, a)) % 3 != 0
        if f in self.collapse: return ("junk", crc((self.salt, f, a)) % 2)
        return ("f", f, a)

    def step(self, f, a):
        s = ("S", f) + tuple(a)
        return s if s in self.pos else U
    def pred(self, s):
        i = self.pos.get(s, 0)
        return self.order[i - 1] if i else U
    def happens(self, s): return s in self.pos
    def leq(self, a, b): return a in self.pos and b in self.pos and self.pos[a] <= self.pos[b]
    def lt(self, a, b): return self.leq(a, b) and a != b
    def input(self, s): return self.inp.get(s, ("att", "never"))

    # -- the protocol's own terms ------------------------------------------------------------
    def ev(self, t, env):
        """value of a term; env: variables and `@me`, the current step"""
        self.depth += 1
        if self.depth > 400: self.depth = 0; raise Unsupported("recursion")
        try: return self.ev1(t, env)
        finally: self.depth = max(0, self.depth - 1)

    def m(self, t, env):
        v = self.ev(t, env)
        return ("n",) + v[1:] if isinstance(v, tuple) and v[0] == "N" else v

    def typed(self, s, v): return ("n",) + v[1:] if s == "Message" and isinstance(v, tuple) and v[0] == "N" else v

    def ev1(self, t, env):
        k = t[0]
        if k == "op":
            o, x = t[1], t[2]
            if o in ("&&", "||"):
                r = None
                for y in x:
                    v = self.ev(y, env)
                    if v is (o == "||"): return v
                    if v is None: r = v; bad = 1
                return None if r is None and any(self.ev(y, env) is None for y in x) else o == "&&"
            a, b = self.m(x[0], env), self.m(x[1], env)
            if o == "=>":
                return True if a is False or b is True else None if a is None or b is None else False
            if a is None or b is None: return None
            if o in ("==", "<=>"): return a == b
            return a != b
        if k == "ite":
            c = self.ev(t[1], env)
            if c is None:
                a, b = self.m(t[2], env), self.m(t[3], env)
                return a if a == b else None
            return self.m(t[2] if c else t[3], env)
        if k == "find":
            for e in self.envs(t[1], env):
                c = self.ev(t[2], e)
                if c is None: return None
                if c: return self.m(t[3], e)
            return self.m(t[4], env)
        if k == "q":
            r = t[1]
            for e in self.envs(t[2], env):
                v = self.ev(t[3], e)
                if v is (not t[1]): return v
                if v is None: r = None
            if any(s in ("Message", "Bitstring") for _, s in t[2]):
                if not self.three: raise Unsupported("a step quantifies over messages")
                return None
            return r
        if k == "let":
            return self.ev(t[4], dict(env, **{t[1]: self.typed(t[2], self.ev(t[3], env))}))
        if k == "mac":
            if t[1] in self.p.macros:
                v, b = self.p.macros[t[1]]
                if len(v) != len(t[2]): raise Unsupported("macro arity")
                e = {n: self.typed(s, self.ev(x, env)) for (n, s), x in zip(v, t[2])}
                e["@me"] = None
                return self.m(b, e)
            if t[1] in ("msg", "cond"):
                x = t[2][0]
                if x[0] != "app" or x[1] not in self.p.steps: raise Unsupported("macro argument")
                v, c, m, _ = self.p.steps[x[1]]
                a = [self.ev(y, env) for y in x[2]]
                if None in a: return None
                return self.body(x[1], a, m if t[1] == "msg" else c)
            raise Unsupported("macro " + t[1])
        f, a = t[1], t[2]
        if not a and f in env and not f.startswith("@"): return env[f]
        p = self.p
        if f in p.cells:
            v = [self.ev(x, env) for x in a]
            return None if None in v else self.cell(f, tuple(v[:-1]), v[-1])
        if f in p.steps:
            v = [self.ev(x, env) for x in a]
            return None if None in v else self.step(f, v)
        if f in p.funs:
            s = p.funs[f][0]
            if len(s) != len(a): raise Unsupported("arity of " + f)
            v = [self.ev(x, env) for x in a]
            return None if None in v else self.apply(f, [self.typed(q, x) for q, x in zip(s, v)])
        if f in ("true", "false"): return f == "true"
        if f == "in" and not a: return self.input(env.get("@me"))
        if f == "empty": return ("f", "empty", ())
        v = [self.ev(x, env) for x in a]
        if f in ("not", "pred", "happens", "lt", "leq", "gt", "input", "msg", "cond", "exec"): pass
        else: raise Unsupported("symbol " + f)
        if None in v: return None
        if f == "not": return not v[0]
        if f == "gt": return self.lt(v[1], v[0])
        if f in ("msg", "cond", "exec"): return {"msg": self.msgof, "cond": self.condof, "exec": self.exec}[f](v[0])
        return getattr(self, f)(*v)

    def body(self, f, a, t):
        v = self.p.steps[f][0]
        e = {n: x for (n, _), x in zip(v, a)}
        e["@me"] = self.step(f, a)
        key = ("body", id(t), tuple(a))
        if key not in self.memo: self.memo[key] = self.m(t, e)
        return self.memo[key]

    def sorts(self, s):
        if s in self.dom: return self.dom[s]
        if s == "Step": return self.order + [U]
        if s in ("Message", "Bitstring"): return self.univ
        if s in ("Bool", "Condition"): return [False, True]
        if s == "Name": return self.names()
        raise Unsupported("quantifier over " + s)
    def envs(self, vs, env):
        d = [self.sorts(s) for _, s in vs]
        for c in itertools.product(*d):
            self.tick()
            e = dict(env); e.update((n, x) for (n, _), x in zip(vs, c))
            yield e
    fuel = 10 ** 9
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0: raise Stop()
    three = False; univ = ()
    def names(self):
        if "names" not in self.memo:
            self.memo["names"] = [("N", f) + c for f, (a, o) in sorted(self.p.funs.items()) if o == "Name" for c in itertools.product(*[self.dom[s] for s in a])]
        return self.memo["names"]

    def msgof(self, s): return self.body(s[1], s[2:], self.p.steps[s[1]][2]) if s in self.pos else ("att", "nomsg")
    def condof(self, s): return self.body(s[1], s[2:], self.p.steps[s[1]][1]) if s in self.pos else False
    def exec(self, s): return s in self.pos and all(self.condof(x) for x in self.order[:self.pos[s] + 1])

    def cell(self, c, a, s):
        if s not in self.pos: return ("cell", c) + a
        key = ("cell", c, a, s)
        if key in self.memo:
            if self.memo[key] is None: raise Unsupported("circular cell")
            return self.memo[key]
        self.memo[key] = None
        vs, _, _, asg = self.p.steps[s[1]]
        got = []
        for w, cell, args, content in asg:
            if cell != c: continue
            base = {n: x for (n, _), x in zip(vs, s[2:])}; base["@me"] = s
            for e in self.envs(w, base):
                if tuple(self.ev(x, e) for x in args) == a:
                    v = self.m(content, e)
                    if v not in got: got.append(v)
        if len(got) > 1: raise Unsupported("ambiguous assignment")
        r = got[0] if got else self.cell(c, a, self.pred(s))
        self.memo[key] = r
        return r

    # -- the execution -----------------------------------------------------------------------
    def instances(self):
        return [("S", n) + c for n, (v, _, _, _) in sorted(self.p.steps.items()) if n != "init" for c in itertools.product(*[self.dom[s] for _, s in v])]

    def run(self):
        r = self.r
        if self.p.steps["init"][0]: raise Unsupported("init with parameters")
        inst = self.instances(); r.shuffle(inst)
        keep = inst[:r.choice([0, 1, 2, 3, 4, 5, 6, 7])]
        self.stats = {"dropped": len(inst) - len(keep), "relay": 0, "forge": 0, "replay": 0, "fresh": 0}
        init = ("S", "init")
        self.order = [init]; self.pos = {init: 0}
        self.inp[init] = ("att", "init")
        self.know = [("att", 0), ("att", 1), ("f", "empty", ())]
        self.publish(init)
        used = set()
        for s in keep:
            if not self.allowed(s): continue
            # the step happens from here on; memoised bodies of steps not happening yet are dropped
            self.memo = {}
            self.pos[s] = len(self.order); self.order.append(s)
            cand = self.candidates()
            want = r.random() < 0.8
            best, bv = None, -1
            for c in cand[:24] if want else cand[:1]:
                self.memo = {}; self.inp[s] = c; self.events = 0
                v = 0
                try:
                    if self.condof(s): v += 5
                    self.msgof(s)
                except RecursionError: raise Unsupported("recursion")
                v += self.events
                if v > bv: best, bv = c, v
                if v > 5: break
            self.inp[s] = best; self.memo = {}
            k = "fresh" if best[0] == "att" else "relay" if best in self.sent and best not in used else "replay" if best in used else "forge"
            self.stats[k] += 1; used.add(best)
            self.publish(s)
        self.memo = {}
        if not self.orders(): raise Unsupported("no order")
    sent = ()

    def allowed(self, s):
        """may `s` be the next step, given the orders the user states?"""
        self.pos[s] = len(self.order); self.order.append(s)
        try: return self.orders(True)
        finally: self.order.pop(); del self.pos[s]; self.memo = {}

    def orders(self, soft=False):
        for q, vs, g, x, o, y in self.p.orders:
            ok = q
            for e in self.envs(vs, {}):
                if g is not None and not self.ev(g, e): v = True
                else:
                    a, b = self.ev(x, e), self.ev(y, e)
                    if o == ">": a, b = b, a
                    v = not (self.happens(a) and self.happens(b)) if o == "<>" else self.lt(a, b) if self.happens(a) or self.happens(b) else True
                    if o == "<" or o == ">": v = not self.happens(b) or self.lt(a, b) if soft or True else v
                if v is not q: ok = v; break
            if not ok: return False
        return True

    def publish(self, s):
        if self.exec(s):
            v = self.msgof(s); self.sent = list(self.sent) + [v]
            self.learn(v)
    def learn(self, v):
        if v in self.know: return
        self.know.append(v)
        for g, (f, i) in self.proj.items():
            if v[:2] == ("f", f): self.learn(v[2][i])
        for f, k in self.kind.items():
            if k[0] == "dec":
                for x in list(self.know):
                    if x[:2] == ("f", k[1]) and x[2][2] in self.know: self.learn(x[2][0])

    def candidates(self):
        r = self.r
        c = list(self.sent); r.shuffle(c)
        pub = [(f, a) for f, (a, o) in sorted(self.p.funs.items()) if o == "Message"]
        forged = []
        for _ in range(24):
            if not pub: break
            f, a = r.choice(pub); v = []
            for s in a:
                if s == "Message": v.append(r.choice(self.know + forged))
                elif s in ("Bool", "Condition"): v.append(r.random() < 0.5)
                elif s in self.dom: v.append(r.choice(self.dom[s]))
                else: break
            if len(v) == len(a): forged.append(self.apply(f, v))
        c = c + forged if r.random() < 0.6 else forged + c
        if not c or r.random() < 0.1: c = [r.choice(self.know)] + c
        return [x for x in c if x not in (True, False)] or [("att", 0)]

    def universe(self, rng, n):
        """a sample of the messages: what was sent, its parts, the attacker's, and combinations"""
        if "all" not in self.memo:
            seen = {}
            def add(v):
                if not isinstance(v, tuple) or v in seen or v[0] not in ("f", "n", "att", "junk", "cell"): return
                seen[v] = 1
                if v[0] == "f":
                    for x in v[2]: add(x)
            for v in self.know: add(v)
            for s in self.order: add(self.msgof(s)); add(self.input(s))
            for x in self.names(): add(("n",) + x[1:])
            pub = [(f, a) for f, (a, o) in sorted(self.p.funs.items()) if o == "Message"]
            for f, a in pub:
                v = [rng.choice(list(seen)) if s == "Message" else rng.choice(self.sorts(s)) for s in a]
                add(self.apply(f, v))
            self.memo["all"] = list(seen)
        al = self.memo["all"]
        return rng.sample(al, n) if len(al) > n else list(al)
