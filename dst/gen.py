"""Random well-sorted protocols: every construction of the input language, hostile but legal
identifiers, all cryptographic assumptions, cells, macros, lemmas, orders and shadowing."""
import random
NASTY = ["MX0", "MX1", "NX0", "NX2", "iX0", "iX1", "SX0", "SX1", "CX0", "X0", "X1", "bX0", "TX0", "h'", "x''", "a-b", "é", "λ", "Ωm", "exit", "push", "reset",
         "check-sat", "model", "f_", "true'", "let'", "evaluate", "Nonce", "cast", "name", "dest", "sk_", "time", "main", "t_0", "A", "a", "X", "not'", "S-1", "l'é"]
class G:
    def __init__(self, rng, lemmas=None, nasty=0.4, size=None):
        self.r = rng; self.used = set(); self.nasty = nasty if rng.random() < 0.6 else 0
        self.size = size or rng.choice([1, 1, 2, 2, 3]); self.out = []; self.nlem = rng.choice([0, 0, 1, 2, 3]) if lemmas is None else lemmas; self.cnt = 0
    def fresh(self, base):
        r = self.r
        for _ in range(5):
            if r.random() < self.nasty:
                x = r.choice(NASTY)
                if x not in self.used: self.used.add(x); return x
        self.cnt += 1; x = "%s%d" % (base, self.cnt); self.used.add(x); return x
    def var(self, scope):
        r = self.r
        if r.random() < 0.08 and scope: return r.choice(scope)[0]          # shadows another variable
        if r.random() < 0.05 and self.consts: return r.choice(self.consts)  # shadows a symbol
        if r.random() < 0.1: return r.choice(["x'", "é", "MX0", "X0", "_z"])
        self.cnt += 1; return r.choice("ijkxyms") + "%d" % self.cnt
    # scope: list of (name, sort); inner definitions hide outer ones
    def vars(self, scope, sort):
        seen = {}
        for n, s in scope: seen[n] = s
        return [n for n, s in seen.items() if s == sort]
    def vis(self, n, scope): return n not in {a for a, _ in scope}
    def args(self, sorts, scope, d, ctx):
        a = [self.term(s, scope, d - 1, ctx) for s in sorts]
        return None if None in a else a
    def app(self, f, a): return f + ("(%s)" % ", ".join(a) if a else "")
    def pick(self, table, scope, d, ctx):
        c = [(f, s) for f, s in table if self.vis(f, scope)]; self.r.shuffle(c)
        for f, s in c:
            if d <= 0 and any(x in ("Message", "Bool", "Step") for x in s): continue
            a = self.args(s, scope, d, ctx)
            if a is not None: return self.app(f, a)
        return None
    def term(self, sort, scope, d, ctx):
        r = self.r
        if sort in self.types:
            v = self.vars(scope, sort); return r.choice(v) if v else None
        if sort == "Step": return self.step(scope, d, ctx)
        if sort == "Bool": return self.cond(scope, d, ctx)
        return self.msg(scope, d, ctx)
    def step(self, scope, d, ctx):
        r = self.r; c = self.vars(scope, "Step") + (["init"] if ctx != "step" and r.random() < 0.2 and self.vis("init", scope) else [])
        if ctx == "step": return None
        if c and r.random() < 0.7: s = r.choice(c)
        else: s = self.pick(self.steps, scope, d, ctx)
        if s and d > 0 and r.random() < 0.2 and ctx == "query" and self.vis("pred", scope): s = "pred(%s)" % s
        return s
    def bind(self, scope, sorts, n):
        b = []
        for _ in range(n): b.append((self.var(scope + b), self.r.choice(sorts)))
        return b
    def bs(self, b): return "(%s)" % ", ".join("%s:%s" % x for x in b)
    def msg(self, scope, d, ctx):
        r = self.r; k = r.random()
        leafs = [(f, s) for f, s in self.names + self.funs if all(x in self.types for x in s)]
        if d > 0:
            if k < 0.36: x = self.pick([(f, s) for f, s in self.funs if s], scope, d, ctx)
            elif k < 0.46 and self.macs:
                m = r.choice(self.macs); x = None
                if self.vis(m[0], scope):
                    a, b = self.msg(scope, d - 1, ctx), self.key(m[2], scope, d, ctx)
                    x = a and b and "%s(%s, %s)" % (m[0], a, b)
            elif k < 0.56 and self.encs:
                e = r.choice(self.encs); x = None
                if self.vis(e[0], scope):
                    a, q, b = self.msg(scope, d - 1, ctx), self.pick(self.rands, scope, 0, ctx), self.key(e[3], scope, d, ctx)
                    x = a and q and b and ("%s(%s, %s, %s)" % (e[0], a, q, b) if r.random() < 0.6 or not self.vis(e[1], scope) else "%s(%s, %s)" % (e[1], a, b))
            elif k < 0.62 and self.signs:
                e = r.choice(self.signs); x = None
                if self.vis(e[0], scope):
                    a, b = self.msg(scope, d - 1, ctx), self.key(e[3], scope, d, ctx); x = a and b and "%s(%s, %s)" % (e[0], a, b)
            elif k < 0.70:
                c, a, b = self.cond(scope, d - 1, ctx), self.msg(scope, d - 1, ctx), self.msg(scope, d - 1, ctx)
                x = c and a and b and "if %s { %s } else { %s }" % (c, a, b)
            elif k < 0.78:
                v = self.bind(scope, self.types, r.randint(1, 2)); sc = scope + v
                c, a, b = self.cond(sc, d - 1, ctx), self.msg(sc, d - 1, ctx), self.msg(scope, d - 1, ctx)
                x = c and a and b and "try find %s such that { %s } then { %s } else { %s }" % (self.bs(v), c, a, b)
            elif k < 0.82 and self.mmacros:
                x = self.macro(self.mmacros, scope, d, ctx)
            elif k < 0.84:
                v = (self.var(scope), "Message"); a, b = self.msg(scope, d - 1, ctx), self.msg(scope + [v], d - 1, ctx)
                x = a and b and self.lets and "let %s:Message = %s in %s" % (v[0], a, b)
            else: x = self.inp(scope, d, ctx)
            if x: return x
        v = self.vars(scope, "Message")
        if v and r.random() < 0.5: return r.choice(v)
        if r.random() < 0.25:
            x = self.inp(scope, d, ctx)
            if x: return x
        return self.pick(leafs, scope, 0, ctx) or (self.consts and self.vis(self.consts[0], scope) and self.consts[0]) or None
    def key(self, t, scope, d, ctx):
        return self.pick([t], scope, 0, ctx) if self.r.random() < 0.85 or ctx == "x" else self.msg(scope, d - 1, ctx)
    def macro(self, t, scope, d, ctx):
        n, s = self.r.choice(t)
        a = self.args(s, scope, d, ctx)
        return a is not None and "%s!%s" % (n, "(%s)" % ", ".join(a)) or None
    def inp(self, scope, d, ctx):
        r = self.r
        if ctx == "step": st = self.me
        elif ctx == "query": st = self.step(scope, d, ctx)
        else: return None
        if st is None: return None
        k = r.random()
        if self.cells and k < 0.4:
            c = r.choice(self.cells)
            if not self.vis(c[0], scope): return None
            a = self.args(c[1], scope, 0, ctx)
            if a is None: return None
            return "%s(%s)" % (c[0], ", ".join(a + [st if r.random() < 0.3 and self.owncell else "pred(%s)" % st]))
        if ctx == "query" and k < 0.5 and self.vis("msg", scope): return (lambda q: q and "msg!(%s)" % q)(self.pick(self.steps, scope, 0, ctx))
        return "input(%s)" % st if self.vis("input", scope) else None
    def cond(self, scope, d, ctx):
        r = self.r; k = r.random()
        if d <= 0 or k < 0.3:
            a, b = self.msg(scope, d - 1, ctx), self.msg(scope, d - 1, ctx)
            return a and b and "(%s %s %s)" % (a, r.choice(["==", "==", "!=", "<>"]), b)
        if k < 0.45:
            n = r.choice(["&&", "||"]); c = [self.cond(scope, d - 1, ctx) for _ in range(r.choice([2, 2, 3]))]
            return None if None in c else "(%s)" % ((" %s " % n).join(c))
        if k < 0.52:
            a, b = self.cond(scope, d - 1, ctx), self.cond(scope, d - 1, ctx); return a and b and "(%s %s %s)" % (a, r.choice(["=>", "=>", "<=>"]), b)
        if k < 0.58:
            a = self.cond(scope, d - 1, ctx); return a and "not(%s)" % a
        if k < 0.68 and self.preds: return self.pick(self.preds, scope, d, ctx)
        if k < 0.78 and self.macs:
            m = r.choice(self.macs)
            if not self.vis(m[1], scope): return None
            a, b, c = self.msg(scope, d - 1, ctx), self.msg(scope, d - 1, ctx), self.key(m[2], scope, d, ctx)
            return a and b and c and "%s(%s, %s, %s)" % (m[1], a, b, c)
        if k < 0.82 and self.signs:
            m = r.choice(self.signs)
            if not self.vis(m[1], scope) or not self.vis(m[2], scope): return None
            a, b, c = self.msg(scope, d - 1, ctx), self.msg(scope, d - 1, ctx), self.key(m[3], scope, d, ctx)
            return a and b and c and "%s(%s, %s, %s(%s))" % (m[1], a, b, m[2], c)
        if k < 0.90:
            v = self.bind(scope, self.types if ctx in ("step", "macro") else self.types + ["Message"] + (["Step"] if ctx == "query" else []), r.randint(1, 2))
            a = self.cond(scope + v, d - 1, ctx)
            return a and "%s %s { %s }" % (r.choice(["forall", "exists", "∀", "∃"]), self.bs(v), a)
        if ctx == "query":
            s, t = self.step(scope, d, ctx), self.step(scope, d, ctx)
            if s is None or t is None: return None
            q = r.random()
            if q < 0.4 and self.vis("happens", scope): return "happens(%s)" % s
            if q < 0.7 and self.vis("lt", scope): return "lt(%s, %s)" % (s, t)
            if q < 0.8: return "(%s == %s)" % (s, t)
            q = self.pick(self.steps, scope, 0, ctx); return q and "cond!(%s)" % q
        if self.cmacros and ctx in ("step", "query"): return self.macro(self.cmacros, scope, d, ctx) or None
        return r.choice(["true", "false"])
    def tr(self, f, n=30):
        for _ in range(n):
            x = f()
            if x: return x
        return None
    def gen(self):
        r = self.r; o = self.out; T = self.types = []
        self.consts = []; self.owncell = True; self.mm = True; self.lets = True
        self.macs, self.encs, self.signs, self.mmacros, self.cmacros, self.cells, self.steps, self.names, self.funs, self.preds, self.rands = [], [], [], [], [], [], [], [], [], [], []
        for _ in range(r.choice([1, 1, 2])): T.append(self.fresh("ty")); 
        if r.random() < 0.4: T[0] = "index"
        decl = ["type %s" % t for t in T]
        if r.random() < 0.1: decl.append("type %s" % self.fresh("unused"))
        sorts = lambda a: [r.choice(T) for _ in range(a)]
        sig = lambda s: "(%s)" % ", ".join(s) if s else r.choice(["", "", "()"])
        for _ in range(r.randint(1, 3)):
            c = self.fresh("c"); self.consts.append(c); self.funs.append((c, [])); decl.append("fun %s:Message" % c)
        for _ in range(r.randint(0, 3)):
            s = [r.choice(["Message", "Message", "Message", r.choice(T), "Bool"]) for _ in range(r.randint(1, 3))]
            f = self.fresh("f"); self.funs.append((f, s)); decl.append("fun %s%s:Message" % (f, sig(s)))
        for _ in range(r.randint(0, 2)):
            s = [r.choice(["Message", r.choice(T)]) for _ in range(r.randint(0, 2))]; f = self.fresh("p"); self.preds.append((f, s)); decl.append("fun %s%s:Bool" % (f, sig(s)))
        name = lambda b: (lambda f, s: (decl.append("fun %s%s:Name" % (f, sig(s))), (f, s))[1])(self.fresh(b), sorts(r.choice([0, 1, 1, 2])))
        for _ in range(r.choice([0, 1, 2])): self.names.append(name("n"))
        crypto = []
        def mac():
            h, v, k = self.fresh("h"), self.fresh("v"), name("k"); self.macs.append((h, v, k))
            decl.extend(["fun %s(Message, Message):Message" % h, "fun %s(Message, Message, Message):Bool" % v]); crypto.append("assert-crypto %s %s %s%s" % (r.choice(["euf-cma", "uf-cma", "euf_cma"]), h, v, r.choice(["", "", " [hmac]"])))
        def enc():
            e, d, k, ra = self.fresh("e"), self.fresh("d"), name("ek"), name("r"); fl = self.fresh("fail"); self.encs.append((e, d, fl, k)); self.rands.append(ra)
            self.funs.append((fl, [])); decl.extend(["fun %s(Message, Message, Message):Message" % e, "fun %s(Message, Message):Message" % d, "fun %s:Message" % fl]); crypto.append("assert-crypto int-ctxt %s %s %s" % (e, d, fl))
        def sign():
            s, c, p, k = self.fresh("sign"), self.fresh("chk"), self.fresh("pk"), name("sk"); self.signs.append((s, c, p, k))
            decl.extend(["fun %s(Message, Message):Message" % s, "fun %s(Message, Message, Message):Bool" % c, "fun %s(Message):Message" % p]); crypto.append("assert-crypto euf-cma %s %s %s" % (s, c, p))
        for f, q in ((mac, 0.6), (enc, 0.4), (sign, 0.35)):
            if r.random() < q: f()
            if r.random() < 0.15: f()
        for _ in range(r.choice([0, 0, 1, 2])):
            s = sorts(r.randint(0, 2)); c = self.fresh("cell"); self.cells.append((c, s)); decl.append("cell %s%s:Message" % (c, sig(s)))
        for kind in ("m", "c"):
            for _ in range(r.choice([0, 0, 1])):
                v = self.bind([], T + ["Message"], r.randint(0, 2))
                if len({a for a, _ in v}) < len(v): continue
                x = self.tr(lambda: (self.msg if kind == "m" else self.cond)(v, self.size, "macro"))
                if x:
                    n = self.fresh("mac"); decl.append("let %s!%s = %s" % (n, self.bs(v) if v else "", x)); (self.mmacros if kind == "m" else self.cmacros).append((n, [s for _, s in v]))
        if self.cells and r.random() < 0.7:
            a = []
            for c, s in self.cells:
                v = self.uniq(s, []); x = self.tr(lambda: self.msg(v, 1, "macro"))
                if x: a.append("%s %s <- %s" % (self.bs(v) if v else "", self.app(c, [n for n, _ in v]), x))
            if a: decl.append("step init { true } { empty } { %s }" % ", ".join(a))
        for _ in range(r.choice([1, 2, 2, 3])):
            s = sorts(r.choice([0, 1, 1, 2])); n = self.fresh("st"); v = self.uniq(s, [n]); self.me = self.app(n, [a for a, _ in v])
            c = self.tr(lambda: self.cond(v, self.size, "step")) if r.random() < 0.7 else "true"
            m = self.tr(lambda: self.msg(v, self.size + 1, "step")) or "empty"
            a = []
            for ce, cs in self.cells:
                if r.random() < 0.5: continue
                loc = []; ar = []
                for q in cs:
                    own = self.vars(v, q)
                    if own and r.random() < 0.7: ar.append(r.choice(own))
                    else: loc.append(("w%d" % self.cnt, q)); self.cnt += 1; ar.append(loc[-1][0])
                x = self.tr(lambda: self.msg(v + loc, self.size, "step"))
                if x: a.append("%s %s <- %s" % (self.bs(loc) if loc else "", self.app(ce, ar), x))
            decl.append("step %s%s { %s } { %s }%s" % (n, self.bs(v) if v else "", c or "true", m, " { %s }" % ", ".join(a) if a else ""))
            self.steps.append((n, s))
        o.extend(decl); rest = []
        for _ in range(r.choice([0, 1, 2])):
            v = self.bind([], T + ["Message"], r.randint(1, 3)); x = self.tr(lambda: self.cond(v, self.size, "assert"))
            if x: rest.append("assert forall %s { %s }" % (self.bs(v), x))
        for _ in range(r.choice([0, 0, 1])):
            v = self.bind([], T, 3); a, b = self.pick(self.steps, v, 0, "order"), self.pick(self.steps, v, 0, "order")
            if a and b: rest.append("order forall %s %s %s %s" % (self.bs(v), a, r.choice(["<", "<>", ">"]), b))
        rest += crypto
        if r.random() < 0.8: rest.append("assert-crypto nonce")
        if self.cells and r.random() < 0.8: rest.append("assert-crypto memory_cell")
        if r.random() < 0.25: rest.append("assert-crypto unfolding%s" % r.choice(["", " [direct]", " [recurisve]"]))
        def goal():
            def f():
                v = self.bind([], T + ["Message", "Step", "Step"], r.randint(1, 3)); x = self.cond(v, self.size + 1, "query")
                return x and "forall %s { %s }" % (self.bs(v), x)
            return self.tr(f) or "true"
        lem = ["lemma " + goal() for _ in range(self.nlem)]
        r.shuffle(rest); o.extend(rest[:len(rest) // 2]); o.extend(lem); o.append("query " + goal()); o.extend(rest[len(rest) // 2:])
        return "\n".join(x + ";" if x.startswith("assert-crypto") else x for x in o) + "\n"
    def uniq(self, sorts, avoid):
        v = []
        for s in sorts:
            n = self.var([])
            while n in {a for a, _ in v} | set(avoid) or n in self.used: self.cnt += 1; n = "i%d" % self.cnt
            v.append((n, s))
        return v
def protocol(rng, **kw): return G(rng, **kw).gen()
