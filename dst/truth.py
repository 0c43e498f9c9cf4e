"""Evaluation of a problem file over a recorded execution (C20): three-valued, the execution gives the
meaning of the protocol's symbols, the symbols that the tool introduces are solved for."""
import itertools, re
import smt
from ptcl import Unsupported
from model import U, Stop
T3 = (True, None, False)
SUB = re.compile(r"(.+)\$_\d+\$subterm_(\w+)$")


class Need(Exception):
    pass


def k_and(it):
    r = True
    for v in it:
        if v is False: return False
        if v is None: r = None
    return r


def k_or(it):
    r = False
    for v in it:
        if v is True: return True
        if v is None: r = None
    return r


def k_not(v): return None if v is None else not v


class Truth:
    def __init__(s, w, text, rng, fuel=40000):
        s.w, s.p, s.rng = w, w.p, rng
        s.f = smt.File(text)
        if s.f.problems: raise Unsupported("unreadable file: %s" % s.f.problems[:1])
        s.sym = "Message" in s.f.sorts and ("Condition" in s.f.sorts)
        s.raw = "Bitstring" in s.f.sorts            # bitstrings are a sort of their own
        s.fuel0 = fuel; s.fuel = fuel
        s.code = {}; s.free = {}; s.keep = []
        s.vals = {}
        s.pick = {}
        s.defs = {}; s.choice = {}
        g = s.f.goal_index()
        s.body = []
        for i, (k, t) in enumerate(s.f.asserts):
            if k == "declare-rewrite": continue
            if i == g: s.goal = t if k == "assert-not" else t[1]; continue
            s.body.append(t); s.define(t)
        s.mset = None
        n = max([s.width(t) for t in s.body + [s.goal]] or [0])
        s.sample({0: 7, 1: 7, 2: 7, 3: 6, 4: 5, 5: 4, 6: 3}.get(n, 3))

    def width(s, t):
        """the largest number of nested message variables"""
        if isinstance(t, str) or not t: return 0
        n = max([s.width(x) for x in t[1:]] or [0])
        if t[0] in ("forall", "exists"): n += sum(s.f.rs(v[1]) in ("Message", "Bitstring") for v in t[1])
        return n

    # -- the symbols that are defined by an assertion ----------------------------------------------
    def is_known(s, h):
        h = h.strip("|")
        return h in s.p.funs or h in s.p.steps or h in s.p.cells or h in BUILTIN or h.startswith("ta$") and h[3:] in CONN or h.startswith("eval$") or SUB.match(h)

    def define(s, t):
        vs = []
        if isinstance(t, list) and t[0] == "forall": vs = [v[0] for v in t[1]]; t = t[2]
        if not isinstance(t, list): return
        if t[0] in ("=", "=>") and len(t) == 3:
            l = t[1]
            if isinstance(l, list) and l[0] in ("evaluate_msg", "evaluate_cond"): l = l[1]; ev = True
            else: ev = False
            h, a = (l, []) if isinstance(l, str) else (l[0], l[1:])
            if isinstance(h, str) and h in s.f.funs and not s.is_known(h) and all(isinstance(x, str) and x in vs for x in a) and len(set(a)) == len(a) == len(vs):
                s.defs.setdefault(h, (a, t[2], ev))
        if t[0] == "or" and len(t) == 3 and isinstance(t[1], list) and t[1][0] == "forall" and isinstance(t[1][2], list) and t[1][2][0] == "not":
            m = {}
            if s.match(t[1][2][1], t[2], {v[0] for v in t[1][1]}, m):
                for y, x in m.items():
                    h, a = (x, []) if isinstance(x, str) else (x[0], x[1:])
                    if h in s.f.funs and not s.is_known(h) and all(isinstance(z, str) and z in vs for z in a) and len(set(a)) == len(a) == len(vs):
                        s.choice[h] = (a, t[1][1], t[1][2][1], y)

    def match(s, a, b, ys, m):
        if isinstance(a, str):
            if a in ys: return m.setdefault(a, b) == b
            return a == b
        return isinstance(b, list) and len(a) == len(b) and all(s.match(x, y, ys, m) for x, y in zip(a, b))

    # -- the universe -------------------------------------------------------------------------------
    def sample(s, n):
        w, r = s.w, s.rng
        vals = w.universe(r, n)
        if not s.sym: s.uq = vals; s.uc = [False, True]; return
        terms = []
        for v in vals:
            t = s.term(v)
            if t is not None: terms.append(t)
        if not terms: terms = [("T", "empty", ())]
        for i in range(len(terms)):
            if r.random() < 0.4: terms[i] = s.noise(terms)
        s.ut = terms
        s.uq = []
        for t in terms:
            v = s.val(t)
            if v is not None and v not in s.uq: s.uq.append(v)
        s.uc = [("T", "ta$true", ()), ("T", "ta$false", ())] + [s.noisec(terms) for _ in range(3)]

    def noise(s, terms):
        r = s.rng
        c = [(f, a) for f, (a, o) in sorted(s.p.funs.items()) if o == "Message"]
        for _ in range(6):
            x = r.randrange(10)
            if x < 2: return ("T", r.choice(["msg", "input"]), (r.choice(s.w.order + [U]),))
            if x < 3: return ("T", "ta$ite", (s.noisec(terms), r.choice(terms), r.choice(terms)))
            if x < 6 and s.w.proj:
                g, (f, i) = r.choice(sorted(s.w.proj.items()))
                a = s.p.funs[f][0]
                if all(q == "Message" for q in a):
                    v = [r.choice(terms) for _ in a]
                    if r.random() < 0.5 and s.w.names(): v[i] = ("T", "cast$Message$name", (r.choice(s.w.names()),))
                    return ("T", g, (("T", f, tuple(v)),))
            if c:
                f, a = r.choice(c); t = s.fill(f, a, terms)
                if t: return t
        return r.choice(terms)

    def noisec(s, terms):
        r = s.rng
        c = [(f, a) for f, (a, o) in sorted(s.p.funs.items()) if o == "Bool"]
        if c and r.random() < 0.6:
            f, a = r.choice(c); t = s.fill(f, a, terms)
            if t:
                k = s.w.kind.get(f)
                if k and k[0] == "ver" and r.random() < 0.5: t = ("T", f, (("T", k[1], t[2][1:]),) + t[2][1:])
                return t
        return r.choice([("T", "ta$true", ()), ("T", "ta$=", (r.choice(terms), r.choice(terms))), ("T", r.choice(["cond", "exec"]), (r.choice(s.w.order + [U]),))])

    def fill(s, f, a, terms):
        v = []
        for q in a:
            if q == "Message":
                v.append(("T", "cast$Message$name", (s.rng.choice(s.w.names()),)) if s.rng.random() < 0.35 and s.w.names() else s.rng.choice(terms))
            elif q in ("Bool", "Condition"): v.append(("T", s.rng.choice(["ta$true", "ta$false"]), ()))
            else:
                d = s.w.sorts(q)
                if not d: return None
                v.append(s.rng.choice(d))
        return ("T", f, tuple(v))

    def term(s, v):
        """a term of the protocol's algebra with this value"""
        if v is True or v is False: return ("T", "ta$true" if v else "ta$false", ())
        if v[0] == "n": return ("T", "cast$Message$name", (("N",) + v[1:],))
        if v[0] == "f":
            a = []
            for x in v[2]:
                y = s.term(x) if x in (True, False) or x[0] not in ("i", "S", "U", "N") else x
                if y is None: return None
                a.append(y)
            return ("T", v[1], tuple(a))
        for x, y in s.w.inp.items():
            if y == v: return ("T", "input", (x,))
        return None

    def dom(s, q):
        q = s.f.rs(q)
        if q == "Bool": return [False, True]
        if q == "Message": return s.ut if s.sym else s.uq
        if q == "Bitstring": return s.uq
        if q == "Condition": return s.uc
        return s.w.sorts(q.strip("|"))

    # -- values of the terms --------------------------------------------------------------------------
    def val(s, t):
        """what a term evaluates to"""
        if not s.sym: return t
        if t is None: return None
        if t[0] == "V": return t[1]
        try: return s.vals[t]
        except KeyError: pass
        s.vals[t] = None
        f, a = t[1], t[2]
        r = s.vals[t] = s.app(f, [s.val(x) if isinstance(x, tuple) and x and x[0] in ("T", "V") else x for x in a], True)
        return r

    def app(s, f, a, ev=False):
        """value of a symbol of the protocol over values"""
        w = s.w
        if f == "ta$and": return k_and(a)
        if f == "ta$or": return k_or(a)
        if any(x is None for x in a) and f not in ("ta$ite", "ta$implies"): return None
        if f in s.p.funs:
            q, o = s.p.funs[f]
            if len(q) != len(a): raise Unsupported("arity of %s" % f)
            return w.apply(f, a)
        if f in s.p.steps: return w.step(f, a)
        if f in s.p.cells: return w.cell(f, tuple(a[:-1]), a[-1])
        if f == "cast$Message$name": return ("n",) + a[0][1:]
        if f == "empty": return ("f", "empty", ())
        if f == "msg": return w.msgof(a[0])
        if f == "cond": return w.condof(a[0])
        if f == "exec": return w.exec(a[0])
        if f == "input": return w.input(a[0])
        if f == "ta$ite": return None if a[0] is None else a[1] if a[0] else a[2]
        if f == "ta$not": return k_not(a[0])
        if f == "ta$implies": return k_or((k_not(a[0]), a[1]))
        if f in ("ta$iff", "ta$="): return a[0] == a[1]
        if f == "ta$true": return True
        if f == "ta$false": return False
        return s.unknown(f, a)

    def unknown(s, f, a):
        """a symbol that the tool introduced"""
        key = (f,) + tuple(a)
        if key in s.pick: return s.pick[key]
        if f in s.defs:
            vs, t, ev = s.defs[f]
            s.pick[key] = None
            env = dict(zip(vs, a))
            if s.sym:
                env = {v: ("V", x) if s.f.rs(q) in ("Message", "Condition") and not (isinstance(x, tuple) and x[0] == "T") else x for (v, x), q in zip(env.items(), s.f.funs[f][0])}
            r = s.ev(t, env)
            if s.sym and not ev: r = s.val(r) if isinstance(r, tuple) and r[0] in ("T", "V") else r
            s.pick[key] = r
            return r
        if f in s.choice:
            vs, ys, c, y = s.choice[f]
            i = [v[0] for v in ys].index(y)
            env = dict(zip(vs, a)); r = None; bad = False
            d = [s.dom(v[1]) for v in ys]
            for x in itertools.product(*d):
                s.tick()
                v = s.ev(c, dict(env, **{n[0]: z for n, z in zip(ys, x)}))
                if v is None: bad = True; break
                if v: r = x[i]; break
            if r is None: r = None if bad or not d[i] else d[i][0]
            s.pick[key] = r
            return r
        if f in s.force: return s.force[f]
        o = s.f.rs(s.f.funs[f][1])
        if not a and o not in ("Message", "Bitstring", "Condition"): raise Need(f)
        return None
    force = {}; lenient = False

    def tick(s):
        s.fuel -= 1
        if s.fuel < 0: raise Stop()

    # -- assertions ------------------------------------------------------------------------------------
    def ev(s, t, env): return s.comp(t)(env)

    def comp(s, t):
        """a closure that evaluates the term; memoised, the terms stay alive in `keep`"""
        k = id(t) if not isinstance(t, str) else t
        c = s.code.get(k)
        if c is None: c = s.code[k] = s.comp1(t); s.keep.append(t)
        return c

    def fv(s, t):
        if isinstance(t, str): return s.vars1(t)
        k = id(t)
        r = s.free.get(k)
        if r is None:
            if t[0] in ("forall", "exists"): r = s.fv(t[2]) - {v[0] for v in t[1]}
            elif t[0] == "let": r = frozenset().union(s.fv(t[2]) - {v[0] for v in t[1]}, *[s.fv(v[1]) for v in t[1]])
            else: r = frozenset().union(*[s.fv(x) for x in (t[1:] if isinstance(t[0], str) else t)])
            s.free[k] = r; s.keep.append(t)
        return r
    def vars1(s, t): return frozenset() if t in s.f.funs or t in ("true", "false") else frozenset((t,))

    def comp1(s, t):
        if isinstance(t, str):
            if t in ("true", "false"): return lambda env, b=t == "true": b
            def var(env):
                if t in env: return env[t]
                return s.call(t, [])
            return var
        h = t[0]
        if h in ("and", "or"):
            cs = sorted(t[1:], key=size); cs = [s.comp(x) for x in cs]; stop = h == "or"
            def junct(env):
                r = not stop
                for c in cs:
                    v = c(env)
                    if v is stop: return v
                    if v is None: r = None
                return r
            return junct
        if h == "not":
            c = s.comp(t[1]); return lambda env: k_not(c(env))
        if h == "=>":
            n = ["or", ["not", t[1]], t[2]] if len(t) == 3 else None
            a, b = s.comp(t[1]), s.comp(t[2])
            def imp(env):
                x = a(env)
                if x is False: return True
                y = b(env)
                return True if y is True else None if x is None or y is None else False
            return imp
        if h in ("forall", "exists"): return s.quant(h == "forall", t)
        if h == "ite":
            c, a, b = [s.comp(x) for x in t[1:]]
            def ite(env):
                x = c(env)
                return None if x is None else a(env) if x else b(env)
            return ite
        if h == "let":
            vs = [(v, s.comp(x)) for v, x in t[1]]; b = s.comp(t[2])
            return lambda env: b(dict(env, **{v: x(env) for v, x in vs}))
        if h == "!": return s.comp(t[1])
        if h in ("=", "distinct"):
            cs = [s.comp(x) for x in t[1:]]; eq = h == "="
            def cmp(env):
                x = [c(env) for c in cs]
                if None in x: return None
                return all(y == x[0] for y in x) if eq else len(set(x)) == len(x)
            return cmp
        cs = [s.comp(x) for x in t[1:]]
        f = s.fun(h)
        if f: return lambda env: f(*[c(env) for c in cs])
        return lambda env: s.call(h, [c(env) for c in cs])

    def fun(s, h):
        """a direct function for the most frequent symbols"""
        w = s.w
        x = h.strip("|")
        if x in ("happens", "leq", "lt", "pred"): return getattr(w, x)
        m = SUB.match(x)
        if m:
            sort, kind = m.group(1).strip("|"), m.group(2)
            return lambda a, b: s.sub(sort, kind, a, b)
        if x in s.p.steps and x not in s.p.funs: return lambda *a: None if None in a else w.step(x, a)
        if s.sym and x == "evaluate_cond": return s.val

    def quant(s, q, t):
        """a quantifier; pushed inwards as far as possible, then a search with early pruning"""
        vs = [(v[0], v[1]) for v in t[1]]; b = t[2]
        op = "and" if q else "or"
        d = {v: s.dom(x) for v, x in vs}
        if q and isinstance(b, list) and b[0] == "=>" and len(b) == 3: b = ["or", ["not", b[1]], b[2]]
        if q and isinstance(b, list) and b[0] == "or":
            b = ["or"] + [y for x in b[1:] for y in (nots(x[1]) if isinstance(x, list) and x[0] == "not" else [x])]
        if all(d.values()):
            if isinstance(b, list) and b[0] == op and len(b) > 2:
                n = [op]
                for x in b[1:]:
                    u = [[v, y] for v, y in vs if v in s.fv(x)]
                    n.append([t[0], u, x] if u else x)
                s.keep.append(n); return s.comp(n)
            if isinstance(b, list) and b[0] == t[0] and not {v for v, _ in vs} & {v[0] for v in b[1]}:
                n = [t[0], t[1] + b[1], b[2]]; s.keep.append(n); return s.comp(n)
            u = [(v, y) for v, y in vs if v in s.fv(b)]
            if not u: return s.comp(b)
            vs = u
        s.keep.append(b)
        inf = any(s.f.rs(x) in ("Message", "Bitstring") or s.f.rs(x) == "Condition" and s.sym for _, x in vs)
        # exists: conjuncts, forall: disjuncts; each one is evaluated as soon as its variables are bound
        parts = b[1:] if isinstance(b, list) and b[0] == ("or" if q else "and") else [b]
        mine = {v for v, _ in vs}
        order = []; rest = list(vs); got = set()
        while rest:
            best = max(rest, key=lambda v: (sum(1 for x in parts if v[0] in s.fv(x) and s.fv(x) & mine <= got | {v[0]}), -len(d[v[0]])))
            order.append(best[0]); got.add(best[0]); rest.remove(best)
        at = [[] for _ in range(len(order) + 1)]
        for x in sorted(parts, key=size):
            need = s.fv(x) & mine
            at[max([order.index(v) + 1 for v in need] or [0])].append(s.comp(x))
        doms = [d[v] for v in order]
        stop = not q                   # the value of the body that decides
        total = 1
        for x in doms: total *= len(x)
        few = total > 3000 and inf
        def search(env, i, none):
            s.tick()
            for c in at[i]:
                v = c(env)
                if v is q: return q    # this branch can't decide
                if v is None: none = True
            if i == len(order): return None if none else stop
            r = q
            dm = doms[i]
            if few and len(dm) > 3 and i: dm = s.rng.sample(dm, 3)
            e = dict(env); n = order[i]
            for x in dm:
                e[n] = x
                v = search(e, i + 1, none)
                if v is stop: return stop
                if v is None: r = None
            return r
        pt = [(v, s.f.rs(x)) for v, x in vs]
        def quantifier(env):
            r = search(dict(env), 0, False)
            if r is stop: return r
            if inf and not q:
                v = s.point(pt, b, env)
                if v is not None: return v
            return None if inf and (few or not s.lenient or not q) else r
        return quantifier

    def point(s, vs, b, env):
        """exists x. (x = e & P): the witnesses are known"""
        if len(vs) != 1 or not isinstance(b, list) or b[0] != "and": return None
        x = vs[0][0]
        for c in b[1:]:
            if isinstance(c, list) and c[0] == "=" and len(c) == 3:
                for l, r in ((c[1], c[2]), (c[2], c[1])):
                    if l == x and not occurs(x, r):
                        v = s.ev(r, env)
                        return None if v is None else s.ev(b, dict(env, **{x: v}))
                    if l == ["evaluate_msg", x] and not occurs(x, r) and s.sym:
                        v = s.ev(r, env)
                        if v is None: return None
                        if self_v(v): v = v[1]
                        cand = {}
                        for y in env.values(): subs(y, cand)
                        res = k_or([s.ev(b, dict(env, **{x: y})) for y in cand if y[0] == "T" and s.ismsg(y) and s.val(y) == v])
                        return res if s.onlysub(b, x, c) else True if res else None
        return None

    def ismsg(s, y):
        h = y[1]
        g = s.f.funs.get(h) or s.f.funs.get("|%s|" % h)
        return bool(g) and s.f.rs(g[1]) == "Message"

    def onlysub(s, b, x, c):
        """besides the equation, x occurs only below a mac or signature that is searched for"""
        return all(d is c or s.insub(d, x) for d in b[1:])
    def insub(s, d, x):
        if isinstance(d, str): return d != x
        if isinstance(d[0], str) and d[0] in ("or", "and"): return all(s.insub(e, x) for e in d[1:])
        m = SUB.match(d[0]) if isinstance(d[0], str) else None
        if m: return m.group(2).endswith("_main") and isinstance(d[1], list) and not occurs(x, d[2]) or not occurs(x, d)
        return not occurs(x, d)

    def wrap(s, v): return v if s.raw or v is None else ("V", v)

    def call(s, h, a):
        w = s.w
        h = h.strip("|")
        if h in ("true", "false"): return h == "true"
        if h == "happens": return w.happens(a[0])
        if h == "leq": return w.leq(*a)
        if h == "lt": return w.lt(*a)
        if h == "gt": return w.lt(a[1], a[0])
        if h == "pred": return w.pred(a[0])
        m = SUB.match(h)
        if m: return s.sub(m.group(1).strip("|"), m.group(2), *a)
        if not s.sym:
            if h in ("evaluate_msg", "evaluate_cond"): return a[0]
            return s.app(h, a)
        if h == "evaluate_msg": return s.wrap(s.val(a[0]))
        if h == "evaluate_cond": return s.val(a[0])
        if h.startswith("eval$"):
            v = s.app(h[5:], [x[1] if isinstance(x, tuple) and x and x[0] == "V" else x for x in a])
            return s.wrap(v) if s.f.rs(s.f.funs[h][1] if h in s.f.funs else "Bool") in ("Bitstring", "Message") else v
        if h in s.p.steps: return None if None in a else w.step(h, a)
        if h in s.p.funs and s.p.funs[h][1] == "Name": return None if None in a else w.apply(h, a)
        o = s.f.rs(s.f.funs[h][1]) if h in s.f.funs else s.f.rs(s.f.funs["|%s|" % h][1])
        if o in ("Message", "Condition"):
            if any(x is None for x in a): return None
            return ("T", h, tuple(a))
        return s.unknown(h, a)

    # -- subterms ----------------------------------------------------------------------------------------
    def sub(s, sort, kind, x, m):
        if x is None or m is None: return None
        if sort in s.w.dom or sort in ("Bool", "Step") or sort == "Bitstring": return False
        if sort == "Name": return x == m if x[0] == "N" else False
        if kind == "nonce":
            if sort == "Condition": return False
            v = s.val(m)
            if isinstance(m, tuple) and m[0] == "V": return None
            return None if v is None else inside(("n",) + x[1:], v)
        if not s.sym: return None
        k = re.match(r"(uf_cma|euf_cma|int_ctxt)_(main|key|rand)$", kind)
        if not k: return None
        cr = [c for c in s.p.crypto if c[0].replace("-", "_") == k.group(1) or c[0] == "euf-cma" and len(c[1]) == 2 and k.group(1) == "uf_cma"]
        if k.group(1) == "euf_cma": cr = [c for c in cr if len(c[1]) > 2]
        skip = {}
        for c in cr:
            if k.group(2) == "key": skip.update({"uf_cma": {c[1][0]: 1, c[1][1]: 2}, "euf_cma": {c[1][0]: 1, c[1][-1]: 0}, "int_ctxt": {c[1][0]: 2, c[1][1]: 1}}[k.group(1)])
            elif k.group(2) == "rand": skip[c[1][0]] = 1
        return s.deep(k.group(2), x, m, skip, len(cr) > 1, {c[1][1] for c in cr} if k.group(2) == "main" and k.group(1) == "uf_cma" else ())

    def deep(s, kind, x, t, skip, several, vague):
        if t[0] == "N": return t == x
        if t[0] != "T": return None if t[0] == "V" else False
        if kind == "main" and t == x: return True
        f, a = t[1], t[2]
        if f in ("msg", "input", "cond", "exec") or f in s.p.cells or f in s.defs or f in s.choice or f in vague: return None
        if f not in s.p.funs and not f.startswith("ta$") and f not in ("cast$Message$name", "empty"): return None
        r = []
        for i, y in enumerate(a):
            if not isinstance(y, tuple): continue
            if skip.get(f) == i and y[0] == "T" and y[1] == "cast$Message$name":
                if several: r.append(None)
                continue
            r.append(s.deep(kind, x, y, skip, several, vague))
        return k_or(r)

    # -- the verdict ---------------------------------------------------------------------------------------
    def best(s, t, want):
        """the best value of t over the choice of the constants that the tool introduced"""
        s.fuel = s.fuel0
        todo = [{}]; top = not want; n = 0
        while todo:
            s.force = todo.pop(); n += 1
            if n > 300: return None
            s.pick = {}; s.vals = {}
            try: v = s.ev(t, {})
            except Need as e:
                f = e.args[0]
                todo += [dict(s.force, **{f: x}) for x in reversed(s.dom(s.f.funs[f][1]))]
                continue
            except Stop: return None
            if v is want: return v
            if v is None: top = None
        return top

    def verdict(s, user, goal):
        """None, or how the file misrepresents the execution"""
        w = s.w
        w.three = True; w.univ = s.uq; w.fuel = 10 ** 6
        try:
            uv = [w.ev(t, {}) for t in user]; gv = w.ev(goal, {}) if goal is not None else None
        finally: w.three = False
        plain = [not inner(t) for t in user]
        s.out = [(s.best(t, True), t) for t in s.body]
        bad = [t for v, t in s.out if v is False]
        s.counts = [sum(v is x for v, _ in s.out) for x in T3]
        uf = sum(v is False for v in uv)
        if len(bad) > uf + sum(v is None and not p for v, p in zip(uv, plain)):
            return "false", "%d assertions of the file are false in an execution of the protocol, but only %d of the user's are; false: %s" % (len(bad), uf, " ; ".join(smt.show(t, 260) for t in bad[:3]))
        if uf > len(bad):
            s.lenient = True
            unknown = sum(v is None and s.best(t, True) is None for v, t in s.out)
            s.lenient = False
            if uf > len(bad) + unknown:
                return "lost", "%d of the user's assertions are false in an execution of the protocol, but only %d of the file's are" % (uf, len(bad))
        if goal is None: return None
        g = s.best(s.goal, False)
        if g is None or gv is None:
            s.lenient = True
            try:
                if g is None: g = s.best(s.goal, False)
                if gv is None and not inner(goal): gv = True
            finally: s.lenient = False
        s.g = (gv, g)
        if g is not None and gv is not None and g != gv:
            return "goal", "the user's goal is %s in an execution of the protocol, the file's one is %s: %s" % (gv, g, smt.show(s.goal, 300))


def inner(t, top=True):
    """are there quantifiers over messages other than an outermost `forall`?"""
    if not isinstance(t, (tuple, list)): return False
    if isinstance(t, tuple) and t and t[0] == "q":
        m = any(q in ("Message", "Bitstring") for _, q in t[2])
        return m and not (top and t[1]) or inner(t[3], top and t[1])
    return any(inner(x, False) for x in t)


def nots(t): return ["not", t] and ([x for y in t[1:] for x in nots(y)] if isinstance(t, list) and t[0] == "and" else [["not", t]])
def size(t): return 1 if isinstance(t, str) else 1 + sum(size(x) for x in t) + (50 if t and t[0] in ("forall", "exists") else 0)
def self_v(v): return isinstance(v, tuple) and len(v) == 2 and v[0] == "V"
def occurs(x, t): return t == x if isinstance(t, str) else any(occurs(x, y) for y in t)
def inside(x, v): return v == x or isinstance(v, tuple) and v[0] == "f" and any(inside(x, y) for y in v[2])
def subs(t, out):
    if isinstance(t, tuple) and t and t[0] == "T" and t not in out:
        out[t] = 1
        for y in t[2]: subs(y, out)


CONN = {"and", "or", "not", "implies", "iff", "true", "false", "=", "ite"}
BUILTIN = {"happens", "leq", "lt", "gt", "pred", "msg", "cond", "exec", "input", "empty", "evaluate_msg", "evaluate_cond", "cast$Message$name", "init"}
