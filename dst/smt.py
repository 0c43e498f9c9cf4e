"""A small SMT-LIB reader: well-formedness (sorts, arities, closedness) and a canonical form
that is invariant under renaming of generated names and bound variables and under reordering
of declarations, assertions and commutative arguments."""
import re
from collections import Counter

TOK = re.compile(r'[()]|;[^\n]*|\|[^|]*\||"(?:[^"]|"")*"|[^\s();|"]+')


class SmtError(Exception):
    pass


def parse(text):
    """list of top-level s-expressions (lists / str)."""
    stack = [[]]
    pos = 0
    for m in TOK.finditer(text):
        gap = text[pos:m.start()]
        if gap and not gap.isspace():
            raise SmtError("unreadable text %r at offset %d" % (gap[:20], pos))
        pos = m.end()
        t = m.group()
        if t == '(':
            stack.append([])
        elif t == ')':
            if len(stack) == 1:
                raise SmtError("unbalanced ')' at offset %d" % m.start())
            x = stack.pop()
            stack[-1].append(x)
        elif t[0] == ';':
            continue
        else:
            stack[-1].append(t)
    if text[pos:].strip():
        raise SmtError("unreadable text at the end: %r" % text[pos:][:20])
    if len(stack) != 1:
        raise SmtError("unbalanced: %d parentheses never closed" % (len(stack) - 1))
    return stack[0]


def strip_comments(text):
    return re.sub(r';[^\n]*', '', text)


ASSERTS = ('assert', 'assert-not', 'assert-theory', 'assert-ground')


class File:
    """A parsed and checked problem file."""

    def __init__(self, text):
        self.problems = []
        self.sorts = {}       # name -> arity
        self.alias = {}       # name -> name
        self.funs = {}        # name -> (args, out)
        self.asserts = []     # (keyword, term)
        self.other = []
        self.subrel = {}      # vampire's subterm relations
        self.checksat = 0
        self.top = parse(text)
        self._read()

    def bad(self, m):
        if len(self.problems) < 5:
            self.problems.append(m)

    def rs(self, s):
        n = 0
        while isinstance(s, str) and s in self.alias and n < 20:
            s = self.alias[s]
            n += 1
        return s

    def addfun(self, n, args, out):
        if not isinstance(n, str):
            return self.bad("bad function name %r" % (n,))
        if n in self.funs:
            self.bad("symbol %s declared twice" % n)
        for s in list(args) + [out]:
            r = self.rs(s)
            if not isinstance(r, str) or (r not in self.sorts and r not in ('Bool', 'Int', 'Real')):
                self.bad("symbol %s uses undeclared sort %s" % (n, s))
        self.funs[n] = ([self.rs(a) for a in args], self.rs(out))

    def addsort(self, n):
        if not isinstance(n, str) or n in self.sorts or n in self.alias or n == 'Bool':
            return self.bad("sort %s declared twice" % n)
        self.sorts[n] = 0

    def _read(self):
        last = None
        for c in self.top:
            if not isinstance(c, list) or not c or not isinstance(c[0], str):
                self.bad("top-level text outside a command: %r" % (c,))
                continue
            k = c[0]
            if last == 'check-sat' and k not in ('get-proof', 'get-unsat-core', 'get-model', 'get-info', 'exit'):
                self.bad("command %s after check-sat" % k)
            try:
                if k == 'declare-sort':
                    self.addsort(c[1])
                elif k == 'define-sort':
                    if c[1] in self.sorts or c[1] in self.alias:
                        self.bad("sort %s declared twice" % c[1])
                    if c[2]:
                        self.bad("parametric sort %s" % c[1])
                    self.alias[c[1]] = c[3]
                elif k == 'declare-datatypes':
                    names, bodies = c[1], c[2]
                    if len(names) != len(bodies):
                        self.bad("datatypes: %d names, %d bodies" % (len(names), len(bodies)))
                    for n in names:
                        self.addsort(n[0])
                    for n, b in zip(names, bodies):
                        for con in b:
                            if isinstance(con, str):
                                con = [con]
                            self.addfun(con[0], [d[1] for d in con[1:]], n[0])
                            for d in con[1:]:
                                self.addfun(d[0], [n[0]], d[1])
                elif k == 'declare-fun':
                    self.addfun(c[1], c[2], c[3])
                    if len(c) != 4:
                        self.bad("declare-fun %s malformed" % c[1])
                elif k == 'declare-const':
                    self.addfun(c[1], [], c[2])
                elif k in ('define-fun', 'define-fun-rec'):
                    self.addfun(c[1], [a[1] for a in c[2]], c[3])
                    self.other.append(c)
                elif k in ASSERTS:
                    if k == 'assert-ground' and len(c) == 3:    # vampire dialect: (assert-ground sort term)
                        if self.rs(c[1]) not in self.sorts:
                            self.bad("assert-ground of undeclared sort %s" % c[1])
                        c = [k, c[2]]
                    if len(c) != 2:
                        self.bad("%s with %d arguments" % (k, len(c) - 1))
                    self.asserts.append((k, c[1]))
                elif k == 'declare-subterm-relation':       # vampire dialect
                    if c[1] in self.funs or c[1] in self.subrel:
                        self.bad("symbol %s declared twice" % c[1])
                    self.subrel[c[1]] = c[2:]
                    self.other.append([k, c[1]] + sorted(c[2:]))
                elif k == 'declare-rewrite':                # vampire dialect: (forall vars (= lhs rhs))
                    if len(c) != 2 or c[1][0] != 'forall' or len(c[1]) != 3 or len(c[1][2]) != 3:
                        self.bad("malformed command %s" % (str(c)[:80],))
                    self.asserts.append((k, c[1] if c[1][1] else c[1][2]))
                elif k == 'check-sat':
                    self.checksat += 1
                else:
                    self.other.append(c)
            except (IndexError, TypeError, ValueError):
                self.bad("malformed command %s" % (str(c)[:80],))
            last = k
        if self.checksat != 1:
            self.bad("%d check-sat commands" % self.checksat)
        if last != 'check-sat':
            self.bad("does not end with check-sat")

    # ---------------------------------------------------------------- well-formedness
    def check(self):
        """list of problems, empty if the file is complete, closed and well-sorted."""
        for k, t in self.asserts:
            try:
                s = self.sort(t, {})
                if s != 'Bool':
                    self.bad("assertion of sort %s: %s" % (s, show(t)))
            except SmtError as e:
                self.bad(str(e))
            except (IndexError, TypeError, ValueError, RecursionError):
                self.bad("malformed term %s" % show(t))
        for n, fs in self.subrel.items():
            for f in fs:
                if f not in self.funs:
                    self.bad("subterm relation %s over undeclared symbol %s" % (n, f))
            if len(set(fs)) != len(fs):
                self.bad("subterm relation %s lists a symbol twice" % n)
        nots = [i for i, (k, _) in enumerate(self.asserts) if k == 'assert-not']
        if not self.asserts:
            self.bad("no assertion")
        else:
            g = self.goal_index()
            if g is None:
                self.bad("no goal (neither assert-not nor a final (assert (not ...)))")
            if len(nots) > 1:
                self.bad("%d goals" % len(nots))
        return self.problems

    def goal_index(self):
        nots = [i for i, (k, _) in enumerate(self.asserts) if k == 'assert-not']
        if nots:
            return nots[0]
        if self.asserts:
            k, t = self.asserts[-1]
            if k == 'assert' and isinstance(t, list) and len(t) == 2 and t[0] == 'not':
                return len(self.asserts) - 1
        return None

    def sort(self, t, env):
        if isinstance(t, str):
            if t in env:
                return env[t]
            if t in ('true', 'false'):
                return 'Bool'
            if t in self.funs:
                a, o = self.funs[t]
                if a:
                    raise SmtError("symbol %s used without its %d arguments" % (t, len(a)))
                return o
            if t.isdigit():
                return 'Int'
            raise SmtError("undeclared symbol or free variable %s" % t)
        if not t:
            raise SmtError("empty term")
        h = t[0]
        if not isinstance(h, str):
            raise SmtError("malformed application %s" % show(t))
        if h in ('forall', 'exists'):
            if len(t) != 3 or not t[1]:
                raise SmtError("malformed quantifier %s" % show(t))
            e = dict(env)
            for v in t[1]:
                if not isinstance(v, list) or len(v) != 2:
                    raise SmtError("malformed binder %s" % show(t))
                s = self.rs(v[1])
                if s not in self.sorts and s != 'Bool' and s != 'Int':
                    raise SmtError("binder of undeclared sort %s" % v[1])
                e[v[0]] = s
            if self.sort(t[2], e) != 'Bool':
                raise SmtError("quantified term is not Bool: %s" % show(t))
            return 'Bool'
        if h == 'let':
            e = dict(env)
            for v in t[1]:
                e[v[0]] = self.sort(v[1], env)
            return self.sort(t[2], e)
        if h == '!':
            return self.sort(t[1], env)
        if h == 'subterm' and h not in self.funs and self.subrel:
            if len(t) != 4 or t[1] not in self.subrel:
                raise SmtError("malformed subterm atom %s" % show(t))
            for x in t[2:]:
                self.sort(x, env)
            return 'Bool'
        args = [self.sort(x, env) for x in t[1:]]
        if h in env:
            raise SmtError("variable %s applied" % h)
        if h in self.funs:
            a, o = self.funs[h]
            if len(a) != len(args):
                raise SmtError("%s applied to %d arguments instead of %d" % (h, len(args), len(a)))
            if a != args:
                raise SmtError("%s applied to sorts %s instead of %s" % (h, args, a))
            return o
        if h in ('and', 'or', '=>', 'not', 'xor'):
            if any(s != 'Bool' for s in args) or not args or (h == 'not' and len(args) != 1) or (h == '=>' and len(args) < 2):
                raise SmtError("%s applied to %s" % (h, args))
            return 'Bool'
        if h in ('=', 'distinct'):
            if len(set(args)) > 1 or len(args) < 2:
                raise SmtError("%s applied to %s in %s" % (h, args, show(t)))
            return 'Bool'
        if h == 'ite':
            if len(args) != 3 or args[0] != 'Bool' or args[1] != args[2]:
                raise SmtError("ite applied to %s" % args)
            return args[1]
        raise SmtError("undeclared function %s" % h)

    # ---------------------------------------------------------------- canonical form
    def canon(self, rounds=3):
        """(declarations, assertions, goal) as (Counter, Counter, str)."""
        col = {}
        for f in self.funs:
            col[f] = base(f)
        for s in list(self.sorts) + list(self.alias):
            col.setdefault(s, base(s))
        groups = Counter(col[f] for f in self.funs)
        amb = [f for f in self.funs if groups[col[f]] > 1]
        g = self.goal_index()
        terms = []
        for i, (k, t) in enumerate(self.asserts):
            if i == g:
                terms.append(('goal', t if k == 'assert-not' else t[1]))
            else:
                terms.append(('assert', t))
        if amb:
            for f in amb:
                a, o = self.funs[f]
                col[f] = '%s:%s>%s' % (col[f], ','.join(base(x) for x in a), base(o))
            groups = Counter(col[f] for f in self.funs)
            amb = [f for f in self.funs if groups[col[f]] > 1]
        for _ in range(rounds):
            if not amb:
                break
            ambset = set(amb)
            occ = {f: [] for f in amb}
            for k, t in terms:
                syms = set()
                collect(t, ambset, syms)
                for f in syms:
                    c2 = dict(col)
                    c2[f] = '@' + col[f]
                    occ[f].append(k + cterm(t, c2, {}, 0))
            import hashlib
            new = {f: col[f] + '~' + hashlib.sha1('\n'.join(sorted(occ[f])).encode()).hexdigest()[:10] for f in amb}
            col.update(new)
            groups = Counter(col[f] for f in self.funs)
            amb2 = [f for f in self.funs if groups[col[f]] > 1]
            if amb2 == amb:
                break
            amb = amb2
        decls = Counter()
        for s in self.sorts:
            decls['sort ' + col[s]] += 1
        for s, d in self.alias.items():
            decls['alias %s %s' % (s, base(str(d)))] += 1
        for f, (a, o) in self.funs.items():
            decls['fun %s (%s) %s' % (col[f], ' '.join(base(x) for x in a), base(o))] += 1
        for c in self.other:
            decls['other ' + cterm(c, col, {}, 0)] += 1
        asserts = Counter()
        goal = None
        for k, t in terms:
            s = cterm(t, col, {}, 0)
            if k == 'goal':
                goal = s
            else:
                asserts[s] += 1
        return decls, asserts, goal


GEN = re.compile(r'_\d+\$')


def base(n):
    return GEN.sub('_#$', n) if '$' in n else n


def collect(t, names, out):
    if isinstance(t, str):
        if t in names:
            out.add(t)
    else:
        for x in t:
            collect(x, names, out)


COMM = {'and', 'or', '=', 'distinct', 'xor', 'declare-subterm-relation'}


def cterm(t, col, env, depth):
    if isinstance(t, str):
        if t in env:
            return '?%d' % (depth - env[t])
        return col.get(t) or base(t)
    if not t:
        return '()'
    h = t[0]
    if h in ('forall', 'exists') and len(t) == 3:
        e = dict(env)
        d = depth
        ss = []
        for v in t[1]:
            e[v[0]] = d
            d += 1
            ss.append(col.get(v[1]) or base(v[1]))
        return '(%s (%s) %s)' % (h, ' '.join(ss), cterm(t[2], col, e, d))
    if h == 'let' and len(t) == 3:
        e = dict(env)
        d = depth
        bs = []
        for v in t[1]:
            bs.append(cterm(v[1], col, env, depth))
        for v in t[1]:
            e[v[0]] = d
            d += 1
        return '(let (%s) %s)' % (' '.join(bs), cterm(t[2], col, e, d))
    args = [cterm(x, col, env, depth) for x in t[1:]]
    if isinstance(h, str) and h in COMM:
        args.sort()
    hh = cterm(h, col, env, depth) if not isinstance(h, str) else (col.get(h) or base(h))
    return '(%s %s)' % (hh, ' '.join(args))


def show(t, n=120):
    s = str(t).replace("'", '').replace(',', '')
    return s[:n]


def diff(a, b, n=3):
    """human-readable difference of two canonical forms."""
    out = []
    for what, x, y in (('declaration', a[0], b[0]), ('assertion', a[1], b[1])):
        for s, c in (x - y).items():
            out.append('%s only in first: %s' % (what, s[:200]))
        for s, c in (y - x).items():
            out.append('%s only in second: %s' % (what, s[:200]))
    if a[2] != b[2]:
        out.append('goals differ: %s / %s' % (str(a[2])[:150], str(b[2])[:150]))
    return out[:n] + (['... %d more' % (len(out) - n)] if len(out) > n else [])
