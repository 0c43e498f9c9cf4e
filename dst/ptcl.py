"""A reader of CryptoVampire's text format, independent of the tool's own parser (C20)."""
import re
TOK = re.compile(r"\s+|/\*.*?\*/|\(\*.*?\*\)|(?P<m>[^\W\d_][\w'-]*!)|(?P<i>_?[^\W\d_][\w'-]*)|(?P<o><=>|===|==|!=|<>|=>|&&|\|\||<-|[(){}\[\],:;=<>∀∃])", re.S)


class Unsupported(Exception):
    pass


class P:
    def __init__(self, text):
        self.t = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m or m.end() == i: raise Unsupported("token at %r" % text[i:i + 15])
            i = m.end()
            if m.lastgroup: self.t.append(m.group())
        self.i = 0

    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def take(self, x=None):
        y = self.peek()
        if y is None or x is not None and y != x: raise Unsupported("expected %r, got %r" % (x, y))
        self.i += 1
        return y
    def opt(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def ident(self):
        x = self.take()
        if not re.match(r"_?[^\W\d_][\w'-]*$", x): raise Unsupported("identifier %r" % x)
        return x
    def tvars(self):
        v = []
        if self.opt("("):
            while not self.opt(")"):
                n = self.ident(); self.take(":"); v.append((n, self.ident())); self.opt(",")
        return v
    def sorts(self):
        v = []
        if self.opt("("):
            while not self.opt(")"): v.append(self.ident()); self.opt(",")
        return v
    def options(self):
        o = []
        if self.opt("["):
            while not self.opt("]"): o.append(self.ident())
        self.opt(";")
        return o
    def braced(self):
        self.take("{"); x = self.term(); self.take("}")
        return x
    def args(self):
        for a, b in ("()", "[]"):
            if self.opt(a):
                v = []
                while not self.opt(b): v.append(self.term()); self.opt(",")
                return v
        return []

    def term(self):
        t = self.peek()
        if t == "(":
            self.take(); x = [self.term()]; ops = []
            while not self.opt(")"): ops.append(self.take()); x.append(self.term())
            if not ops or len(set(ops)) > 1 or len(ops) > 1 and ops[0] not in ("&&", "||"): raise Unsupported("operators %r" % ops)
            return ("op", ops[0], x)
        if t == "if":
            self.take(); c = self.term(); a = self.braced(); self.take("else"); return ("ite", c, a, self.braced())
        if t == "try":
            self.take(); self.take("find"); v = self.tvars(); self.take("such"); self.take("that")
            c = self.braced(); self.take("then"); a = self.braced(); self.take("else")
            return ("find", v, c, a, self.braced())
        if t == "let":
            self.take(); n = self.ident(); self.take(":"); s = self.ident(); self.take("="); a = self.term(); self.take("in")
            return ("let", n, s, a, self.term())
        if t in ("forall", "exists", "∀", "∃"):
            self.take(); v = self.tvars(); return ("q", t in ("forall", "∀"), v, self.braced())
        if t and t.endswith("!"):
            self.take(); return ("mac", t[:-1], self.args())
        return ("app", self.ident(), self.args())


class Protocol:
    pass


def read(text):
    p = P(text)
    r = Protocol()
    r.types, r.funs, r.cells, r.steps, r.macros, r.asserts, r.lemmas, r.orders, r.crypto, r.query = [], {}, {}, {}, {}, [], [], [], [], None
    while p.peek() is not None:
        k = p.take()
        if k == ";": continue
        if k == "type": r.types.append(p.ident()); p.options()
        elif k in ("fun", "cell"):
            f = p.ident(); a = p.sorts(); p.take(":"); o = p.ident(); p.options()
            (r.funs if k == "fun" else r.cells)[f] = (a, o)
        elif k == "step":
            n = p.ident(); v = p.tvars(); c = p.braced(); m = p.braced(); asg = []
            if p.opt("{"):
                while not p.opt("}"):
                    w = p.tvars(); cell = p.ident(); a = p.args(); p.take("<-"); asg.append((w, cell, a, p.term())); p.opt(",")
            p.options(); r.steps[n] = (v, c, m, asg)
        elif k == "let": n = p.take(); v = p.tvars(); p.take("="); r.macros[n[:-1]] = (v, p.term()); p.options()
        elif k == "assert": r.asserts.append(p.term()); p.options()
        elif k == "lemma": r.lemmas.append(p.term()); p.options()
        elif k == "query": r.query = p.term(); p.options()
        elif k == "assert-crypto":
            n = p.ident(); a = []
            while p.peek() and p.peek() not in (";", "["): a.append(p.ident())
            r.crypto.append((n.replace("_", "-"), a, p.options()))
        elif k == "order":
            q = p.take(); v = p.tvars(); b = p.opt("{"); x = p.term(); g = None
            if p.opt("=>"): g, x = x, p.term()
            o = p.take(); y = p.term()
            if b: p.take("}")
            p.options(); r.orders.append((q in ("forall", "∀"), v, g, x, o, y))
        else: raise Unsupported("declaration %r" % k)
    r.steps.setdefault("init", ([], ("app", "true", []), ("app", "empty", []), []))
    return r
