"""Normal forms for group / ring expressions and for binder terms.

Z_q expressions become polynomials over opaque atoms, group elements become
products base^exponent.  Two terms with the same normal form denote the same
element for every value of their atoms.
"""
from .terms import *
from . import terms as _t

EG = "electionguard::"
ONE = None


def nm(t):
    return t.a[0].replace(EG, "") if t.op == "app" else None


# ---- polynomials: dict monomial(tuple of (atom,pow) sorted) -> int coefficient

def p_const(c):
    return {(): c} if c else {}


def p_atom(t):
    return {((t, 1),): 1}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for t, e in m1 + m2:
                d[t] = d.get(t, 0) + e
            m = tuple(sorted(d.items(), key=lambda x: x[0].id))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_term(p):
    """dict -> T"""
    if not p:
        return T("qpoly")
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    ms = []
    for m, c in p.items():
        fl = []
        for t, e in m:
            fl += [t, e]
        ms.append((T("mono", *fl), c))
    ms.sort(key=lambda x: x[0].id)
    fl = []
    for m, c in ms:
        fl += [m, c]
    return T("qpoly", *fl)


def to_poly(t):
    if t.op == "qpoly":
        r = {}
        for i in range(0, len(t.a), 2):
            m = t.a[i]
            r[tuple((m.a[j], m.a[j + 1]) for j in range(0, len(m.a), 2))] = t.a[i + 1]
        return r
    if t.op == "int":
        return p_const(t.a[0])
    if t.op == "gprod":
        # a product formed with the group multiplication but used as an exponent
        r = p_const(1)
        for i in range(0, len(t.a), 2):
            e = to_poly(t.a[i + 1])
            if list(e.keys()) == [()] and e[()] > 0:
                for _ in range(e[()]):
                    r = p_mul(r, to_poly(t.a[i]))
            else:
                return p_atom(t)
        return r
    return p_atom(t)


def to_prod(t):
    """T -> dict base -> poly"""
    if t.op == "gprod":
        return {t.a[i]: to_poly(t.a[i + 1]) for i in range(0, len(t.a), 2)}
    return {t: p_const(1)}


def g_mul(a, b, k=1):
    r = dict(a)
    for base, e in b.items():
        v = p_add(r.get(base, {}), e, k)
        if v:
            r[base] = v
        else:
            r.pop(base, None)
    return r


def g_pow(a, e):
    r = {}
    for base, x in a.items():
        v = p_mul(x, e)
        if v:
            r[base] = v
    return r


def g_term(r):
    if len(r) == 1:
        (b, e), = r.items()
        if e == p_const(1):
            return b
    items = sorted(r.items(), key=lambda x: x[0].id)
    fl = []
    for b, e in items:
        fl += [b, p_term(e)]
    return T("gprod", *fl)


GEN = T("app", EG + "G")
GOPS = {"mul_mod_p", "pow_mod_p", "g_pow_p", "G", "ONE_MOD_P", "TWO_MOD_P"}
QOPS = {"add_mod_q", "sub_mod_q", "a_plus_bc_mod_q", "sub_from_q", "ONE_MOD_Q", "ZERO_MOD_Q", "TWO_MOD_Q", "Q"}


def is_g(t):
    return t.op == "gprod" or nm(t) in ("PROD",) or t is GEN


def is_q(t):
    return t.op == "qpoly" or nm(t) in ("QSUM", "hash_elems")


_cv = [0]


class Canon:
    def __init__(self, rules=None, facts=None, patterns=()):
        self.patterns = {}            # (op, field) -> [(template, hole, fn)]
        for tpl, hole, fn in patterns:
            self.patterns.setdefault((tpl.op, tpl.a[-1] if tpl.op == "fld" else tpl.a[0]), []).append((tpl, hole, fn))
        self.rules = rules or {}      # app name -> fn(args list) -> T or None
        self.facts = facts or {}      # term -> term (applied after children)
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            r2 = self.facts.get(r)
            if r2 is not None and r2 is not r:
                r = self(r2)
            self.memo[t] = r
        return r

    def open(self, h, *ts):
        _cv[0] += 1
        v = T("elem", -_cv[0], NULL)
        m = {T("bv", h): v}
        memo = {}
        return v, [subst(t, m, memo) for t in ts]

    def go(self, t):
        o = t.op
        if o in ("sym", "int", "b", "str", "null", "bv", "elem", "lv", "unk", "glob", "fn", "lam", "fresh"):
            if o == "glob":
                return t
            return t
        if o == "exists":
            h, coll, c = t.a
            v, (c2,) = self.open(h, c)
            return exists(v, self.unsort(self(coll)), self(c2))
        if o == "each":
            h, coll, sq, brk = t.a
            v, (s2, b2) = self.open(h, sq, brk)
            coll, s2, b2 = self(coll), self(s2), self(b2)
            h2, (s3, b3) = bind(v, s2, b2)
            return T("each", h2, coll, s3, b3)
        if o == "app" and t.a[0] in ("pick", "first", "last"):
            h = t.a[1].a[0]
            v, xs = self.open(h, *t.a[3:])
            coll = self(t.a[2])
            xs = [self(x) for x in xs]
            h2, xs = bind(v, *xs)
            return T("app", t.a[0], num(h2), coll, *xs)
        if o == "app" and t.a[0] == "find":
            h = t.a[1].a[0]
            v, xs = self.open(h, *t.a[3:])
            coll = self(t.a[2])
            xs = [self(x) for x in xs]
            h2, xs = bind(v, *xs)
            return T("app", "find", num(h2), coll, *xs)
        if o == "app" and t.a[0] == "loop":
            return self.loop(t)
        if o == "app" and nm(t) == "pow_mod_p" and len(t.a) == 3 and t.a[2].op == "app" and nm(t.a[2]) in ("Q", "P"):
            return app("pow_mod_p", self(t.a[1]), t.a[2])     # the order test: not an exponent mod q
        na = [self(x) if isinstance(x, T) else x for x in t.a]
        if o == "app":
            if t.a[0] in ("+", "*", "&", "|", "^") and len(na) > 2:
                xs = []
                for x in na[1:]:
                    xs.extend(x.a[1:] if x.op == "app" and x.a[0] == t.a[0] else [x])
                na = [na[0]] + sorted(xs, key=lambda x: x.id)
            return self.app(t.a[0], na[1:])
        if o == "eq":
            return self.eq(na[0], na[1])
        if o == "fld":
            b = na[0]
            if b.op == "new":
                for i in range(1, len(b.a), 2):
                    if b.a[i] == na[1]:
                        return b.a[i + 1]
            if b.op == "ite":
                return ite(b.a[0], self(T("fld", b.a[1], na[1])), self(T("fld", b.a[2], na[1])))
            t2 = T("fld", *na)
            for tpl, hole, fn in self.patterns.get(("fld", na[1]), ()):
                x = match1(tpl, hole, t2)
                if x is not None:
                    r = fn(x)
                    if r is not None:
                        return self(r)
            return t2
        if o == "nonnull":
            return nonnull(na[0])
        if o == "geq1":
            d = to_prod(na[0])
            if not d or na[0].op == "gprod" and not na[0].a:
                return TRUE
            r2 = g_term({k: p_add({}, e, -1) for k, e in d.items()})
            return T("geq1", na[0] if na[0].id < r2.id else r2)
        if o == "q0":
            d = to_poly(na[0])
            if not d:
                return TRUE
            if list(d.keys()) == [()]:
                return FALSE
            r2 = p_term(p_add({}, d, -1))
            return T("q0", na[0] if na[0].id < r2.id else r2)
        if o == "lt" and na[0].op == "int" and na[1].op == "int":
            return boolean(na[0].a[0] < na[1].a[0])
        if o == "qpoly":
            r = {}
            for i in range(0, len(na), 2):
                m = na[i]
                q = p_const(na[i + 1])
                for j in range(0, len(m.a), 2):
                    for _ in range(m.a[j + 1]):
                        q = p_mul(q, to_poly(self(m.a[j])))
                r = p_add(r, q)
            return p_term(r)
        if o == "gprod":
            r = {}
            for i in range(0, len(na), 2):
                r = g_mul(r, g_pow(to_prod(na[i]), to_poly(na[i + 1])))
            return g_term(r)
        return rebuild(o, na)

    def unsort(self, c):
        while c.op == "app" and c.a[0] in ("sorted", "reversed"):
            c = c.a[1]
        if c.op == "seq" and len(c.a) == 1 and c.a[0].op == "splice":
            return self.unsort(c.a[0].a[0])
        return c

    def loop(self, t):
        _, hT, coll, v0, b, brk = t.a
        h = hT.a[0]
        v, (b1, k1) = self.open(h, b, brk)
        acc, (b1, k1) = self.open(h + 1, b1, k1)
        coll, v0, b1, k1 = self(coll), self(v0), self(b1), self(k1)
        if k1 is FALSE:
            cond = TRUE
            body = b1
            if body.op == "ite" and body.a[2] is acc:
                cond, body = body.a[0], body.a[1]
            elif body.op == "ite" and body.a[1] is acc:
                cond, body = neg(body.a[0]), body.a[2]
            if acc not in free_elems(cond):
                if body.op == "gprod":
                    pr = to_prod(body)
                    if pr.get(acc) == p_const(1):
                        rest = dict(pr)
                        del rest[acc]
                        rt = g_term(rest)
                        if acc not in free_elems(rt):
                            return self.mulp([v0, self.big("PROD", v, coll, cond, rt)])
                if body.op == "qpoly":
                    po = to_poly(body)
                    if po.get(((acc, 1),)) == 1:
                        rest = dict(po)
                        del rest[((acc, 1),)]
                        rt = p_term(rest)
                        if acc not in free_elems(rt):
                            return p_term(p_add(to_poly(v0), to_poly(self.big("QSUM", v, coll, cond, rt))))
                if body.op == "app" and body.a[0] == "+" and acc in body.a[1:]:
                    rest = [x for x in body.a[1:] if x is not acc]
                    rt = rest[0] if len(rest) == 1 else app("+", *rest)
                    if len(rest) == len(body.a) - 2 and acc not in free_elems(rt):
                        s = self.big("SUM", v, coll, cond, rt)
                        if v0.op == "int" and v0.a[0] == 0:
                            return s
                        return app("+", *sorted([v0, s], key=lambda x: x.id))
        h2, (b2, k2) = bind(v, b1, k1)
        b2 = subst(b2, {acc: T("bv", h2 + 1)})
        k2 = subst(k2, {acc: T("bv", h2 + 1)})
        return T("app", "loop", num(h2), coll, v0, b2, k2)

    def big(self, kind, v, coll, cond, body):
        """PROD / QSUM / SUM over a loop, distributed over loop-independent bases and factors."""
        coll = self.unsort(coll)
        if coll.op == "seq" and all(p.op == "one" for p in coll.a) and len(coll.a) <= 8:
            xs = [(subst(cond, {v: p.a[0]}), subst(body, {v: p.a[0]})) for p in coll.a]
            if all(c is TRUE for c, _ in xs):
                if kind == "PROD":
                    return self.mulp([b for _, b in xs])
                if kind == "QSUM":
                    r = {}
                    for _, b in xs:
                        r = p_add(r, to_poly(b))
                    return p_term(r)
        if kind == "PROD" and body.op == "gprod":
            out, rest = {}, {}
            for base, e in to_prod(body).items():
                if v in free_elems(base):
                    rest[base] = e
                else:
                    out = g_mul(out, {base: to_poly(self.big("QSUM", v, coll, cond, p_term(e)))})
            if out:
                if rest:
                    out = g_mul(out, {self._big(kind, v, coll, cond, g_term(rest)): p_const(1)})
                return g_term(out)
            if len(rest) > 1:
                return self.mulp([self._big(kind, v, coll, cond, g_term({b: e})) for b, e in rest.items()])
        if kind == "QSUM":
            if body.op == "ite" and cond is TRUE:
                return p_term(p_add(to_poly(self.big(kind, v, coll, body.a[0], body.a[1])),
                                    to_poly(self.big(kind, v, coll, neg(body.a[0]), body.a[2]))))
            r = {}
            for m, c in to_poly(body).items():
                dep = tuple(x for x in m if v in free_elems(x[0]))
                ind = tuple(x for x in m if v not in free_elems(x[0]))
                t = {((self._big(kind, v, coll, cond, p_term({dep: 1})), 1),): 1}
                r = p_add(r, p_mul(t, {ind: c}))
            return p_term(r)
        return self._big(kind, v, coll, cond, body)

    def _big(self, kind, v, coll, cond, body):
        sq = T("seq", T("one", body))
        if cond is not TRUE:
            sq = T("seq", T("when", cond, sq))
        h2, (s2,) = bind(v, sq)
        return app(kind, T("each", h2, coll, s2, FALSE))

    def mulp(self, xs):
        r = {}
        for x in xs:
            r = g_mul(r, to_prod(x))
        return g_term(r)

    def seqprod(self, s, kind):
        """product / sum of the elements of a sequence term"""
        prods = {}
        poly = {}
        for p in pieces(s):
            if p.op == "one":
                if kind == "PROD":
                    prods = g_mul(prods, to_prod(p.a[0]))
                else:
                    poly = p_add(poly, to_poly(p.a[0]))
            else:
                if p.op == "splice":
                    c = self.unsort(p.a[0])
                    v = T("elem", 0, NULL)
                    p = T("each", 1, c, T("seq", T("one", T("bv", 1))), FALSE)
                elif p.op == "each":
                    p = T("each", p.a[0], self.unsort(p.a[1]), p.a[2], p.a[3])
                x = None
                if p.op == "each" and p.a[3] is FALSE and len(p.a[2].a) == 1:
                    v, (q,) = self.open(p.a[0], p.a[2])
                    q = q.a[0]
                    c = TRUE
                    if q.op == "when" and len(q.a[1].a) == 1:
                        c, q = q.a[0], q.a[1].a[0]
                    if q.op == "one":
                        x = self.big(kind, v, p.a[1], c, q.a[0])
                if x is None:
                    x = app(kind, p)
                if kind == "PROD":
                    prods = g_mul(prods, to_prod(x))
                else:
                    poly = p_add(poly, to_poly(x))
        return g_term(prods) if kind == "PROD" else p_term(poly)

    def app(self, name, na):
        n = name.replace(EG, "")
        f = self.rules.get(n)
        if f is not None:
            r = f(na)
            if r is not None:
                return self(r) if r.op not in ("sym",) else r
        if n == "G" and not na:
            return GEN
        if n == "mul_mod_p":
            if len(na) == 1:
                return self.seqprod(na[0], "PROD")
            return self.mulp(na)
        if n == "pow_mod_p" and name != "pow_mod_p":
            return g_term(g_pow(to_prod(na[0]), to_poly(na[1])))
        if n == "g_pow_p":
            return g_term(g_pow({GEN: p_const(1)}, to_poly(na[0])))
        if n == "ONE_MOD_P" or n == "ElementModP::fromUint64" and na and na[0].op == "int" and na[0].a[0] == 1:
            return T("gprod")
        if n in ("ElementModQ::toElementModP", "ElementModP::clone", "ElementModQ::clone"):
            return na[0]
        if n in ("ZERO_MOD_Q", "Q"):
            return T("qpoly")
        if n == "ONE_MOD_Q":
            return p_term(p_const(1))
        if n == "TWO_MOD_Q":
            return p_term(p_const(2))
        if n == "ElementModQ::fromUint64" and na:
            if na[0].op == "int":
                return p_term(p_const(na[0].a[0]))
            return app("ElementModQ::fromUint64", na[0])
        if n == "add_mod_q":
            if len(na) == 1:
                return self.seqprod(na[0], "QSUM")
            return p_term(p_add(to_poly(na[0]), to_poly(na[1])))
        if n == "sub_mod_q":
            return p_term(p_add(to_poly(na[0]), to_poly(na[1]), -1))
        if n == "sub_from_q":
            return p_term(p_add({}, to_poly(na[0]), -1))
        if n == "a_plus_bc_mod_q":
            return p_term(p_add(to_poly(na[0]), p_mul(to_poly(na[1]), to_poly(na[2]))))
        if n in ("empty", "size") and len(na) == 1:
            c = self.unsort(na[0])
            if c.op == "seq" and not c.a:
                return TRUE if n == "empty" else num(0)
            if c.op == "seq" and n == "empty" and any(p.op in ("one", "kv") for p in c.a):
                return FALSE
            if c.op == "seq" and len(c.a) == 1 and c.a[0].op == "each" and c.a[0].a[3] is FALSE \
                    and len(c.a[0].a[2].a) == 1 and c.a[0].a[2].a[0].op in ("one", "kv"):
                c = self.unsort(c.a[0].a[1])
            return app(n, c)
        if n == "idx" and len(na) == 2 and na[0].op == "seq" and na[1].op == "int":
            if all(p.op == "one" for p in na[0].a) and 0 <= na[1].a[0] < len(na[0].a):
                return na[0].a[na[1].a[0]].a[0]
        if n.startswith("get") and n[3:].isdigit() and len(na) == 1 and na[0].op == "app" and na[0].a[0] == "tuple":
            return na[0].a[1 + int(n[3:])]
        return app(name, *na)

    def eq(self, a, b):
        if a is b and a.op != "unk":
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (is_g(y) or is_q(y) or is_g(x.a[1]) or is_g(x.a[2]) or is_q(x.a[1]) or is_q(x.a[2])):
                return ite(x.a[0], self.eq(x.a[1], y), self.eq(x.a[2], y))
        if is_g(a) or is_g(b):
            d = g_mul(to_prod(a), to_prod(b), -1)
            if not d:
                return TRUE
            r = g_term(d)
            r2 = g_term({k: p_add({}, e, -1) for k, e in d.items()})
            return T("geq1", r if r.id < r2.id else r2)
        if is_q(a) or is_q(b):
            d = p_add(to_poly(a), to_poly(b), -1)
            if not d:
                return TRUE
            if list(d.keys()) == [()]:
                return FALSE
            r = p_term(d)
            r2 = p_term(p_add({}, d, -1))
            return T("q0", r if r.id < r2.id else r2)
        consts = ("int", "str", "b")
        if a.op in consts and b.op in consts:
            return boolean(a is b)
        if a.id > b.id:
            a, b = b, a
        return T("eq", a, b)


def match1(tpl, hole, t):
    """Binding of hole that makes tpl equal t, or None."""
    if tpl is hole:
        return t
    if tpl is t:
        return NULL
    if tpl.op != t.op or len(tpl.a) != len(t.a):
        return None
    r = None
    for x, y in zip(tpl.a, t.a):
        if isinstance(x, T):
            if not isinstance(y, T):
                return None
            z = match1(x, hole, y)
            if z is None:
                return None
            if z is not NULL:
                if r is not None and r is not z:
                    return None
                r = z
        elif x != y:
            return None
    return r


def nonnull(v):
    if v.op in ("obj", "new", "str", "addr", "lam", "qpoly", "gprod", "seq"):
        return TRUE
    if v.op == "null":
        return FALSE
    if v.op == "ite":
        return ite(v.a[0], nonnull(v.a[1]), nonnull(v.a[2]))
    if v.op == "app" and v.a[0].replace(EG, "") in {"hash_elems", "PROD", "QSUM", "rand_q", "G"} | GOPS | QOPS:
        return TRUE
    if found(v):
        return TRUE
    return T("nonnull", v)


_t._rebuilders["eq"] = lambda a, b: Canon().eq(a, b) if (is_g(a) or is_g(b) or is_q(a) or is_q(b)) else \
    (TRUE if a is b and a.op != "unk" else (boolean(a is b) if a.op in ("int", "str", "b") and b.op in ("int", "str", "b") else
     T("eq", *((a, b) if a.id <= b.id else (b, a)))))
_t._rebuilders["nonnull"] = nonnull


def specialise(t, val):
    """Fix the truth of boolean atoms (trace partitioning)."""
    return subst(t, {k: boolean(v) for k, v in val.items()})


def ite_conds(t):
    """Atoms that gate an ite anywhere inside t."""
    out = []
    for x in subterms(t):
        if x.op == "ite":
            for a in atoms(x.a[0]):
                if a not in out:
                    out.append(a)
    return out
