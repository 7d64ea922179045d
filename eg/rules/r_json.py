"""Serialization: what is written is what is read; what is published contains no secret."""
from ..check import check, unresolved
from ..api import *
from ..alg import *
from ..terms import *
from ..interp import shortcls, instance
from .. import domain, models as M
from .r_ballot import ncanon
from .r_copy import bases, getters, show_of, flat

FORMATS = (("toJson", "fromJson"), ("toBson", "fromBson"), ("toMsgPack", "fromMsgPack"))
# reader -> writer whose inverse it is (on the values the library itself writes)
INVERSE = {
    EG + "ElementModP::fromHex": EG + "ElementModP::toHex",
    EG + "ElementModQ::fromHex": EG + "ElementModQ::toHex",
    EG + "hex_to_bytes": EG + "byte_string_to_hex",
    EG + "getElectionType": EG + "getElectionTypeString",
    EG + "getReportingUnitType": EG + "getReportingUnitTypeString",
    EG + "getVoteVariationType": EG + "getVoteVariationTypeString",
    EG + "timePointFromIsoString": EG + "timePointToIsoString",
}
QZERO = T("qpoly")
OPAQUE = sorted(set(INVERSE) | set(INVERSE.values()))


def inverse(writer):
    def f(ip, e, st):
        vs = [ip.reify(M.val(ip, a, st), st) for a in M.real_args(e)]
        return unwrap(writer, vs[0], strip(e["n"]), vs[1:])
    return f


def strip(n):
    from ..prog import strip_targs
    return strip_targs(n)


def unwrap(writer, v, name, rest=()):
    if v.op == "ite":
        return ite(v.a[0], unwrap(writer, v.a[1], name, rest), unwrap(writer, v.a[2], name, rest))
    if v.op == "app" and v.a[0] == writer:
        return v.a[1]
    return app(name, v, *rest)


def written(name):
    def f(ip, e, st):
        x = e["o"] if e.get("o") is not None else M.real_args(e)[0]
        return app(name, ip.reify(M.val(ip, x, st), st))
    return f


def jmodels():
    m = {}
    for r, w in INVERSE.items():
        m[r] = inverse(w)
        m[w] = written(w)
    return m


def engine(ctx):
    return domain.make(ctx.p, opaque=list(PRECOMP) + OPAQUE, models=jmodels())


def serializable(p):
    """class -> {format: (writer, reader)} of the public serialization interface."""
    out = {}
    for n in sorted(p.records):
        if not n.startswith(EG) or "::" in n[len(EG):]:
            continue
        c = n[len(EG):]
        for w, r in FORMATS:
            ws = [f for f in p.funcs.values() if f["n"] == EG + c + "::" + w and f.get("b") is not None
                  and not f.get("static") and not [a for a in f["ps"] if a["t"] != "bool"]]
            rs = [f for f in p.funcs.values() if f["n"] == EG + c + "::" + r and f.get("b") is not None]
            if len(rs) == 1:
                for i, f in enumerate(ws):
                    out.setdefault(c, {})[w + " (%d)" % (i + 1) if i else w] = (f, rs[0])
    return out


_obs = {}


def observable(ctx, cls):
    """getter -> what it shows of an object o."""
    k = (id(ctx.p), cls)
    if k not in _obs:
        s = _obs[k] = {}
        x = sym("o")
        for n, g in getters(ctx.p, cls).items():
            ip = domain.make(ctx.p, opaque=list(PRECOMP) + OPAQUE, models=jmodels())
            w = show_of(ctx, ip, cls, g, x, None)
            if w is None or fresh(w):
                continue
            s[n] = ncanon(flat(w))
    return _obs[k]


def fresh(t):
    return contains(t, lambda q: q.op == "fresh" or q.op == "app" and q.a[0] == "fresh")


def nth(t):
    return t.op == "app" and t.a[0] == "nth"


class Eta:
    """new C{f: o.f, ...} (all observable fields) is o; rebuilding an optional or possibly empty value is that value."""

    def __init__(self, ctx, ignore=(), ip=None):
        self.ctx = ctx
        self.ip = ip
        self.memo = {}
        self.ignore = set(ignore)
        self.lossy = set()

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def under(self, t, c, v):
        """t where condition c is known to be v."""
        m = {}
        for d in (conjuncts(c) if v else conjuncts(neg(c))):
            m[d] = TRUE
            m[neg(d)] = FALSE
        return self(cut(t, m, {}))

    def go(self, t):
        if not t.a or nth(t):
            return t
        if t.op == "ite":
            c = self(t.a[0])
            if is_bool(c):
                return self(t.a[1] if c is TRUE else t.a[2])
            return self.ite(c, self.under(t.a[1], c, True), self.under(t.a[2], c, False))
        if t.op == "when":
            c = self(t.a[0])
            b = self.under(t.a[1], c, True)
            return T("when", c, b if b.op == "seq" else T("seq", T("splice", b)))
        a = [self(x) if isinstance(x, T) else x for x in t.a]
        t = rebuild(t, a)
        if t.op == "fld" and self.ip is not None and self.ip.lens and self.ip.listfield(t.a[1]):
            return instance(t, self.ip.lens)
        if t.op == "new":
            return self.new(t)
        if t.op == "seq":
            return self.seq(t)
        if t.op == "app" and t.a[0] == "empty":
            return self.empty(t.a[1])
        if t.op == "app" and t.a[0] == "sorted" and t.a[1].op == "app" and t.a[1].a[0] == "sorted" and t.a[2:] == t.a[1].a[2:]:
            return t.a[1]
        return t

    def empty(self, x):
        if x.op == "ite":
            return ite(x.a[0], self.empty(x.a[1]), self.empty(x.a[2]))
        if x.op == "str":
            return boolean(x.a[0] == "")
        if x.op == "app" and x.a[0] in INVERSE.values() and "Iso" not in x.a[0] and "bytes" not in x.a[0]:
            return FALSE
        return app("empty", x)

    def new(self, t):
        """An object every getter of which shows what it shows of an existing object o is (observably) o."""
        cls = t.a[0][len(EG):] if t.a[0].startswith(EG) else t.a[0]
        views = observable(self.ctx, cls)
        val = {t.a[i]: t.a[i + 1] for i in range(1, len(t.a), 2)}
        base = None
        for n, v in val.items():
            while v.op == "app" and v.a[0] == "sorted":
                v = v.a[1]
            if v.op == "seq" and v.a and v.a[0].op == "one" and nth(v.a[0].a[0]):
                v = v.a[0].a[0].a[1]
            if v.op == "fld" and v.a[1] == n:
                base = v.a[0]
                break
        if base is None or not views:
            return t
        o = sym("o")
        for g, w in views.items():
            if (cls, g) in self.ignore:
                continue
            fs = {q for q in subterms(w) if q.op == "fld" and q.a[0] is o}
            if any(q.a[1] not in val for q in fs):
                return t
            x = cut(w, {q: val[q.a[1]] for q in fs}, {})
            y = cut(w, {q: T("fld", base, q.a[1]) for q in fs}, {})
            if self(x) is not self(y):
                return t
        return base

    def ite(self, c, a, b):
        t = ite(c, a, b)
        if t.op != "ite":
            return t
        c, a, b = t.a
        for x, y in ((a, b), (b, a)):
            if x.op == "new" and (y.op in ("fld", "bv") or nth(y)) and y is not NULL:
                z = T("new", *[q if i % 2 == 0 and i == 0 or i % 2 else T("fld", y, x.a[i - 1]) for i, q in enumerate(x.a)])
                a, b = (a, z) if x is a else (z, b)
                break
        if a.op == b.op == "new" and a.a[0] == b.a[0] and a.a[1::2] == b.a[1::2]:
            fs = [a.a[0]]
            for i in range(1, len(a.a), 2):
                fs += [a.a[i], self.ite(c, a.a[i + 1], b.a[i + 1])]
            r = self.new(T("new", *fs))
            if r.op != "new":
                return r
        c, a, b = t.a
        for x, y, k in ((a, b, c), (b, a, neg(c))):
            # k ? x : y   with y the value x has when k is false
            for d in conjuncts(neg(k)) if neg(k).op == "and" else [neg(k)]:
                if d.op == "app" and d.a[0] == "empty" and d.a[1] is x and (y is EMPTY or y is string("")):
                    return x
                if d is neg(x) and y is FALSE:
                    return x
                if d is neg(T("nonnull", x)) and y is QZERO:
                    return x        # an absent nonce is read back as zero
                if d is neg(T("nonnull", x)) and x.op == "fld" and y.op == "new" and len(y.a) == 3 and y.a[2] is EMPTY:
                    self.lossy.add((x.a[1], y.a[0]))
                    return x
        return t

    def seq(self, t):
        ps = [p for p in t.a if p.op != "jnull"]
        if len(ps) == 1 and ps[0].op == "each" and ps[0].a[3] is FALSE:
            h, coll, sq, brk = ps[0].a
            if len(sq.a) == 1:
                q = sq.a[0]
                el = q.a[0] if q.op == "one" else None
                if el is not None and el.op == "bv" and el.a[0] == h:
                    return coll
                if q.op in ("kv", "kvnew") and all(z.op == "app" and z.a[0] == "get%d" % i and z.a[1].op == "bv" and z.a[1].a[0] == h
                                                   for i, z in enumerate(q.a)):
                    return coll
        if len(ps) == 1 and ps[0].op == "when":
            c = neg(ps[0].a[0])
            inner = ps[0].a[1]
            if len(inner.a) == 1 and inner.a[0].op == "splice":
                inner = inner.a[0].a[0]
            else:
                inner = self(inner)
            if c.op == "app" and c.a[0] == "empty" and inner is c.a[1]:
                return inner
        return t if len(ps) == len(t.a) else self(mkseq(ps))


def cut(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        r = t if not t.a else rebuild(t, [cut(x, m, memo) if isinstance(x, T) else x for x in t.a])
        memo[t] = r
    return r


def rebuild(t, a):
    if all(x is y if isinstance(x, T) else x == y for x, y in zip(t.a, a)):
        return t
    if t.op == "ite":
        return ite(*a)
    if t.op == "and":
        return conj(*a)
    if t.op == "or":
        return disj(*a)
    if t.op == "not":
        return neg(a[0])
    if t.op == "seq":
        return mkseq(a)
    if t.op == "each" and a[2].op != "seq":
        a[2] = T("seq", T("splice", a[2]))
    return T(t.op, *a)


NONCES = {(c, "getNonce") for c in ("CiphertextBallot", "CiphertextBallotContest", "CiphertextBallotSelection", "SubmittedBallot")}


def write(ctx, wr, x, nonces=None, lens=0):
    """(data, result) of the public writer on x."""
    ip = engine(ctx)
    ip.lens = lens
    args = [nonces if nonces is not None and a["t"] == "bool" else sym(n) for a, n in zip(wr["ps"], pnames(wr))]
    r = ip.run(wr, args=args, this=x)
    ctx.saw(ip)
    ctx.tally("value-numbering steps", ip.steps)
    return (ip.reify(r.ret, r.st) if r.ret is not None else None), r


@check("C14", "gated value numbering of every public reader applied to what the matching writer yields; getter-by-getter comparison with the original object",
       "for every class with a public serialization and every format: reading what was written does not fail, and each getter of the result shows what it shows of the original.")
def c14(ctx):
    ss = serializable(ctx.p)
    for cls, fs in sorted(ss.items()):
        for w, (wr, rd) in sorted(fs.items()):
            modes = [None]
            if any(a["t"] == "bool" for a in wr["ps"]):
                modes = [TRUE, FALSE]
            for m in modes:
                n = len(ctx.undecided)
                name = "%s::%s %s" % (cls, w, "" if m is None else "with nonces" if m is TRUE else "without nonces")
                ctx.part(name, trip, ctx, cls, w, wr, rd, m)
                if len(ctx.undecided) > n:
                    ctx.part(name + ", lists of three", trip, Instances(ctx), cls, w, wr, rd, m, 3)
    if not ss:
        ctx.undecide("serialization", "", "no public reader and writer found")
    ctx.part("constants", constants, ctx)


class Instances:
    """What is looked at where the general case was left undecided: only its violations count."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def need(self, cond, what, where, detail="", key=None, about=()):
        if not cond and not any(t is not None and unresolved(t) for t in about):
            self.ctx.need(False, what, where, detail, key, about)

    def undecide(self, what, where, why):
        pass


def trip(ctx, cls, w, wr, rd, mode, lens=0):
    x = sym("x")
    data, r = write(ctx, wr, x, mode, lens)
    what = "%s::%s" % (cls, w)
    if lens:
        what += " of an object with %d in each list" % lens
    for t in r.throws:
        ctx.need(False, "%s does not fail" % what, ctx.loc(wr), "throws when %s" % show(ncanon(t[0]))[:200], about=[t[0]])
    if data is None:
        ctx.undecide("%s: what is written" % what, "", "no value")
        return
    ip = engine(ctx)
    ip.lens = lens
    ib = engine(ctx)
    ib.lens = lens
    r2 = ip.run(rd, args=[data])
    ctx.saw(ip)
    ctx.tally("value-numbering steps", ip.steps)
    rname = rd["n"].split("::")[-1]
    for t in r2.throws:
        c = Eta(ctx, ip=ip)(ncanon(t[0]))
        ctx.need(c is FALSE, "%s does not fail on what %s wrote" % (rname, what), ctx.loc(rd), "throws when %s" % show(c)[:200], about=[c, data])
    gone = mode is FALSE or cls == "SubmittedBallot"
    if not r2.rets:
        ctx.need(False, "%s reads what %s wrote" % (rname, what), ctx.loc(rd), "it never returns normally", about=[data])
    for pc, v, st, ln in r2.rets:
        cond = Eta(ctx, ip=ip)(ncanon(pc))
        if cond is FALSE:
            continue
        if v is NULL or v is None:
            ctx.need(False, "%s yields an object" % rname, ctx.loc(rd, ln), "null when %s" % show(cond)[:200], about=[cond])
            continue
        eta = Eta(ctx, ignore=NONCES if gone else (), ip=ip)
        for g, gf in sorted(getters(ctx.p, cls).items()):
            if gone and (cls, g) in NONCES:
                continue
            a = show_of(ctx, ip, cls, gf, v, st)
            b = show_of(ctx, ib, cls, gf, x, None)
            if a is None or b is None or fresh(b):
                continue
            a1, b1 = eta(ncanon(flat(a))), eta(ncanon(flat(b)))
            if cond is not TRUE:
                a1, b1 = eta.under(a1, cond, True), eta.under(b1, cond, True)
            ctx.need(a1 is b1, "%s, %s: %s" % (what, rname, g), ctx.loc(rd, ln),
                     "of the object read back: %s, of the original: %s" % (show(a1)[:260], show(b1)[:160]), about=[a1, b1, cond])
        for f, c in sorted(eta.lossy) if not lens else ():
            k = f.split("::")[0] + "::" + f.split("::")[-1]
            ctx.need(False, "%s, %s: an absent %s is read back as absent" % (what, rname, k), ctx.loc(rd, ln),
                     "it is read back as an empty %s" % c.split("::")[-1], key="absent %s read as empty" % k)


def constants(ctx):
    want = {"large_prime": "P", "small_prime": "Q", "cofactor": "R", "generator": "G"}
    for w in ("toJson", "toBson", "toMsgPack"):
        for f in [f for f in ctx.p.funcs.values() if f["n"].endswith("::Constants::" + w) and f.get("b") is not None]:
            ip = engine(ctx)
            r = ip.run(f, args=[])
            v = ip.reify(r.ret, r.st)
            d = v.a[1] if v.op == "app" and len(v.a) == 2 else v
            for k, c in want.items():
                g = M.jlookup(d, string(k))
                got = g[1] if g else None
                el = got.a[1] if got is not None and got.op == "app" and str(got.a[0]).endswith("::toHex") else None
                ok = el is not None and (show(el).replace(EG, "").startswith(c + "(") or el is ncanon(app(EG + c)) or show(ncanon(el)) == show(ncanon(app(EG + c))))
                ctx.need(ok, "the published constants name %s %s" % (c, k), ctx.loc(f), "written: %s" % (show(got)[:120] if got is not None else "nothing"), about=[d])


@check("C15", "gated value numbering of every public writer of an encrypted ballot; no nonce reaches the written value",
       "what is written without asking for nonces contains no nonce of the ballot, its contests or its selections; the interfaces that ask for them are the ones named so.")
def c15(ctx):
    secrets = {}
    for c, g in sorted(NONCES):
        f = getters(ctx.p, c).get(g)
        if f is None:
            continue
        w = show_of(ctx, engine(ctx), c, f, sym("o"), None)
        for q in subterms(w):
            if q.op == "fld" and q.a[0] is sym("o"):
                secrets[q.a[1]] = c
    if not secrets:
        ctx.undecide("nonces", "", "no nonce getter found")
        return
    for cls in ("CiphertextBallot", "SubmittedBallot"):
        for w, (wr, rd) in sorted(serializable(ctx.p).get(cls, {}).items()):
            ctx.part("%s::%s" % (cls, w), clean, ctx, cls, w, wr, secrets)
    ctx.part("C interface", c_writers, ctx)


def clean(ctx, cls, w, wr, secrets):
    for q in wr["ps"]:
        if q["t"] == "bool" and q.get("d"):
            d = q["d"]
            while d["k"] == "cast":
                d = d["e"]
            if d["k"] in ("bool", "int"):
                ctx.need(not d["v"], "%s::%s leaves nonces out by default" % (cls, w), ctx.loc(wr), "%s is %s when it is not given" % (q["n"], d["v"]))
    data, r = write(ctx, wr, sym("x"), FALSE)
    if data is None:
        ctx.undecide("%s::%s" % (cls, w), "", "no value")
        return
    bad = sorted({q.a[1] for q in values(data) if q.op == "fld" and q.a[1] in secrets})
    ctx.need(not bad, "%s::%s writes no nonce unless asked to" % (cls, w), ctx.loc(wr), "written: %s" % ", ".join(bad), about=[data] if not bad else [])


def values(t):
    """Subterms of the written value; the conditions under which parts of it are written say only whether something is there."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        a = x.a
        if x.op in ("ite", "when"):
            a = x.a[1:]
        todo += [q for q in a if isinstance(q, T)]


def c_writers(ctx):
    n = 0
    for f in sorted(ctx.p.funcs.values(), key=lambda f: f["n"]):
        if not f["n"].startswith(("eg_ciphertext_ballot_to_", "eg_submitted_ballot_to_")) or f.get("b") is None:
            continue
        asked = "with_nonces" in f["n"]
        ops = [EG + c + "::" + w for c in ("CiphertextBallot", "SubmittedBallot") for w, _ in FORMATS]
        ip = domain.make(ctx.p, opaque=list(PRECOMP) + ops)
        r = ip.run(f, args=[sym(a) for a in pnames(f)])
        ctx.saw(ip)
        seen = {e.t for e in ip.trace if e.t.op == "app" and e.t.a[0] in ops}
        for c in seen:
            if len(c.a) > 2 and c.a[0].startswith(EG + "CiphertextBallot::"):
                n += 1
                ctx.need(c.a[2] is boolean(asked), "%s writes %s nonces" % (f["n"], "the" if asked else "no"), ctx.loc(f), "nonces asked for: %s" % show(c.a[2])[:80], about=[c.a[2]])
    ctx.tally("C writers", n)
