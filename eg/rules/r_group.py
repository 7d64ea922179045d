"""Group arithmetic: the value every public operation computes, as a polynomial in its operands on every path."""
import hashlib
import itertools

from .. import witness
from ..api import EG, find, finds
from ..bn import *
from ..check import check
from ..prog import AnalysisBroken, rel

PN, QN = 64, 4
STD = {  # sha256 of the decimal text of the standard parameters (ElectionGuard 1.0)
    "P": "44d6e16a142dc71834aab8121fa99c180f14d1f8a3db003b7c7405453f492a22",
    "Q": "7304e07989de0b4eb39e617e5358d0ac033e0c67dd1232d1722fe14279d54c8e",
    "R": "4cbdcab72b7317fbf3d97230271f863f6fc192a61784c5489ee1ddcae4bd0c0a",
    "G": "81ebba44301fb3e81570a63026f418ddc5d1ecae231f73a1c129e97059e5b2a4",
}


def wid(cls):
    return PN if cls == "ElementModP" else QN


class Group:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.P = self.const("P", "ElementModP")
        self.Q = self.const("Q", "ElementModQ")
        self.M = {"ElementModP": self.P, "ElementModQ": self.Q}

    def ip(self):
        return BN(self.p)

    def const(self, name, cls):
        ip = self.ip()
        outs = ip.run(find(self.p, name, n=0), None, [], St())
        vals = {self.value(ip, cls, v, s)[0].const() for s, v in outs}
        self.seen(ip)
        if len(vals) != 1 or None in vals:
            raise AnalysisBroken("the value of %s() is not a constant of the source" % name)
        return vals.pop()

    def seen(self, ip):
        self.ctx.functions |= ip.analysed
        self.ctx.tally("number-interpreter steps", ip.steps)
        self.ctx.tally("memory accesses bounded", ip.access)

    def elem(self, ip, cls, v, st, extra=()):
        """An element with value v, made by the public constructor from an array."""
        n = wid(cls)
        fs = [f for f in self.p.fn(EG + "%s::%s" % (cls, cls)) if f.get("ctor") and f["ps"] and "[%d]" % n in f["ps"][0]["t"]]
        if not fs:
            raise AnalysisBroken("%s has no constructor from an array" % cls)
        r = Bytes(8 * n)
        r.write(0, 8 * n, v)
        a = st.new(r)
        rid = ip.alloc(EG + cls, st, init=False)
        out = list(ip.call(fs[0], Ptr(rid), [Ptr(a), ONE] + list(extra), st, None))
        if len(out) != 1:
            raise AnalysisBroken("constructing an unchecked %s splits" % cls)
        return Ptr(rid), out[0][0]

    def value(self, ip, cls, o, st):
        (x, q), = ip.call(find(self.p, cls + "::get", n=0), o, [], st, None)
        return ip.rd(q, 8 * wid(cls), x), x


def known_all(ps):
    def bad(p, seen):
        for mo in p.d:
            for x, e in mo:
                if not isinstance(e, int) and bad(e, seen):
                    return True
                if x.kind == "unk":
                    return True
                if x in seen:
                    continue
                seen.add(x)
                if any(isinstance(y, Poly) and bad(y, seen) for y in x.a):
                    return True
        return False
    return not any(bad(p, set()) for p in ps)


def pins(st):
    """Operands a path fixes to one value."""
    out = {}
    for K, l, h in st.cons:
        if l != h:
            continue
        ms = [(m, c) for m, c in K.d.items() if m != ()]
        for m, c in ms:
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind in ("sym", "part") and m[0][0] not in out:
                x = m[0][0]
                rest = K - pa(x).scale(c)
                out[x] = (num(l) - rest).scale(c)
                break
    return out


def settle(p, st, widths):
    """p with the operands a path fixes put in, and the operands written as their bytes."""
    px = pins(st)
    for _ in range(4):
        q = subst(p, lambda x: px.get(x))
        if q == p:
            break
        p = q
    return p


def sliced(p, widths):
    """The operands of which p has slices."""
    out = {}

    def go(q):
        for mo in q.d:
            for x, e in mo:
                if not isinstance(e, int):
                    go(e)
                if x.kind == "part" and x.a[0].single() in widths:
                    out[x.a[0].single()] = widths[x.a[0].single()]
                for y in x.a:
                    if isinstance(y, Poly):
                        go(y)
    go(p)
    return out


def cost(p, widths):
    n = 0
    for mo in p.d:
        t = 1
        for x, e in mo:
            if isinstance(e, int):
                t *= widths.get(x, 1) ** e
        n += t
    return n


def zero(d, M, st, widths):
    """d ≡ 0 (mod M, or exactly when M is None) on this path."""
    def r(x):
        return resid(x, M) if M else x
    if not r(d).d:
        return True
    e = r(settle(d, st, widths))
    if not e.d:
        return True
    w2 = sliced(e, widths)
    if cost(e, w2) > 20000:
        return False
    e = r(expand_bytes(e, w2))
    if not e.d:
        return True
    e = r(settle(e, st, widths))
    if not e.d:
        return True
    l, h = st.bounds(d)
    return l == h == 0 if M is None else (l == h and l % M == 0)


def fmt(env):
    return ", ".join("%s = %s" % (x.a[0], hexs(v)) for x, v in sorted(env.items(), key=lambda t: str(t[0].a[0])))


def run_op(ctx, g, fn, spec, label, expect, res, exact=False, throws_ok=False, models=None, canonical=True):
    """spec: list of (class, polynomial, extra ctor arguments) or callables(ip, st) -> (value, st). expect: polynomial.
    res: (ip, value, state) -> (polynomial, state). One obligation per path."""
    ip = g.ip()
    ip.models.update(models or {})
    st = St()
    vals = []
    for s in spec:
        if callable(s):
            v, st = s(ip, st)
        else:
            v, st = g.elem(ip, s[0], s[1], st, s[2] if len(s) > 2 else ())
        vals.append(v)
    ip.oob.clear()
    vals0 = list(vals)
    this = None
    if fn.get("cls") and not fn.get("static"):
        this, vals = vals[0], vals[1:]
    outs = ip.run(fn, this, vals, st)
    g.seen(ip)
    where = ctx.loc(fn)
    M = None if exact else g.M["ElementModP" if "ElementModP" in fn["rt"] else "ElementModQ"]
    syms = witness.bases([s[1] for s in spec if not callable(s)] + [expect])
    widths = {x: (x.hi.bit_length() + 7) // 8 for x in syms}
    for key, (f, line, text) in sorted(ip.oob.items(), key=str):
        if key[2]:
            ctx.bad("%s: memory is read and written inside its arrays" % label, ctx.loc(f, line) if f else where, text, key="%s oob %s" % (label, key[0]))
        else:
            ctx.undecide("%s: memory is read and written inside its arrays" % label, where, text)
    for s, t, (f, line) in ip.throws:
        env = witness.find(syms, s, lambda env: True)
        what = "%s: gives a result" % label
        if throws_ok:
            continue
        if env is not None and known_all([K for K, _, _ in s.cons]):
            ctx.bad(what, ctx.loc(f, line) if f else where, "throws %s for %s" % (t, fmt(env)))
        else:
            ctx.undecide(what, where, "a path with no operands found for it throws %s" % t)
    for e in ip.events:
        if e[0] == "key":
            if e[2].kind == "partof":
                ctx.bad("%s: the table is that of the base" % label, ctx.loc(*e[1]), "bases that agree in %s share a table" % (e[2].v,), key=label + " key")
                continue
            ctx.undecide("%s: the table is that of the base" % label, where, "the key of the table is not the text of the whole base: %r" % (e[2],))
    for w in sorted(ip.incomplete):
        ctx.undecide("%s: the remaining paths" % label, where, w)
    if not outs and not ip.throws:
        ctx.undecide(label, where, "no path returns")
    for i, (s, v) in enumerate(outs):
        path = "%s%s" % (label, "" if len(outs) == 1 else " [path %d of %d]" % (i + 1, len(outs)))
        try:
            r, s2 = res(ip, v, s)
        except AnalysisBroken as e:
            ctx.undecide(path, where, str(e))
            continue
        for j, (q, o) in enumerate(zip(spec, vals0)):
            if callable(q):
                continue
            w, s2 = g.value(ip, q[0], o, s2)
            if zero(w - q[1], None, s2, widths):
                ctx.ok(path + ": operand %d is left as it was" % (j + 1), where)
            else:
                judge(ctx, path + ": operand %d is left as it was" % (j + 1), where, s2, syms, w - q[1], None, w, label + " operand")
        d = r - expect
        if zero(d, M, s2, widths):
            ctx.ok(path + ": result", where)
        else:
            judge(ctx, path + ": result", where, s2, syms, d, M, r, label)
        if M and canonical:
            lo, hi = s2.bounds(settle(r, s2, widths))
            if 0 <= lo and hi < M:
                ctx.ok(path + ": canonical", where)
            else:
                env = None
                if known_all([r] + [K for K, _, _ in s2.cons]):
                    env = witness.find(syms, s2, lambda env: not 0 <= witness.evalp(r, env) < M)
                if env is not None:
                    ctx.bad(path + ": canonical", where, "the result is not below the modulus for %s" % fmt(env), key=label + ": canonical")
                elif not known_all([r]):
                    ctx.undecide(path + ": canonical", where, "not resolved")
                else:
                    ctx.undecide(path + ": canonical", where, "no bound found: [%s, %s]" % (hexs(lo), hexs(hi)))
    ctx.tally("paths", len(outs))
    return ip, outs


def judge(ctx, what, where, st, syms, d, M, r, key):
    if any(o[2] == "violated" and o[4] == key + ": result" for o in ctx.ob):
        return      # reported on another path
    if not known_all([d] + [K for K, _, _ in st.cons]):
        ctx.undecide(what, where, "not resolved: %s" % repr(r)[:200])
        return
    env = witness.find(syms, st, lambda env: witness.evalp(d, env, M) != 0)
    if env is None:
        ctx.undecide(what, where, "no operands found for a path whose result differs: %s" % repr(r)[:200])
    else:
        ctx.bad(what, where, "computes %s; differs for %s" % (repr(r)[:200], fmt(env)), key=key + ": result")


def pval(g, cls):
    return lambda ip, v, s: g.value(ip, cls, v, s)


def vec_of(g, items, et):
    """A std::vector of pointers or references to elements."""
    def make(ip, st):
        v = Vec(et, None)
        for cls, pol in items:
            o, st = g.elem(ip, cls, pol, st)
            v.items.append(Ptr(st.new(Val(o))))
        v.n = len(items)
        return Ptr(st.new(v)), st
    return make


@check("C09", "abstract interpretation of the number code over integer polynomials in the operands; HACL* primitives as the vocabulary",
       "on every path, for all operands below the modulus, the result is the canonical residue of the named operation, and no access leaves its array.")
def c09(ctx):
    g = Group(ctx)
    P, Q = g.P, g.Q
    p1 = [sym(x, 0, P - 1) for x in ("x", "y", "z")]
    q1 = [sym(x, 0, Q - 1) for x in ("a", "b", "c")]
    x, y, z = p1
    a, b, c = q1
    EP, EQ = "ElementModP", "ElementModQ"
    pv, qv = pval(g, EP), pval(g, EQ)
    ctx.part("constants", constants, ctx, g)

    gs = sym("g", 2, P - 1)

    def asg(ip, e, st):
        """G() with its value as a symbol."""
        fn = find(ctx.p, "G", n=0)
        for y, o in ip.call(fn, None, [], st, e):
            (z, q), = ip.call(find(ctx.p, EP + "::get", n=0), o, [], y, e)
            ip.wr(q, 8 * PN, gs, z, e)
            yield z, o

    def op(name, classes, args, expect, extra=None, note="", **kw):
        fn = find(ctx.p, name, types=classes)
        spec = [(cl, v) + ((extra,) if extra and i == 0 else ()) for i, (cl, v) in enumerate(zip(classes, args))]
        run_op(ctx, g, fn, spec, "%s(%s)%s" % (name, ", ".join(cl[-1] for cl in classes), note), expect, pv if EP in fn["rt"] else qv,
               canonical=name != "sub_from_q", **kw)

    T = [("add_mod_q", [EQ, EQ], [a, b], a + b), ("sub_mod_q", [EQ, EQ], [a, b], a - b), ("a_plus_bc_mod_q", [EQ] * 3, [a, b, c], a + b * c),
         ("sub_from_q", [EQ], [a], num(Q) - a), ("add_mod_p", [EP, EP], [x, y], x + y), ("mul_mod_p", [EP, EP], [x, y], x * y),
         ("mod_p", [EP], [x], x), ("pow_mod_p", [EP, EP], [x, y], power(x, y)), ("pow_mod_p", [EP, EQ], [x, a], power(x, a)),
         ("g_pow_p", [EP], [x], None), ("g_pow_p", [EQ], [a], None)]
    for name, cl, args, ex in T:
        kw = {}
        if ex is None:
            ex = power(gs, args[0])
            kw["models"] = {EG + "G": asg}
        ctx.part("%s(%s)" % (name, ",".join(cl)), op, name, cl, args, ex, **kw)
    # an operand that is the same object twice
    ctx.part("fixed base", op, "pow_mod_p", [EP, EQ], [x, a], power(x, a), [ONE], " with a lookup table")
    # lists
    ctx.part("lists", lists, ctx, g, p1, q1)


def lists(ctx, g, p1, q1):
    EP, EQ = "ElementModP", "ElementModQ"
    fn = find(ctx.p, "add_mod_q", types=["vector"])
    for n in range(1, 4):
        ctx.part("add_mod_q(list of %d)" % n, lambda: run_op(ctx, g, fn, [vec_of(g, [(EQ, v) for v in q1[:n]], "std::reference_wrapper<electionguard::ElementModQ>")],
                 "add_mod_q(list of %d)" % n, sum(q1[1:n], q1[0]), pval(g, EQ)))
    fm = find(ctx.p, "mul_mod_p", types=["vector"])
    for kinds in [k for n in range(0, 4) for k in itertools.product("PQ", repeat=n)]:
        its, ex = [], ONE
        for i, k in enumerate(kinds):
            v = (p1 if k == "P" else q1)[i]
            its.append(("ElementMod" + k, v))
            ex = ex * v
        lab = "mul_mod_p(list %s)" % ("".join(kinds) or "empty")
        ctx.part(lab, lambda: run_op(ctx, g, fm, [vec_of(g, its, "std::variant<electionguard::ElementModP *, electionguard::ElementModQ *>")], lab, ex, pval(g, EP)))


def prime(n):
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % a == 0:
            return n == a
        d, s = n - 1, 0
        while d % 2 == 0:
            d, s = d // 2, s + 1
        v = pow(a, d, n)
        if v in (1, n - 1):
            continue
        for _ in range(s - 1):
            v = v * v % n
            if v == n - 1:
                break
        else:
            return False
    return True


def constants(ctx, g):
    P, Q = g.P, g.Q
    where = {n: ctx.loc(find(ctx.p, n, n=0)) for n in ("P", "Q", "G", "R")}
    G, R = g.const("G", "ElementModP"), g.const("R", "ElementModP")
    ctx.need(Q == (1 << 256) - 189 and prime(Q), "Q is the prime 2^256 - 189", where["Q"], hexs(Q))
    ctx.need(P.bit_length() == 4096 and prime(P), "P is a 4096-bit prime", where["P"], hexs(P))
    ctx.need((P - 1) == Q * R, "R is the cofactor (P - 1) / Q", where["R"], hexs(R))
    ctx.need(1 < G < P and pow(G, Q, P) == 1 and G == pow(2, R, P), "G = 2^R mod P generates the subgroup of order Q", where["G"], hexs(G))
    for n, v in (("P", P), ("Q", Q), ("R", R), ("G", G)):
        ctx.need(hashlib.sha256(str(v).encode()).hexdigest() == STD[n], "%s is the standard parameter" % n, where[n], hexs(v))
    for n, v in (("ZERO_MOD_P", 0), ("ONE_MOD_P", 1), ("TWO_MOD_P", 2), ("ZERO_MOD_Q", 0), ("ONE_MOD_Q", 1), ("TWO_MOD_Q", 2)):
        w = g.const(n, "ElementMod" + n[-1])
        ctx.need(w == v, "%s() is %d" % (n, v), ctx.loc(find(ctx.p, n, n=0)), hexs(w))


# ---------------------------------------------------------------- values of elements
def hexmodels():
    def sani(ip, e, st):
        for x, v in ip.ev(e["a"][0], st):
            yield x, v

    def tobytes(ip, e, st):
        for x, v in ip.ev(e["a"][0], st):
            if isinstance(v, Ptr) and isinstance(x.mem.get(v.rid), Val):
                v = x.mem[v.rid].v
            if not isinstance(v, Str) or v.kind != "hex":
                raise AnalysisBroken("bytes of an unknown text")
            rid = ip.alloc("std::vector<unsigned char>", x)
            vec = x.w(rid)
            vec.n = v.n
            vec.data = x.new(Bytes(v.n))
            ip.wr(Ptr(vec.data), v.n, rev(v.v, v.n), x, e)
            yield x, Ptr(rid)
    return {EG + "sanitize_hex_string": sani, EG + "hex_to_bytes": tobytes}


def limbs(v, n):
    def make(ip, st):
        r = Bytes(8 * n)
        r.write(0, 8 * n, v)
        return Ptr(st.new(r)), st
    return make


def octets(v, n):
    """n bytes, most significant first."""
    def make(ip, st):
        r = Bytes(n)
        if n:
            r.write(0, n, rev(v, n))
        return Ptr(st.new(r)), st
    return make


def vector(v, n, et, big=False):
    def make(ip, st):
        w = 8 if et == "unsigned long" else 1
        rid = ip.alloc("std::vector<%s>" % et, st)
        vec = st.w(rid)
        vec.n = n
        vec.data = st.new(Bytes(n * w))
        if n:
            ip.wr(Ptr(vec.data), n * w, rev(v, n) if big else v, st, None)
        return Ptr(rid), st
    return make


def word(v):
    return lambda ip, st: (v, st)


def text(v, n):
    def make(ip, st):
        return Str("hex", v, n), st
    return make


def ctors(p, cls, what):
    fs = [f for f in p.fn(EG + "%s::%s" % (cls, cls)) if f.get("ctor") and f["ps"] and what in f["ps"][0]["t"] and len(f["ps"]) > 1]
    if not fs:
        raise AnalysisBroken("%s has no constructor from %s" % (cls, what))
    return fs[0]


def makers(g, cls):
    """(name, function, parameter builders for a value, how the element is obtained, widths of the value in bytes) of the checked ways to an element."""
    p, n = g.p, wid(cls)
    c = cls[-1].lower()
    out = [("%s(array)" % cls, lambda: ctors(p, cls, "[%d]" % n), lambda v, w: [limbs(v, n)], "ctor", [8 * n]),
           ("%s(vector)" % cls, lambda: ctors(p, cls, "vector"), lambda v, w: [vector(v, w // 8, "unsigned long")], "ctor", [0, 8, 8 * n - 8, 8 * n]),
           ("bytes_to_%s(bytes, size)" % c, lambda: find(p, "bytes_to_" + c, types=["char *", "long", "bool"]), lambda v, w: [octets(v, w), word(num(w))], "ret",
            None),
           ("bytes_to_%s(vector)" % c, lambda: find(p, "bytes_to_" + c, types=["vector", "bool"]), lambda v, w: [vector(v, w, "unsigned char", True)], "ret", None),
           ("%s::fromUint64" % cls, lambda: find(p, cls + "::fromUint64"), lambda v, w: [word(v)], "ret", [8]),
           ("%s::fromHex" % cls, lambda: find(p, cls + "::fromHex"), lambda v, w: [text(v, w)], "ret", [1, 8 * n - 8, 8 * n])]
    return out


def build(ctx, g, cls, name, fn, params, how, v, flag, label):
    """Runs one way to make an element; yields the interpreter, the returning states with the value, and the throwing ones."""
    ip = g.ip()
    ip.models.update(hexmodels())
    st = St()
    vals = []
    for m in params:
        q, st = m(ip, st)
        vals.append(q)
    if flag is not None:
        vals.append(num(1 if flag else 0))
    ip.oob.clear()
    outs = []
    if how == "ctor":
        rid = ip.alloc(EG + cls, st, init=False)
        for x, _ in ip.call(fn, Ptr(rid), vals, st, None):
            outs.append((x, Ptr(rid)))
    elif how == "out":
        cell = st.new(Val(NULLP))
        for x, r in ip.call(fn, None, vals + [Ptr(cell)], st, None):
            h = x.mem[cell].v
            if isinstance(h, Ptr) and h != NULLP:
                outs.append((x, h))
            else:
                ip.throws.append((x, "error status", (fn, None)))
    else:
        outs = list(ip.call(fn, None, vals, st, None))
    g.seen(ip)
    for key, (f, line, t) in sorted(ip.oob.items(), key=str):
        if key[2]:
            ctx.bad("%s: memory is read and written inside its arrays" % label, ctx.loc(f, line) if f else ctx.loc(fn), t, key="%s oob %s" % (label, key[0]))
        else:
            ctx.undecide("%s: memory is read and written inside its arrays" % label, ctx.loc(fn), t)
    for w in sorted(ip.incomplete):
        ctx.undecide("%s: the remaining paths" % label, ctx.loc(fn), w)
    return ip, outs


@check("C24", "abstract interpretation of the number code with the given value as a symbol over its whole range",
       "every checked way to make an element returns only for values below the modulus, and fails only for the others.")
def c24(ctx):
    g = Group(ctx)
    for cls in ("ElementModP", "ElementModQ"):
        ms = makers(g, cls)
        n = wid(cls)
        c = cls[-1].lower()
        for nm, par in (("eg_element_mod_%s_new" % c, lambda v, w, n=n: [limbs(v, n)]), ("eg_element_mod_%s_from_hex" % c, lambda v, w: [text(v, w)])):
            fs = [f for f in ctx.p.fn(nm) if f.get("b") is not None]
            if fs:
                ms.append((nm, lambda fs=fs: fs[0], par, "out", [8 * n]))
        for name, fn, par, how, widths in ms:
            ctx.part(name, ranged, ctx, g, cls, name, fn, par, how, widths)
            if how != "out" and "array" not in name and "Uint" not in name:
                for w in ([8 * n + 8, 16 * n] if "(vector)" in name and "bytes" not in name else [8 * n + 1, 8 * n + 8, 16 * n]):
                    ctx.part("%s of %d bytes" % (name, w), too_long, ctx, g, cls, name, fn, par, how, w)
    ctx.part("call sites", unchecked_sites, ctx)


def ranged(ctx, g, cls, name, fn, par, how, widths):
    fn = fn()
    M, n = g.M[cls], wid(cls)
    w = (widths or [8 * n])[-1]
    v = sym("v", 0, (1 << (8 * w)) - 1)
    s = witness.bases([v])
    ip, outs = build(ctx, g, cls, name, fn, par(v, w), how, v, None if how == "out" else False, name)
    where = ctx.loc(fn)
    high = sym("v", M, (1 << (8 * w)) - 1) if (1 << (8 * w)) > M else None
    for i, (x, o) in enumerate(outs):
        lo, hi = x.bounds(v)
        what = "%s: accepts no value of the modulus or more" % name
        if hi < M:
            ctx.ok(what, where)
            continue
        if not known_all([K for K, _, _ in x.cons]):
            ctx.undecide(what, where, "not resolved")
            continue
        for lim, key in ((M + 1, "%s accepts more than the modulus" % name), (M, "%s accepts the modulus" % name)):
            env = witness.find(s, x, lambda env: True, extra=[(v, lim, lim if lim == M else (1 << (8 * w)) - 1)]) if lim < 1 << (8 * w) else None
            if env is not None:
                ctx.bad(key.replace("accepts", "rejects"), where, "returns an element for %s (modulus %s)" % (fmt(env), hexs(M)), key=key)
            elif hi >= lim and lim > M:
                ctx.ok(key.replace("accepts", "rejects"), where) if hi <= M else ctx.undecide(what, where, "no value found")
    for x, t, (f, line) in ip.throws:
        lo, hi = x.bounds(v)
        what = "%s: rejects no value below the modulus" % name
        if lo >= M:
            ctx.ok(what, where)
            continue
        env = witness.find(s, x, lambda env: True, extra=[(v, 0, M - 1)]) if known_all([K for K, _, _ in x.cons]) else None
        if env is not None:
            ctx.bad(what, ctx.loc(f, line) if f else where, "fails (%s) for %s" % (t, fmt(env)))
        else:
            ctx.undecide(what, where, "no value found for a failing path")
    if not outs:
        ctx.undecide(name, where, "no path returns")


def too_long(ctx, g, cls, name, fn, par, how, w):
    """More bytes than the element has: refused, whether or not the check of the value is asked for."""
    fn = fn()
    for flag in (False, True):
        lab = "%s of %d bytes%s" % (name, w, " unchecked" if flag else "")
        v = sym("v", 0, (1 << (8 * w)) - 1)
        ip, outs = build(ctx, g, cls, name, fn, par(v, w), how, v, flag, lab)
        for x, o in outs:
            if x.vague or not known_all([K for K, _, _ in x.cons]):
                ctx.undecide("%s: refused" % lab, ctx.loc(fn), "not resolved")
            else:
                env = witness.find(witness.bases([v]), x, lambda env: env and next(iter(env.values())) >> (64 * wid(cls)))
                if env:
                    ctx.bad("%s: refused" % lab, ctx.loc(fn), "an element of %d bytes is returned for %s" % (8 * wid(cls), fmt(env)), key="%s too long" % name)
        if not outs and ip.throws:
            ctx.ok("%s: refused" % lab, ctx.loc(fn))


def from_random(f, arg, walk):
    """The bytes are a local that the random generator filled."""
    ids = {x.get("id") for x in walk(arg) if x.get("k") == "ref" and x.get("dk") == "local"}
    rnd = lambda e: any(x.get("k") == "call" and "Random::" in (x.get("n") or "") for x in walk(e))
    return rnd(arg) or bool(ids) and all(any(x.get("k") == "decl" and any(v["id"] == i and v.get("i") is not None and rnd(v["i"]) for v in x["vars"]) for x in walk(f)) for i in ids)


def unchecked_sites(ctx):
    """Text is made into an element unchecked only where the caller asked for that."""
    from ..throws import walk
    n = 0
    for f in ctx.p.funcs.values():
        if f.get("b") is None or "/repo/" not in "/repo/" + rel(f["file"]) or not (rel(f["file"]).startswith("src/") or rel(f["file"]).startswith("include/")):
            continue
        asks = "unchecked" in f["n"].lower() or any("unchecked" in (q.get("n") or "") for q in f["ps"])
        for e in walk(f):
            if e.get("k") != "call" or e.get("n") not in (EG + "ElementModP::fromHex", EG + "ElementModQ::fromHex", EG + "bytes_to_p", EG + "bytes_to_q"):
                continue
            n += 1
            a = [q for q in e["a"] if q["k"] != "defarg"]
            last = a[-1] if a else None
            while last is not None and last["k"] == "cast":
                last = last["e"]
            const = last is not None and last["k"] == "bool" and last.get("v") in (True, "true", 1)
            if const and not asks and from_random(f, a[0], walk):
                continue        # bytes of the generator, not of a caller
            ctx.need(not const or asks, "text or bytes are made into an element with the range check", "%s:%s (%s)" % (rel(f["file"]), e.get("l"), f["n"]),
                     "the range check is switched off")
    ctx.tally("call sites of element conversions", n)


@check("C31", "abstract interpretation of the number code with the given value as a symbol",
       "an element made from limbs, bytes, text or another element has exactly that value; its bytes and comparisons are those of the value.")
def c31(ctx):
    g = Group(ctx)
    for cls in ("ElementModP", "ElementModQ"):
        n = wid(cls)
        full = (1 << (64 * n)) - 1
        for name, fn, par, how, widths in makers(g, cls):
            ctx.part(name, made, ctx, g, cls, name, fn, par, how, widths)
        ctx.part(cls + " copies", copies, ctx, g, cls, full)
        ctx.part(cls + " comparisons", comparisons, ctx, g, cls, full)


def made(ctx, g, cls, name, fn, par, how, widths):
    fn = fn()
    n = wid(cls)
    if widths is None:
        widths = range(1, 8 * n + 1) if cls == "ElementModQ" or ctx.tier == "thorough" else [1, 2, 7, 8, 9, 15, 16, 32, 33, 64, 255, 256, 503, 504, 505, 508, 511, 512]
    for w in widths:
        lab = name if len(widths) == 1 else "%s of %d bytes" % (name, w)
        v = sym("v", 0, (1 << (8 * w)) - 1) if w else ZERO
        s = witness.bases([v])
        ip, outs = build(ctx, g, cls, name, fn, par(v, w), how, v, True, lab)
        where = ctx.loc(fn)
        for x, t, (f, line) in ip.throws:
            env = witness.find(s, x, lambda env: True) if known_all([K for K, _, _ in x.cons]) else None
            if env is not None:
                ctx.bad("%s: gives an element" % lab, ctx.loc(f, line) if f else where, "fails (%s) for %s" % (t, fmt(env)), key=name + " fails")
            else:
                ctx.undecide("%s: gives an element" % lab, where, "a failing path")
        for x, o in outs:
            r, x2 = g.value(ip, cls, o, x)
            if zero(r - v, None, x2, {q: max(w, 1) for q in s}):
                ctx.ok("%s: the element has the value" % lab, where)
            else:
                judge(ctx, "%s: the element has the value" % lab, where, x2, s, r - v, None, r, name)
        if not outs and not ip.throws:
            ctx.undecide(lab, where, "no path returns")


def copies(ctx, g, cls, full):
    v = sym("v", 0, full)
    n = wid(cls)

    def same(ip, o, s):
        return g.value(ip, cls, o, s)
    run_op(ctx, g, find(ctx.p, cls + "::clone"), [(cls, v)], cls + "::clone", v, same, exact=True)

    def ref(ip, q, s):
        return ip.rd(q, 8 * n, s), s
    run_op(ctx, g, find(ctx.p, cls + "::ref"), [(cls, v)], cls + "::ref", v, ref, exact=True)

    def length(ip, q, s):
        return q, s
    run_op(ctx, g, find(ctx.p, cls + "::length"), [(cls, v)], cls + "::length", num(n), length, exact=True)

    def octs(ip, q, s):
        r = s.mem.get(q.rid) if isinstance(q, Ptr) else None
        if not isinstance(r, Vec) or r.n is None:
            raise AnalysisBroken("the bytes are not a vector of known size")
        if r.n != 8 * n:
            return unk("size") if r.n is None else num(r.n).scale(1 << 9000), s
        return rev(ip.rd(Ptr(r.data), r.n, s), r.n), s
    run_op(ctx, g, find(ctx.p, cls + "::toBytes"), [(cls, v)], cls + "::toBytes", v, octs, exact=True)
    if cls == "ElementModQ":
        run_op(ctx, g, find(ctx.p, cls + "::toElementModP"), [(cls, v)], cls + "::toElementModP", v, pval(g, "ElementModP"), exact=True)


def comparisons(ctx, g, cls, full):
    a, b = sym("a", 0, full), sym("b", 0, full)
    M = g.M[cls]

    def truth(name, spec, holds):
        """holds(env): what the result has to be."""
        fn = find(ctx.p, cls + "::" + name)
        ip = g.ip()
        st = St()
        vals = []
        for v in spec:
            o, st = g.elem(ip, cls, v, st)
            vals.append(o)
        ip.oob.clear()
        outs = ip.run(fn, vals[0], vals[1:], st)
        g.seen(ip)
        syms = witness.bases(spec)
        where = ctx.loc(fn)
        for s, r in outs:
            c = r.const() if isinstance(r, Poly) else None
            what = "%s::%s gives %s only when it is so" % (cls, name, {0: "false", 1: "true"}.get(c, "?"))
            if c is None or not known_all([K for K, _, _ in s.cons]):
                if not refuted(ctx, g, cls, name, fn, len(spec), holds):
                    ctx.undecide(what, where, "not resolved")
                continue
            env = witness.find(syms, s, lambda env: bool(c) != holds([witness.evalp(v, env) for v in spec]), tries=600)
            if env is not None:
                ctx.bad(what, where, "gives %s for %s" % (bool(c), fmt(env)))
            elif shown(s, spec, c, holds):
                ctx.ok(what, where)
            else:
                ctx.undecide(what, where, "neither shown nor refuted")
    for nm, h in (("operator==", lambda e: e[0] == e[1]), ("operator!=", lambda e: e[0] != e[1]), ("operator<", lambda e: e[0] < e[1])):
        ctx.part(cls + "::" + nm, truth, nm, [a, b], h)
    ctx.part(cls + "::isInBounds", truth, "isInBounds", [a], lambda e: 0 < e[0] < M)


def refuted(ctx, g, cls, name, fn, k, holds):
    """Constant operands for which the code is resolved, and gives the wrong answer."""
    n = wid(cls)
    x = sum((0x1122334455660000 + 0x1001 * i) << (64 * i) for i in range(n)) % g.M[cls]
    at = lambda i, v: x ^ v << (64 * i)
    pairs = [(x, x)] + [(x, at(i, v)) for i in (0, 1, n // 2, n - 2, n - 1) for v in (1, 1 << 40)]
    pairs += [(x, at(i, 5) ^ 5 << (64 * j)) for i, j in ((0, 1), (0, n - 1), (n // 2, n - 1))]
    for a, b in pairs + [(b, a) for a, b in pairs[1:]]:
        ip, st, vals = g.ip(), St(), []
        for v in (a, b)[:k]:
            o, st = g.elem(ip, cls, num(v), st)
            vals.append(o)
        outs = ip.run(fn, vals[0], vals[1:], st)
        if len(outs) != 1 or not isinstance(outs[0][1], Poly) or outs[0][1].const() is None or outs[0][0].vague:
            continue
        c = bool(outs[0][1].const())
        if c != holds([a, b][:k]):
            ctx.bad("%s::%s gives %s only when it is so" % (cls, name, str(c).lower()), ctx.loc(fn), "gives %s for operands %s" % (
                c, "that are equal" if a == b else "that differ in %s" % ", ".join("limb %d" % i for i in range(n) if (a ^ b) >> (64 * i) & (1 << 64) - 1)))
            return True
    return False


def shown(s, spec, c, holds):
    ps = witness.paths(s)
    if ps is None:
        return False
    for cons in ps:
        q = St()
        if all(q.add(*k) for k in cons) and not proved(q, spec, c, holds):
            return False
    return True


def proved(s, spec, c, holds):
    """The ranges on the path settle the relation between the operands."""
    if len(spec) == 1:
        lo, hi = s.bounds(spec[0])
        # the set where the relation holds is an interval: test the ends
        if bool(c):
            return holds([lo]) and holds([hi])
        return not holds([lo]) and not holds([hi]) and (lo == hi or lo > 0)
    d = spec[0] - spec[1]
    lo, hi = s.bounds(d)
    if lo == hi == 0:
        return bool(c) == holds([0, 0])
    # slices that are equal add up to the whole value
    tot = ZERO
    differ = False
    for K, l, h in s.cons:
        ks = [x for x in K.atoms() if x.kind == "part"]
        if l > 0 or h < 0:
            if ks and len({(x.a[1], x.a[2]) for x in ks}) == 1 and {x.a[0] for x in ks} == set(spec):
                differ = True
        if l == h == 0 and ks and len({(x.a[1], x.a[2]) for x in ks}) == 1:
            f = 1
            m = next(m for m, cc in K.d.items() if m == ((ks[0], 1),))
            sign = K.d[m] if ks[0].a[0] == spec[0] else -K.d[m]
            tot = tot + K.scale(sign).scale(1 << (8 * ks[0].a[1]))
    if tot.d:
        pos = Poly({m: cc for m, cc in tot.d.items() if cc > 0})
        neg = Poly({m: -cc for m, cc in tot.d.items() if cc < 0})
        if join(pos) == spec[0] and join(neg) == spec[1]:
            lo = hi = 0
            return bool(c) == holds([0, 0])
    if hi < 0:
        return bool(c) == holds([0, 1])
    if lo > 0:
        return bool(c) == holds([1, 0])
    if lo >= 0:
        return bool(c) == holds([1, 0]) == holds([0, 0])
    if hi <= 0:
        return bool(c) == holds([0, 1]) == holds([0, 0])
    if differ:
        return bool(c) == holds([1, 0]) == holds([0, 1])
    return False


# ------------------------------------------------------------------ C32
@check("C32", "abstract interpretation of key generation and decryption over integer polynomials in pad, data and secret",
       "on every path the value returned is the one the quotient data / pad^secret prescribes: 0 for 1, 1 for g, no result otherwise.")
def c32(ctx):
    g = Group(ctx)
    ctx.part("decrypt", decryption, ctx, g)
    ctx.part("fromSecret", keypair, ctx, g)


def decryption(ctx, g):
    EP, EQ, EC = "ElementModP", "ElementModQ", "ElGamalCiphertext"
    P, Q = g.P, g.Q
    G = g.const("G", EP)
    x, y, a = sym("pad", 0, (1 << 4096) - 1), sym("data", 0, P - 1), sym("secret", 0, Q - 1)
    X, Y, A = (q.single() for q in (x, y, a))
    fn = find(ctx.p, EC + "::decrypt", types=[EQ])
    where = ctx.loc(fn)
    ip, st = g.ip(), St()
    px, st = g.elem(ip, EP, x, st)
    py, st = g.elem(ip, EP, y, st)
    ps, st = g.elem(ip, EQ, a, st)
    ctor = [f for f in ctx.p.fn(EG + EC + "::" + EC) if f.get("ctor") and len(f["ps"]) == 2]
    if not ctor:
        raise AnalysisBroken("ElGamalCiphertext has no constructor from pad and data")
    rid = ip.alloc(EG + EC, st, init=False)
    (st, _), = ip.call(ctor[0], Ptr(rid), [px, py], st, None)
    outs = ip.run(fn, Ptr(rid), [ps], st)
    g.seen(ip)
    NONE = (1 << 64) - 1
    cache = {}

    def want(env):
        p, d, s = env[X], env[Y], env[A]
        if p >= P:
            return NONE
        if (p, s) not in cache:
            cache[p, s] = pow(pow(p, s, P), P - 2, P)
        v = d * cache[p, s] % P
        return 0 if v == 1 else 1 if v == G else NONE
    tries, memos = [], {}
    for s in (2, 0x1234567, Q - 1, Q // 3):
        for r in (1, 3, Q // 7):
            pad = pow(G, r, P)
            for m in (1, G, G * G % P, 2, 0, pow(G, Q - 1, P)):
                tries.append({X: pad, A: s, Y: pow(pad, s, P) * m % P})
        for m in (0, 1, G):
            tries += [{X: v, A: s, Y: m} for v in (0, P, P + 2, (1 << 4096) - 1, 1, P - 1)]
    D = mod(P, power(x, a.scale(P - 2)) * y)
    for w in sorted(ip.incomplete):
        ctx.undecide("decrypt: the remaining paths", where, w)
    for s, t, (f, line) in ip.throws:
        env = follow(s, tries, memos=memos)
        if env is not None and want(env) != NONE:
            ctx.bad("decrypt: gives a result", ctx.loc(f, line) if f else where, "throws %s for %s" % (t, fmt(env)))
    for i, (s, v) in enumerate(outs):
        what = "decrypt: 0 exactly for a quotient of 1, 1 exactly for g, no result otherwise [path %d of %d]" % (i + 1, len(outs))
        c = v.const() if isinstance(v, Poly) else None
        out, (dl, dh) = s.bounds(x)[0] >= P, s.bounds(D)
        if dl == dh:
            w = 0 if dl == 1 else 1 if dl == G else NONE
        else:
            w = None
        if out:
            w = NONE
        pz = s.bounds(mod(P, power(x, a)))
        if w is None and pz == (0, 0):
            w = NONE
        if c is not None and w is not None and c == w:
            ctx.ok(what, where)
            continue
        if c == NONE and w is None and excludes(s, D, 1) and excludes(s, D, G):
            ctx.ok(what, where)
            continue
        env = follow(s, tries, lambda e: c is not None and want(e) != c, memos)
        if env is not None:
            ctx.bad(what, where, "returns %d where %s is right, for %s" % (c, "no result" if want(env) == NONE else want(env), fmt(env)), key="decrypt")
        else:
            ctx.undecide(what, where, "returns %r" % (v,))
    ctx.tally("paths", len(outs))


def excludes(s, D, k):
    """The path has decided that D is not k."""
    t = s.fork()
    return not t.add(D - num(k), 0, 0) or not possible((t.cons, t.dis), D, k, t)


def possible(alt, D, k, t):
    cs, nested = alt
    return all(K_in(K, D, k, l, h, t) for K, l, h in cs) and all(any(possible(q, D, k, t) for q in alts) for alts in nested)


def K_in(K, D, k, l, h, t):
    x = D.single()
    v = subst(K, lambda q: num(k) if q is x else None)
    a, b = t.bounds(v)
    return not (b < l or a > h)


def follow(s, tries, pred=lambda e: True, memos=None):
    """Operands of the list that follow the path."""
    def holds(alt, env):
        return all(l <= witness.evalp(K, env) <= h for K, l, h in alt[0]) and all(any(holds(q, env) for q in alts) for alts in alt[1])
    for env in tries:
        memo = memos.setdefault(id(env), witness.Memo(env)) if memos is not None else witness.Memo(env)
        try:
            if holds((s.cons, s.dis), memo) and pred(env):
                return env
        except witness.NoValue:
            continue
    return None


def keypair(ctx, g):
    EP, EQ, KP = "ElementModP", "ElementModQ", "ElGamalKeyPair"
    fn = find(ctx.p, KP + "::fromSecret")
    where = ctx.loc(fn)
    Q, P = g.Q, g.P
    a = sym("secret", 0, Q - 1)
    gs = sym("g", 2, P - 1)

    ip, st = g.ip(), St()

    def asg(ip, e, st):
        f = find(ctx.p, "G", n=0)
        for y, o in ip.call(f, None, [], st, e):
            (z, q), = ip.call(find(ctx.p, EP + "::get", n=0), o, [], y, e)
            ip.wr(q, 8 * PN, gs, z, e)
            yield z, o
    ip.models.update({EG + "G": asg})
    pa_, st = g.elem(ip, EQ, a, st)
    outs = ip.run(fn, None, [pa_, ONE], st)
    g.seen(ip)
    A = a.single()
    tries = [{A: v, gs.single(): g.const("G", EP)} for v in (0, 1, 2, 3, 255, 256, 1 << 64, Q - 1, Q // 2)]
    for w in sorted(ip.incomplete):
        ctx.undecide("fromSecret: the remaining paths", where, w)
    for s, t, (f, line) in ip.throws:
        l, h = s.bounds(a)
        what = "fromSecret: a secret in [2, Q) is accepted"
        if h < 2:
            ctx.ok(what, where)
            continue
        env = follow(s, tries, lambda e: e[A] >= 2)
        if env is not None:
            ctx.bad(what, ctx.loc(f, line) if f else where, "throws for %s" % fmt({A: env[A]}))
        else:
            ctx.undecide(what, where, "throws %s" % t)
    for i, (s, v) in enumerate(outs):
        tag = " [path %d of %d]" % (i + 1, len(outs))
        l, h = s.bounds(a)
        what = "fromSecret: a secret below 2 is refused" + tag
        if l >= 2:
            ctx.ok(what, where)
        else:
            env = follow(s, tries, lambda e: e[A] < 2)
            if env is not None:
                ctx.bad(what, where, "returns a key pair for %s" % fmt({A: env[A]}))
            else:
                ctx.undecide(what, where, "secret in [%s, %s]" % (hexs(l), hexs(h)))
        (s, sk), = ip.call(find(ctx.p, KP + "::getSecretKey", n=0), v, [], s, None)
        (s, pk), = ip.call(find(ctx.p, KP + "::getPublicKey", n=0), v, [], s, None)
        sv, s = g.value(ip, EQ, sk, s)
        pv, s = g.value(ip, EP, pk, s)
        for nm, got, w, M in (("the secret key is the secret given", sv, a, None), ("the public key is g^secret mod P", pv, power(gs, a), P)):
            if zero(got - w, M, s, {A: 32}):
                ctx.ok("fromSecret: " + nm + tag, where)
            else:
                judge(ctx, "fromSecret: " + nm + tag, where, s, [A, gs.single()], got - w, M, got, "fromSecret " + nm)
    ctx.tally("paths", len(outs))
