"""The precompute buffer: what goes in is fresh and made for the key, what comes out is gone."""
from ..alg import *
from ..api import *
from ..check import check, unresolved
from ..terms import *
from .r_proofs import gp, pw, mul

CTX = "PrecomputeBufferContext"
BUNDLE = "TwoTriplesAndAQuadruple"


def queues(S):
    """final state of every field of the static context object"""
    out = {}
    for k, v in S.items():
        s = show(k)
        if "instance" in s and "." in s:
            out[k] = v
    return out


def split(t, c=TRUE):
    """(condition, leaf) of a nested choice"""
    if t is not None and t.op == "ite":
        yield from split(t.a[1], conj(c, t.a[0]))
        yield from split(t.a[2], conj(c, neg(t.a[0])))
    else:
        yield c, t


def fronts(t):
    return [q for q in subterms(t) if q.op == "app" and str(q.a[0]).rsplit("::", 1)[-1] in ("front", "back", "top", "at", "elem")
            or q.op == "front"]


def items(t, c=TRUE, inloop=False):
    """elements appended by a sequence term: (element, condition, made in a loop)"""
    if t.op == "seq":
        for x in t.a:
            yield from items(x, c, inloop)
    elif t.op == "one":
        yield t.a[0], c, inloop
    elif t.op == "when":
        yield from items(t.a[1], conj(c, t.a[0]), inloop)
    elif t.op == "each":
        yield from items(t.a[2], c, t.a[0])
    elif t.op == "ite":
        yield from items(t.a[1], conj(c, t.a[0]), inloop)
        yield from items(t.a[2], conj(c, neg(t.a[0])), inloop)


@check("C29", "gated value numbering of the precompute buffer's operations over the symbolic content of its queues",
       "taking a value returns the front of the queue and leaves the queue without it; every value put in is built in that "
       "iteration from random exponents of its own, as powers of the generator and of the given key.")
def c29(ctx):
    ctx.part("taking", taking, ctx)
    ctx.part("filling", filling, ctx)
    ctx.part("single values", single, ctx)
    ctx.part("emptying", emptying, ctx)
    ctx.part("limits", limits, ctx)


def taking(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=[])
    used = {}
    for n in ("getTriple", "get" + BUNDLE):
        fn = find(p, CTX + "::" + n)
        r = E.run(fn)
        S = r.st.S
        got = False
        for c, leaf in split(r.ret):
            if leaf is NULL or leaf.op in ("null",):
                ctx.need(not fronts(c) or True, "%s: no value, no change" % n, ctx.loc(fn))
                for k, v in S.items():
                    w = dict((x, y) for x, y in split(v)).get(c)
                    if w is not None and w is not k and w.op == "app" and "pop" in str(w.a[0]):
                        ctx.bad("%s: a value leaves the queue only when it is handed out" % n, ctx.loc(fn), show(w)[:200],
                                "C29:lost:" + n)
                continue
            fs = fronts(leaf)
            if not fs:
                ctx.undecide("%s: the value handed out" % n, ctx.loc(fn), show(leaf)[:200])
                continue
            got = True
            q = fs[0].a[-1] if fs[0].op == "app" else fs[0].a[0]
            base = q
            while base.op == "app" and str(base.a[0]).startswith("after:"):
                base = base.a[1]
            st = S.get(base, base)
            vals = [v for c2, v in split(st) if conj(c, c2) is not FALSE]
            for v in vals:
                if v.op == "app" and str(v.a[0]).startswith("after:") and "pop" in str(v.a[0]) and v.a[1] is q:
                    ctx.ok("%s: the value handed out has left the queue" % n, ctx.loc(fn))
                elif v is q or v is base or v.op == "app" and str(v.a[0]).startswith("after:") and v.a[1] is not q:
                    ctx.bad("%s: the value handed out has left the queue" % n, ctx.loc(fn),
                            "it returns %s and leaves %s: the next caller gets the same nonce" % (
                                short_q(fs[0]), short_q(v)), "C29:again:" + n)
                else:
                    ctx.undecide("%s: the value handed out has left the queue" % n, ctx.loc(fn), short_q(v))
            used.setdefault(base, []).append(n)
        if not got:
            ctx.undecide(n, ctx.loc(fn), "no path hands out a value: " + show(r.ret)[:200])
    for q, ns in used.items():
        ctx.need(len(ns) == 1, "each queue serves one operation: %s" % short_q(q), "", "%s" % ns)


def short_q(t):
    import re
    return re.sub(r"glob\([^)]*\)\.", "", show(t))[:160]


def exps(o):
    """random exponents of a value made for the buffer, with the powers that go with them"""
    f = dict(zip(o.a[1::2], o.a[2::2]))
    cls = o.a[0].split("::")[-1]
    return cls, f


def judge(ctx, E, o, K, loop, what, where, seen):
    C = Canon()
    cls = o.a[0].split("::")[-1]

    def fresh(x, name):
        x = C(x)
        ok = x.op == "app" and x.a[0] == EG + "rand_q"
        ctx.need(ok, "%s: %s is drawn at random" % (what, name), where, show(x)[:200], about=[x])
        if not ok:
            return
        ctx.need(x not in seen, "%s: %s is drawn for itself" % (what, name), where, "the same draw as %s" % seen.get(x))
        seen[x] = "%s of %s" % (name, what)
        if loop is not False:
            ctx.need(has(x, T("bv", loop)), "%s: %s is drawn anew for every value" % (what, name), where,
                     "drawn once, before the loop that fills the queue")

    def eq(a, b, name):
        ctx.need(C(T("eq", a, b)) is TRUE, "%s: %s" % (what, name), where, show(C(a))[:200], about=[a])
    if cls == "Triple":
        e = E.get(cls, "get_exp", o)
        fresh(e, "exponent")
        eq(E.get(cls, "get_g_to_exp", o), gp(e), "second part is g^exponent")
        eq(E.get(cls, "get_pubkey_to_exp", o), pw(K, e), "third part is K^exponent")
    elif cls == "Quadruple":
        e1, e2 = E.get(cls, "get_exp1", o), E.get(cls, "get_exp2", o)
        fresh(e1, "first exponent")
        fresh(e2, "second exponent")
        eq(E.get(cls, "get_g_to_exp1", o), gp(e1), "third part is g^exponent1")
        eq(E.get(cls, "get_g_to_exp2_mult_by_pubkey_to_exp1", o), mul(gp(e2), pw(K, e1)), "fourth part is g^exponent2 K^exponent1")
    elif cls == BUNDLE:
        for g in ("get_triple1", "get_triple2", "get_quad"):
            x = E.get(cls, g, o)
            if x.op == "new":
                judge(ctx, E, x, K, loop, what + "." + g[4:], where, seen)
            else:
                ctx.undecide(what + "." + g, where, show(x)[:200])
    else:
        ctx.undecide(what, where, "unknown kind of precomputed value " + cls)


def has(t, x):
    return any(q is x for q in subterms(t))


def filling(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=[])
    K = sym("K")
    fn = find(p, CTX + "::populate")
    r = E.run(fn, args=[K])
    seen = {}
    n = 0
    for k, v in queues(r.st.S).items():
        for _, leaf in split(v):
            for o, c, loop in items(leaf):
                if o.op != "new":
                    if o.op in ("elem",) or o is k:
                        continue
                    if fronts(o) and not unresolved(o):
                        ctx.bad("what populate puts into %s is made for it" % short_q(k), ctx.loc(fn), "it puts in %s, which is in a queue already" % short_q(o))
                        continue
                    ctx.undecide("what populate puts into %s" % short_q(k), ctx.loc(fn), show(o)[:200])
                    continue
                n += 1
                judge(ctx, E, o, K, loop, "populate, %s #%d" % (short_q(k), n), ctx.loc(fn), seen)
        for q in subterms(v):
            if q.op == "app" and "clone" in str(q.a[0]):
                ctx.undecide("what populate puts into %s" % short_q(k), ctx.loc(fn), show(q)[:200])
    ctx.need(n > 0, "populate puts values into the queues", ctx.loc(fn), "none found") if n else ctx.undecide(
        "populate", ctx.loc(fn), "nothing it puts into a queue was resolved")
    ctx.tally("values put into the queues", n)


def single(ctx):
    """the public constructors that make values for a key"""
    p = ctx.p
    E = Engine(ctx, opaque=[])
    K = sym("K")
    for cls in ("Triple", "Quadruple"):
        fn = find(p, "%s::%s" % (cls, cls), ["ElementModP"])
        o = E.make(cls, ["ElementModP"], [K])
        judge(ctx, E, o, K, False, "%s(key)" % cls, ctx.loc(fn), {})


def emptying(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=[])
    fn = find(p, CTX + "::empty_queues")
    r = E.run(fn)
    # both queues are touched
    qs = {q for n in ("getTriple", "get" + BUNDLE) for f in fronts(E.run(find(p, CTX + "::" + n)).ret)
          for q in [f.a[-1]] if q.op != "app"}
    for q in qs:
        v = r.st.S.get(q, q)
        left = rest(v, q)
        if left:
            ctx.bad("empty_queues empties %s" % short_q(q), ctx.loc(fn), left, "C29:kept:" + short_q(q))
        elif v is q:
            ctx.bad("empty_queues empties %s" % short_q(q), ctx.loc(fn), "it leaves the queue as it was", "C29:kept:" + short_q(q))
        else:
            ctx.ok("empty_queues empties %s" % short_q(q), ctx.loc(fn))


def rest(v, q):
    """A loop that takes a counted number of values out: what is wrong with the number."""
    if not (v.op == "app" and v.a[0] == "loop" and len(v.a) == 6 and v.a[3] is q and v.a[5] is FALSE and v.a[2].op == "app"
            and v.a[4].op == "app" and "pop" in str(v.a[4].a[0])):
        return None
    c = v.a[2]
    if c.a[0] == "range":
        n = c.a[1]
    elif c.a[0] == "range2" and c.a[1] is num(0):
        n = c.a[2]
    elif c.a[0] == "range2" and c.a[1].op == "int" and c.a[1].a[0] > 0 and bare(c.a[2], q):
        n = None
    else:
        return None
    if n is not None and (bare(n, q) or unresolved(n)):
        return None
    return "it takes %s values out" % short_q(c)


def bare(n, q):
    while n.op == "app" and str(n.a[0]).startswith("trunc"):
        n = n.a[1]
    return n is app("size", q)


def limits(ctx):
    """What init, stop_populate and the sizes say of the buffer."""
    p = ctx.p
    E = Engine(ctx, opaque=[])
    n = sym("n")
    init = find(p, CTX + "::init")
    r = E.run(init, args=[n])
    g = find(p, CTX + "::get_max_queue_size")
    m = E.run(g, S=dict(r.st.S)).ret
    for zero in (False, True):
        x = m
        for c in [q for q in subterms(m) if q.op == "eq" and n in q.a and num(0) in q.a]:
            x = subst(x, {c: boolean(zero), neg(c): boolean(not zero)})
        if zero:
            ctx.need(x.op == "int" and x.a[0] > 0, "init(0) sets a limit above zero", ctx.loc(init), "the limit is %s" % show(x)[:120], about=[x])
        else:
            ctx.need(x is n, "init(n) sets the limit n", ctx.loc(init), "the limit is %s" % show(x)[:120], about=[x])
    stop, pop = find(p, CTX + "::stop_populate"), find(p, CTX + "::populate")
    s = E.run(stop)
    before = dict(s.st.S)
    after = E.run(pop, args=[sym("K")], S=dict(before))
    for k, v in queues(after.st.S).items():
        if v is before.get(k, k):
            continue
        for _, leaf in split(v):
            for o, c, loop in items(leaf):
                ctx.need(False, "populate adds nothing once stopped", ctx.loc(pop), "it adds to %s when %s" % (short_q(k), short_q(c)), about=[c])
    ctx.ok("populate adds nothing once stopped: every queue looked at", ctx.loc(pop))
    size = E.run(find(p, CTX + "::get_current_queue_size")).ret
    take = fronts(E.run(find(p, CTX + "::get" + BUNDLE)).ret)
    q = take[0].a[-1] if take and take[0].op == "app" else None
    if q is not None:
        z = size
        while z.op == "app" and str(z.a[0]).startswith("trunc"):
            z = z.a[1]
        ctx.need(z is app("size", q), "get_current_queue_size counts what get%s takes" % BUNDLE, ctx.loc(find(p, CTX + "::get_current_queue_size")),
                 "it is %s" % short_q(size), about=[size])
