"""The linked list of the C interface: each operation, on every list it can meet, has the effect of its name."""
from ..check import check, unresolved
from ..api import *
from ..terms import *
from .. import domain
from .r_json import cut, rebuild

L = "eg_linked_list_"
H = sym("handle")


def fld(o, n):
    c = "eg_linked_list_s::" if n in ("head", "tail", "count") else "eg_linked_list_node_t::"
    return T("fld", o, c + n)


HEAD, TAIL, COUNT = fld(H, "head"), fld(H, "tail"), fld(H, "count")


def run(ctx, op, opaque=()):
    fs = [f for f in ctx.p.funcs.values() if f["n"] == L + op and f.get("b") is not None]
    if len(fs) != 1:
        return None
    f = fs[0]
    ip = domain.make(ctx.p, opaque=list(opaque))
    args = [H] + [sym("a%d" % i) for i in range(1, len(f["ps"]))]
    r = ip.run(f, args=args)
    ctx.saw(ip)
    ctx.tally("value-numbering steps", ip.steps)
    return f, ip, r


def roles(p):
    have = {f["n"] for r in p.records.values() for f in r.get("fields", ())}
    return all(fld(H, n).a[1] in have for n in ("head", "tail", "count", "next", "previous", "key", "value"))


def facts(shape):
    """What holds of a list: empty, of one node, of more."""
    m = {}

    def know(c, v):
        m[c] = boolean(v)
        m[neg(c)] = boolean(not v)
    know(T("nonnull", H), True)
    know(T("nonnull", HEAD), shape > 0)
    know(T("nonnull", TAIL), shape > 0)
    if shape == 0:
        m[HEAD] = m[TAIL] = NULL
        m[COUNT] = num(0)
    else:
        prev = fld(TAIL, "previous")
        know(T("nonnull", prev), shape > 1)
        m[fld(TAIL, "next")] = NULL
        if shape == 1:
            m[prev] = NULL
            m[HEAD] = TAIL
            m[COUNT] = num(1)
        for a, b in ((HEAD, TAIL), (TAIL, HEAD)):
            know(T("eq", a, b), shape == 1)
    return m


SHAPES = ((0, "an empty list"), (1, "a list of one"), (2, "a list of more"))


def under(t, m):
    for _ in range(4):
        u = cut(t, m, {})
        u = settle(u)
        if u is t:
            return t
        t = u
    return t


def settle(t):
    """Null tests and comparisons of what is now known."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        y = x if not x.a else rebuild(x, [go(q) if isinstance(q, T) else q for q in x.a])
        if y.op == "nonnull" and y.a[0] is NULL:
            y = FALSE
        elif y.op == "nonnull" and y.a[0].op == "app" and y.a[0].a[0] in ("malloc", "calloc", "heap"):
            y = TRUE            # running out of memory aside
        elif y.op == "app" and len(y.a) == 3 and all(q.op == "int" for q in y.a[1:]) and y.a[0] in ("+", "-"):
            y = num(y.a[1].a[0] + (1 if y.a[0] == "+" else -1) * y.a[2].a[0])
        elif y.op == "fld" and y.a[0].op == "app" and y.a[0].a[0] == "calloc":
            y = num(0) if y.a[1].endswith("count") else NULL
        elif y.op == "eq" and y.a[0] is y.a[1]:
            y = TRUE
        memo[x] = y
        return y
    return go(t)


def effect(r, m):
    """(result, stores) on the lists m describes, or None."""
    out = []
    for pc, v, st, ln in r.rets:
        c = under(pc, m)
        if c is FALSE:
            continue
        out.append((c, under(v, m) if v is not None else None,
                    {k: under(x, m) for k, x in st.S.items() if k.op != "var"}, ln))
    return out


def after(outs, m, loc, default):
    v = outs[2].get(loc)
    if v is None:
        for k, x in outs[2].items():       # the same place by another name
            if under(k, m) is loc:
                v = x
    return default if v is None else v


def lists(ctx):
    if not roles(ctx.p):
        ctx.undecide("linked lists", "", "the list is not the doubly linked one these rules describe")
        return
    ctx.part("append", append_, ctx)
    ctx.part("delete_last", delete_last, ctx)
    ctx.part("lookup", lookup, ctx)
    ctx.part("new", new, ctx)
    ctx.part("free", free, ctx)


def store(ctx, f, ln, what, got, want):
    ctx.need(got is want, what, ctx.loc(f, ln), "it is %s, should be %s" % (show(got)[:160], show(want)[:100]), about=[got])


def append_(ctx):
    x = run(ctx, "append")
    if x is None:
        return ctx.undecide("append", "", "not found")
    f, ip, r = x
    for k, what in SHAPES:
        m = facts(k)
        outs = effect(r, m)
        good = [o for o in outs if o[1] is not None and o[1] is num(0)]
        if len(good) != 1 or len(outs) != 1 or good[0][0] is not TRUE:
            ctx.need(False, "append to %s succeeds" % what, ctx.loc(f), "; ".join("%s when %s" % (show(o[1]) if o[1] is not None else "nothing", show(o[0])[:120]) for o in outs),
                     about=[o[0] for o in outs])
            continue
        o = good[0]
        ln = o[3]
        old = {TAIL: NULL if k == 0 else TAIL, HEAD: NULL if k == 0 else TAIL if k == 1 else HEAD, COUNT: num(0) if k == 0 else num(1) if k == 1 else COUNT}
        n = after(o, m, TAIL, old[TAIL])
        ctx.need(n.op == "app" and n.a[0] in ("malloc", "calloc", "heap"), "append to %s: the last node is a new one" % what, ctx.loc(f, ln), "it is %s" % show(n)[:100], about=[n])
        if not (n.op == "app" and n.a[0] in ("malloc", "calloc", "heap")):
            continue
        zero = NULL if n.a[0] == "calloc" else unk("left as malloc returned it")
        store(ctx, f, ln, "append to %s: the first node" % what, after(o, m, HEAD, old[HEAD]), n if k == 0 else old[HEAD])
        c = after(o, m, COUNT, old[COUNT])
        want = num(k + 1) if k < 2 else None
        ok = c is want if k < 2 else c.op == "app" and c.a[0] == "+" and set(c.a[1:]) == {COUNT, num(1)}
        ctx.need(ok, "append to %s: one more is counted" % what, ctx.loc(f, ln), "the count becomes %s" % show(c)[:100], about=[c])
        for nm, w in (("previous", old[TAIL]), ("next", NULL)):
            got = after(o, m, fld(n, nm), zero)
            ctx.need(got is w, "append to %s: %s of the new node" % (what, nm), ctx.loc(f, ln), "it is %s, should be %s" % (show(got)[:100], show(w)[:60]),
                     about=[got] if got.op != "unk" else [])
        if k:
            store(ctx, f, ln, "append to %s: the old last node leads to the new one" % what, after(o, m, fld(TAIL, "next"), NULL), n)
        for nm, a in (("key", sym("a1")), ("value", sym("a2"))):
            got = after(o, m, fld(n, nm), unk("left as malloc returned it"))
            ok = got.op == "app" and got.a[0] == "heap" and got.a[-1] is a
            ctx.need(ok, "append to %s: %s is a copy of what was given" % (what, nm), ctx.loc(f, ln), "it is %s" % show(got)[:120], about=[got] if got.op != "unk" else [])
        known = {TAIL, HEAD, COUNT, fld(TAIL, "next")} | {fld(n, z) for z in ("key", "value", "next", "previous")}
        for kk, v in o[2].items():
            if kk not in known and under(kk, m) not in known and v is not kk and v is not under(kk, m):
                ctx.need(False, "append to %s changes nothing else" % what, ctx.loc(f, ln), "%s becomes %s" % (show(kk)[:80], show(v)[:80]), about=[kk, v])


def delete_last(ctx):
    x = run(ctx, "delete_last")
    if x is None:
        return ctx.undecide("delete_last", "", "not found")
    f, ip, r = x
    for k, what in SHAPES:
        m = facts(k)
        outs = effect(r, m)
        if len(outs) != 1 or outs[0][0] is not TRUE:
            ctx.need(False, "delete_last of %s returns" % what, ctx.loc(f), "; ".join(show(o[0])[:120] for o in outs), about=[o[0] for o in outs])
            continue
        o = outs[0]
        ln = o[3]
        ctx.need(o[1] is num(0), "delete_last of %s succeeds" % what, ctx.loc(f, ln), "it returns %s" % show(o[1]), about=[o[1]])
        freed = [under(cut(e.t, {}, {}), m).a[1] for e in ip.trace if e.t.op == "app" and e.t.a[0] == "free" and under(e.pc, m) is TRUE]
        maybe = [e for e in ip.trace if e.t.op == "app" and e.t.a[0] == "free" and under(e.pc, m) not in (TRUE, FALSE)]
        if maybe:
            ctx.undecide("delete_last of %s: what is released" % what, ctx.loc(f), "under a condition")
        prev = fld(TAIL, "previous")
        if k == 0:
            want = {TAIL: NULL, HEAD: NULL, COUNT: num(0)}
            wfree = []
        else:
            want = {TAIL: NULL if k == 1 else prev, HEAD: NULL if k == 1 else HEAD, COUNT: num(0) if k == 1 else None}
            wfree = [fld(TAIL, "key"), fld(TAIL, "value"), TAIL]
            if k == 2:
                want[fld(prev, "next")] = NULL
        start = {TAIL: NULL if k == 0 else TAIL, HEAD: NULL if k == 0 else TAIL if k == 1 else HEAD, COUNT: num(min(k, 1)) if k < 2 else COUNT,
                 fld(prev, "next"): TAIL}
        for loc, w in want.items():
            got = after(o, m, loc, start[loc])
            if w is None:
                ok = got.op == "app" and (got.a[0] == "-" and got.a[1:] == (COUNT, num(1)) or got.a[0] == "+" and set(got.a[1:]) == {COUNT, num(-1)})
                ctx.need(ok, "delete_last of %s: one fewer is counted" % what, ctx.loc(f, ln), "the count becomes %s" % show(got)[:100], about=[got])
            else:
                store(ctx, f, ln, "delete_last of %s: %s" % (what, show(loc)), got, w)
        for w in wfree:
            n = sum(q is w for q in freed)
            ctx.need(n == 1 or maybe, "delete_last of %s releases %s once" % (what, show(w)), ctx.loc(f), "%d times" % n, about=freed)
        for q in freed:
            ctx.need(q in wfree, "delete_last of %s releases nothing else" % what, ctx.loc(f), "%s is released" % show(q)[:80], about=[q])


def steps(t):
    """How often t follows `next` from the first node, or None."""
    if t is HEAD:
        return num(0)
    if t.op == "app" and t.a[0] == "loop" and len(t.a) == 6 and t.a[3] is HEAD and t.a[5] is FALSE and t.a[2].op == "app":
        b = t.a[4]
        if b.op == "fld" and b.a[1].endswith("::next") and b.a[0].op == "bv":
            c = t.a[2]
            if c.a[0] == "range" and len(c.a) == 2:
                return c.a[1]
            if c.a[0] == "range2":
                lo, hi = c.a[1], c.a[2]
                if lo is num(0):
                    return hi
                if lo.op == "int" and hi.op == "int":
                    return num(max(0, hi.a[0] - lo.a[0]))
                if hi.op == "app" and hi.a[0] == "+" and lo in hi.a[1:]:
                    rest = [q for q in hi.a[1:] if q is not lo]
                    return rest[0] if len(rest) == 1 else None
                return app("-", hi, lo)
    return None


def lookup(ctx):
    x = run(ctx, "get_count")
    if x is not None:
        f, ip, r = x
        ctx.need(r.ret is COUNT, "get_count is the count", ctx.loc(f), "it is %s" % show(r.ret)[:100], about=[r.ret])
    for op in ("get_element_at", "get_value_at"):
        x = run(ctx, op)
        if x is None:
            ctx.undecide(op, "", "not found")
            continue
        f, ip, r = x
        pos = sym("a1")
        outs = [(sym("a2"), "key"), (sym("a3"), "value")] if op == "get_element_at" else [(sym("a2"), "value")]
        inside = lessthan(ip, pos, COUNT)
        for k in (True, False):
            m = {}
            for c, v in ((inside, k), (T("eq", num(0), COUNT), False if k else None), (T("eq", COUNT, num(0)), False if k else None), (T("nonnull", H), True)):
                if v is not None:
                    m[c] = boolean(v)
                    m[neg(c)] = boolean(not v)
            for pc, v, st, ln in r.rets:
                c = under(pc, m)
                if c is FALSE:
                    continue
                if not k:
                    ctx.need(v is not None and v is not num(0), "%s refuses a position past the end" % op, ctx.loc(f, ln), "it succeeds when %s" % show(c)[:120], about=[c, v])
                    continue
                nodes = [q.a[0] for q in conjuncts(c) if q.op == "nonnull"]
                nulls = [q.a[0].a[0] for q in conjuncts(c) if q.op == "not" and q.a[0].op == "nonnull"]
                if any(steps(q) is pos for q in nulls):
                    continue                # there is a node at every position below the count
                if v is num(0):
                    for a, nm in outs:
                        got = st.S.get(T("deref", a))
                        n = steps(got.a[0]) if got is not None and got.op == "fld" else None
                        if n is not None and not got.a[1].endswith("::" + nm):
                            ctx.need(False, "%s hands out the %s" % (op, nm), ctx.loc(f, ln), "it is the %s of the node" % got.a[1].split("::")[-1])
                            continue
                        if n is None:
                            ctx.undecide("%s: the %s" % (op, nm), ctx.loc(f, ln), show(got)[:200] if got is not None else "nothing") if got is not None and (unresolved(got) or got.op == "fld" and contains(got, lambda q: q.op == "app" and q.a[0] == "loop")) \
                                else ctx.need(False, "%s hands out the %s" % (op, nm), ctx.loc(f, ln), "it is %s" % (show(got)[:100] if got is not None else "nothing"))
                        else:
                            ctx.need(n is pos, "%s hands out the %s of the node at that position" % (op, nm), ctx.loc(f, ln), "of the node %s steps from the first" % show(n)[:80], about=[n])
                else:
                    ctx.need(False, "%s answers for a position below the count" % op, ctx.loc(f, ln), "it returns %s when %s" % (show(v)[:40], show(c)[:120]),
                             about=[c] + ([T("unk", "loop")] if contains(c, lambda q: q.op == "app" and q.a[0] == "loop") else []))


def lessthan(ip, a, b):
    return ip.lt(a, b)


def new(ctx):
    x = run(ctx, "new")
    if x is None:
        return
    f, ip, r = x
    n = 0
    for pc, v, st, ln in r.rets:
        if settle(pc) is FALSE or v is not num(0):
            continue
        n += 1
        o = st.S.get(T("deref", H))
        if o is None:
            ctx.need(False, "new hands out the list", ctx.loc(f, ln), "nothing is stored")
            continue
        zero = o.op == "app" and o.a[0] == "calloc"
        for nm, w in (("head", NULL), ("tail", NULL), ("count", num(0))):
            got = st.S.get(fld(o, nm))
            ctx.need(got is w or got is None and zero, "a new list is empty: %s" % nm, ctx.loc(f, ln), "it is %s" % (show(got)[:80] if got is not None else "left as malloc returned it"),
                     about=[o] + ([got] if got is not None else []))
    ctx.need(n > 0, "new succeeds", ctx.loc(f), "it never does", about=[p[0] for p in r.rets])


def free(ctx):
    x = run(ctx, "free", opaque=[L + "delete_last"])
    if x is None:
        return
    f, ip, r = x
    dels = [e for e in ip.trace if e.t.op == "app" and e.t.a[0] == L + "delete_last"]
    frees = [e for e in ip.trace if e.t.op == "app" and e.t.a[0] == "free"]
    whole = [e for e in frees if e.t.a[1] is H or contains(e.t.a[1], lambda q: q.op == "app" and q.a[0] == "loop" and len(q.a) > 3 and q.a[3] is H)]
    if len(dels) != 1 or len(whole) != 1 or len(frees) != len(whole):
        ctx.undecide("free", ctx.loc(f), "%d deletions, %d releases" % (len(dels), len(frees)))
        return
    ctx.need(not [q for q in conjuncts(whole[0].pc) if q is not T("nonnull", H)], "free releases every list that is given", ctx.loc(f, whole[0].line), "when %s" % show(whole[0].pc)[:120], about=[whole[0].pc])
    # the nodes are released while any is counted
    cs = [q for q in conjuncts(dels[0].pc) if contains(q, lambda z: z.op == "fld" and z.a[1].endswith("::count"))]
    rest = [q for q in conjuncts(dels[0].pc) if q not in cs and q is not T("nonnull", H)]
    ok = len(cs) == 1 and not rest and (cs[0].op == "lt" and cs[0].a[0] is num(0) and cs[0].a[1].op == "fld" or cs[0].op == "not" and cs[0].a[0].op == "eq" and num(0) in cs[0].a[0].a)
    if not ok and not (len(cs) == 1 and not rest and cs[0].op == "lt" and cs[0].a[0].op == "int"):
        ctx.undecide("free releases every node", ctx.loc(f, dels[0].line), "deletes while %s" % show(dels[0].pc)[:160])
    else:
        ctx.need(ok, "free releases every node", ctx.loc(f, dels[0].line), "only while %s" % show(cs[0])[:100] if cs else "")


@check("C33", "gated value numbering of each list operation; its stores compared with those of its name on an empty list, a list of one and a longer list (induction over the operations)",
       "append links a new last node with copies of key and value and counts it; delete_last unlinks and releases exactly the last node; lookup follows exactly `position` links from the first node; a new list is empty; free releases every node.")
def c33(ctx):
    lists(ctx)
