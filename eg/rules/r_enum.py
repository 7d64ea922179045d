"""Enumerations and their texts."""
from ..check import check
from ..api import *
from ..alg import *
from ..terms import *
from .. import domain


def pairs(p):
    """(enum, to-text definition, from-text definition) of the public conversions."""
    out = []
    for e in sorted(p.enums):
        if not e.startswith(EG) or "::" in e[len(EG):]:
            continue
        to = [f for f in p.funcs.values() if f.get("b") is not None and not f.get("cls") and f["n"].startswith(EG) and len(f["ps"]) == 1
              and f["ps"][0]["t"].replace("const ", "").rstrip("& ") == e and f["rt"].replace("const ", "") == "std::string"]
        fr = [f for f in p.funcs.values() if f.get("b") is not None and not f.get("cls") and f["n"].startswith(EG) and len(f["ps"]) == 1
              and f["rt"] == e and f["ps"][0]["t"].replace("const ", "").rstrip("& ") == "std::string"]
        if len(to) == 1 and len(fr) == 1:
            out.append((e, to[0], fr[0]))
    return out


def run1(ctx, fn, arg):
    ip = domain.make(ctx.p, opaque=list(PRECOMP), reveal=[EG + "findByValue"])
    ip.const_globals = True
    r = ip.run(fn, args=[arg])
    ctx.saw(ip)
    vals = [(pc, v) for pc, v, st, ln in r.rets if ncanon1(pc) is not FALSE]
    return vals, r.throws


def ncanon1(t):
    return Canon()(t)


@check("C26", "gated value numbering of the conversions, for every enumerator",
       "every enumerator has a text of its own, and that text is converted back to the same enumerator.")
def c26(ctx):
    ps = pairs(ctx.p)
    if not ps:
        ctx.undecide("conversions", "", "none found")
    for e, to, fr in ps:
        ctx.part(e, one, ctx, e, to, fr)


def one(ctx, e, to, fr):
    texts = {}
    for c in ctx.p.enums[e]["c"]:
        k, n = int(c["v"]), c["n"].replace(EG, "")
        vals, throws = run1(ctx, to, num(k))
        ok = len(vals) == 1 and vals[0][1].op == "str" and vals[0][0] is TRUE
        if not ctx.need(ok, "%s has a text" % n, ctx.loc(to), "; ".join(show(v)[:80] for _, v in vals) or "none", about=[v for _, v in vals if not (v.op == "app" and v.a[0] == "end" or v.op == "fld" and v.a[0].op == "app" and v.a[0].a[0] == "end")]):
            continue
        s = vals[0][1]
        if s in texts and texts[s] != k:
            ctx.bad("%s has a text of its own" % n, ctx.loc(to), "%s is also that of value %d" % (show(s), texts[s]))
            continue
        texts[s] = k
        back, throws = run1(ctx, fr, s)
        good = [v for pc, v in back if not contains(pc, lambda q: q.op == "exc")]
        ctx.need(len(set(good)) == 1 and good[0] is num(k), "the text of %s is converted back to it" % n, ctx.loc(fr),
                 "%s gives %s" % (show(s), "; ".join(show(v)[:60] for v in good) or "an error"), about=good)
