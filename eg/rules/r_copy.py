"""Copies: copy construction, assignment, moves and clone keep everything an object shows."""
import sys

from ..check import check, unresolved
from ..api import *
from ..alg import *
from ..terms import *
from .. import domain
from .r_ballot import ncanon


def classes(p):
    out = []
    for n in sorted(p.records):
        if n.startswith(EG) and "::" not in n[len(EG):] and "<" not in n:
            out.append(n[len(EG):])
    return out


def bases(p, cls):
    """cls and its transitive bases."""
    out, todo = [], [EG + cls]
    while todo:
        c = todo.pop(0)
        if c in out or c not in p.records:
            continue
        out.append(c)
        todo += p.records[c].get("bases", [])
    return [c[len(EG):] for c in out if c.startswith(EG)]


def getters(p, cls):
    """Public argument-less methods that show the state of the object: name -> definition."""
    out = {}
    for b in bases(p, cls):
        for f in p.funcs.values():
            if f.get("cls") != EG + b or f.get("b") is None or f["ps"] or f.get("ctor") or f.get("static") or f.get("access"):
                continue
            n = f["n"].split("::")[-1]
            if (n.startswith(("get", "is")) or cls in ("ElementModP", "ElementModQ") and n in ("get", "isFixedBase")) and n not in out and f["rt"] != "void":
                if n in ("isValid", "isInBounds", "isValidResidue", "isValidEncryption"):
                    continue
                out[n] = f
        r = p.records[EG + b]
        for f in r.get("fields", ()):       # plain data members
            if f.get("access", 1) == 0:
                out.setdefault(f["n"].split("::")[-1], f)
    return out


def copies(p, cls):
    """(kind, definition) of everything that copies or moves a cls."""
    out = []
    for f in p.funcs.values():
        if f.get("cls") != EG + cls or f.get("implicit") or f.get("access"):
            continue
        n = f["n"].split("::")[-1]
        ty = f["ps"][0]["t"].replace("const ", "").rstrip("& ") if len(f["ps"]) == 1 else None
        if f.get("ctor") and ty == EG + cls:
            out.append(("copy constructor" if "&&" not in f["ps"][0]["t"] else "move constructor", f))
        elif n == "operator=" and ty == EG + cls:
            out.append(("copy assignment" if "&&" not in f["ps"][0]["t"] else "move assignment", f))
        elif n == "clone" and not f["ps"]:
            out.append(("clone", f))
    return out


@check("C21", "gated value numbering of every copy constructor, assignment, move and clone; getter-by-getter comparison with the source object",
       "for every class: each public getter yields the same value on the copy as on the original, and a copy leaves the original as it was.")
def c21(ctx):
    for cls in classes(ctx.p):
        cs = copies(ctx.p, cls)
        gs = getters(ctx.p, cls)
        if not cs or not gs:
            continue
        for kind, fn in cs:
            if fn.get("b") is None and not fn.get("defaulted") and not fn.get("inits"):
                continue
            ctx.part("%s %s" % (cls, kind), one, ctx, cls, kind, fn, gs)


def one(ctx, cls, kind, fn, gs):
    p = ctx.p
    nid = set()
    for b in bases(p, cls):
        nid |= {EG + b, EG + b + "::Impl"}
    nid.discard(EG + cls)       # the parameter of a by-value assignment is a faithful copy already (its own obligation)
    if kind == "clone" or "constructor" in kind or fn["ps"] and fn["ps"][0]["t"].endswith("&"):
        nid.add(EG + cls)
    ops = list(PRECOMP)
    kw = {}
    if cls in ("ElementModP", "ElementModQ"):
        kw["reveal"] = [n for n in domain._VOCAB if n.startswith(EG + cls + "::")]
        kw["models"] = {}
        ops += ["hacl::Bignum256::lessThan", "hacl::Bignum4096::lessThan"]
    ip = domain.make(p, opaque=ops, no_copy_identity=nid, **kw)
    if "reveal" in kw:
        for m in [k for k in ip.models if k.startswith(EG + cls + "::")]:
            del ip.models[m]
    other = sym("other")
    if "constructor" in kind:
        this = ip.newobj(cls)
        r = ip.run(fn, args=[other], this=this)
    elif kind == "clone":
        this = other
        r = ip.run(fn, args=[], this=other)
    else:
        this = sym("self")
        r = ip.run(fn, args=[other], this=this)
    ctx.saw(ip)
    if not r.rets:
        ctx.bad("%s: the %s completes" % (cls, kind), ctx.loc(fn), "it never returns normally")
        return
    for pc, v, ln in [(x[0], x[1], x[-1]) for x in r.throws]:
        if "move" not in kind:
            ctx.need(False, "%s: the %s never fails" % (cls, kind), ctx.loc(fn, ln if isinstance(ln, int) else None), "throws when %s" % show(ncanon(pc))[:200], about=[pc])
    for pc, v, st, ln in r.rets:
        if kind == "clone":
            dup = v
            if v is NULL:
                ctx.bad("%s: the %s yields an object" % (cls, kind), ctx.loc(fn, ln), "null")
                continue
        else:
            dup = this
        selfassign = False
        if kind.endswith("assignment"):
            # `this == &other` guards: the object is the argument then
            if any(x.op == "eq" and (this in x.a or any(this is z or (z.op == "addr") for z in x.a)) for x in conjuncts(pc)):
                selfassign = True
        if selfassign:
            ctx.ok("%s: %s to itself" % (cls, kind), ctx.loc(fn, ln))
            continue
        for g, gf in sorted(gs.items()):
            a = show_of(ctx, ip, cls, gf, dup, st)
            b = show_of(ctx, ip, cls, gf, other, None)
            if any(q.op == "fresh" or q.op == "app" and q.a[0] == "fresh" for q in subterms(b)):
                continue        # not a property of the object (the clock)
            if kind.endswith("assignment"):     # to another object
                m = {q: FALSE for q in subterms(a) if q.op == "eq" and set(q.a) <= {this, other} and len(set(q.a)) == 2}
                a = subst(a, {**m, **{neg(q): TRUE for q in m}}) if m else a
            ok = a is b or ncanon(flat(a)) is ncanon(flat(b))
            ctx.need(ok, "%s: the %s keeps %s" % (cls, kind, g), ctx.loc(fn, ln), "the copy has %s, the original %s" % (show(ncanon(a))[:200], show(ncanon(b))[:200]), about=[a, b])
            if "move" not in kind and "&&" not in (fn["ps"][0]["t"] if fn["ps"] else "") and other is not dup:
                if kind == "copy assignment" and "&" not in fn["ps"][0]["t"]:
                    continue
                c = show_of(ctx, ip, cls, gf, other, st)
                if kind.endswith("assignment"):
                    m = {q: FALSE for q in subterms(c) if q.op == "eq" and set(q.a) <= {this, other} and len(set(q.a)) == 2}
                    c = subst(c, {**m, **{neg(q): TRUE for q in m}}) if m else c
                ok = c is b or ncanon(c) is ncanon(b)
                ctx.need(ok, "%s: the %s leaves %s of the original as it was" % (cls, kind, g), ctx.loc(fn, ln), "afterwards %s" % show(ncanon(c))[:200], about=[c])


def flat(t):
    """A whole-array copy of an array of the same type is that array."""
    while t.op == "app" and t.a[0] == "copyinto":
        t = t.a[2]
    if t.op == "app" and t.a[0] == "loop":
        u = ncanon(t)       # for i < N: a[i] = b[i]
        h, coll, v0, b, k = u.a[1:6]
        if k is FALSE and b.op == "app" and b.a[0] == "upd" and b.a[1].op == "bv" and b.a[2].op == "bv" and b.a[2] is not b.a[1] \
                and b.a[3].op == "app" and b.a[3].a[0] == "idx" and b.a[3].a[2] is b.a[2] and not contains(b.a[3].a[1], lambda q: q is b.a[1]) \
                and v0.op == "app" and v0.a[0] == "zeros" and show(coll) == "range(%s)" % show(v0.a[1]).split("[")[-1].rstrip(']"'):
            return b.a[3].a[1]
    return t


def show_of(ctx, ip, cls, gf, obj, st):
    if "ps" not in gf:      # data member
        from ..interp import shortcls
        return ip.field(obj, shortcls(gf["n"]), st) if st is not None else T("fld", obj, shortcls(gf["n"]))
    S = dict(st.S) if st is not None else {}
    r = ip.run(gf, args=[], this=obj, S=S)
    v = r.ret
    if v is not None and v.op == "obj":
        v = ip.reify(v, r.st)
    return v
