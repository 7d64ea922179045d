"""The C interface: what each function hands out is what the C++ class of that name has or does."""
import re

from ..check import check
from ..api import *
from ..alg import *
from ..models import val, heapof
from ..prog import strip_targs
from ..terms import *
from .. import domain
from .r_ballot import ncanon
from .r_copy import bases, classes, getters, show_of

OK = num(0)

# C names that are not the C++ names
CLASS = {"electionmanifest": "Manifest", "ciphertextelectioncontextconfig": "ContextConfiguration",
         "contextconfiguration": "ContextConfiguration", "intertnationalizedtext": "InternationalizedText"}
ATTR = {("DisjunctiveChaumPedersenProof", "zeropad"): "proof0pad", ("DisjunctiveChaumPedersenProof", "zerodata"): "proof0data",
        ("DisjunctiveChaumPedersenProof", "onepad"): "proof1pad", ("DisjunctiveChaumPedersenProof", "onedata"): "proof1data",
        ("DisjunctiveChaumPedersenProof", "zerochallenge"): "proof0challenge", ("DisjunctiveChaumPedersenProof", "onechallenge"): "proof1challenge",
        ("DisjunctiveChaumPedersenProof", "zeroresponse"): "proof0response", ("DisjunctiveChaumPedersenProof", "oneresponse"): "proof1response",
        ("ContextConfiguration", "allowedovervotes"): "allowovervotes", ("ContextConfiguration", "maxballots"): "maxnumberofballots",
        ("ContactInformation", "emailline"): "email", ("ContactInformation", "phoneline"): "phone",
        ("CiphertextBallot", "timestamp"): "timestamp", ("ElementModP", "data"): "", ("ElementModQ", "data"): "",
        ("EncryptionDevice", "hash"): "hash", ("Manifest", "type"): "electiontype", ("Manifest", "contactinfo"): "contactinformation",
        ("ContextConfiguration", "numberofguardians"): "maxnumberofballots",
        ("ContextConfiguration", "allowovervotes"): "allowovervotes",
        ("GeopoliticalUnit", "reportingunittype"): "type", ("EncryptionMediator", "manifest"): "internalmanifest",
        ("PlaintextBallotSelection", "isplaceholder"): "isplaceholder",
        ("PlaintextBallotSelection", "isplaceholderselection"): "isplaceholder",
        ("ContestDescriptionWithPlaceholders", "placeholder"): "placeholders",
        ("ContestDescriptionWithPlaceholders", "placeholderselection"): "placeholders",
        ("CiphertextElectionContext", "configuration"): "configuration"}


def flatn(n):
    return n.replace("_", "").lower()


def cmap(p):
    out = {flatn(c): c for c in classes(p)}
    out.update(CLASS)
    return out


def split(cm, name):
    """eg_<class>_<operation> -> class, operation words."""
    w = name[3:].split("_")
    for i in range(len(w), 0, -1):
        if "".join(w[:i]) in cm:
            return cm["".join(w[:i])], w[i:]
    return None, w


def cfuncs(p):
    seen = {}
    for f in p.funcs.values():
        if f["n"].startswith("eg_") and f.get("b") is not None and not f.get("cls"):
            seen.setdefault(f["n"], f)
    return [seen[n] for n in sorted(seen)]


def _dur_ctor(ip, e, st):
    """Durations are pairs of a number and the unit it counts."""
    m = re.search(r"ratio<(\d+), (\d+)>", e["t"])
    if not e["a"]:
        return app("dur", string("%s/%s" % m.groups()) if m else string("?"), num(0))
    v = val(ip, e["a"][0], st)
    src = e["a"][0].get("t", "")
    if "chrono::" in src:
        return v
    return app("dur", string("%s/%s" % m.groups()) if m else string("1/1"), ip.reify(v, st))


def _dur_count(ip, e, st):
    m = re.search(r"ratio<(\d+), (\d+)>", e["n"])
    u = string("%s/%s" % m.groups()) if m else string("1/1")
    v = ip.reify(val(ip, e["o"], st), st)
    if v.op == "app" and v.a[0] == "dur" and v.a[1] is u:
        return v.a[2]
    return app("count", u, v)


def _dur_same(ip, e, st):
    return val(ip, e["a"][0] if e["a"] else e["o"], st)


def _to_time_t(ip, e, st):
    v = ip.reify(val(ip, e["a"][0], st), st)
    u = string("1/1")
    return v.a[2] if v.op == "app" and v.a[0] == "dur" and v.a[1] is u else app("count", u, v)


def _from_time_t(ip, e, st):
    return app("dur", string("1/1"), ip.reify(val(ip, e["a"][0], st), st))


TIME = {"ctor:std::chrono::duration": _dur_ctor, "std::chrono::duration::count": _dur_count,
        "std::chrono::duration_cast": _dur_same, "std::chrono::time_point_cast": _dur_same,
        "std::chrono::_V2::system_clock::to_time_t": _to_time_t, "std::chrono::system_clock::to_time_t": _to_time_t,
        "std::chrono::_V2::system_clock::from_time_t": _from_time_t, "std::chrono::system_clock::from_time_t": _from_time_t}

HEAVY = ["encryptSelection", "encryptContest", "encryptBallot", "encryptCompactBallot", "EncryptionMediator::encrypt",
         "EncryptionMediator::compactEncrypt", "ElGamalCiphertext::decrypt", "EncryptionMediator::EncryptionMediator",
         "DisjunctiveChaumPedersenProof::make", "DisjunctiveChaumPedersenProof::make_zero", "DisjunctiveChaumPedersenProof::make_one"]


def engine(ctx, opaque=()):
    return domain.make(ctx.p, opaque=list(PRECOMP) + [EG + o for o in opaque], reveal=[EG + "dynamicCopy"], models=dict(TIME))


def cnames(f):
    """Parameter names; the object a member function works on is `handle` whatever it is called."""
    names = list(pnames(f))
    if "handle" not in names:
        c = [i for i, q in enumerate(f["ps"]) if not names[i].startswith(("in_", "out_")) and re.match(r"(const )?eg_\w+ \*$", q["t"])]
        if len(c) == 1:
            names[c[0]] = "handle"
    return names


class Run:
    """One C function: per normal path its status or value, and what it stored through its out parameters."""

    def __init__(self, ctx, f, opaque=(), args=None, this=None, const=False):
        self.f = f
        self.ip = ip = engine(ctx, opaque)
        ip.const_globals = const
        ip.indexed = []
        ip.opaque |= LISTFNS
        self.names = cnames(f)
        r = ip.run(f, args=args or [sym(a) for a in self.names], this=this)
        ctx.saw(ip)
        self.r = r
        self.outs = [n for n, q in zip(self.names, f["ps"]) if n.startswith("out_")]
        self.ins = [n for n, q in zip(self.names, f["ps"]) if not n.startswith("out_") and n != "handle"]
        self.types = {n: q["t"] for n, q in zip(self.names, f["ps"])}
        self.status = "status" in f["rt"]
        self.good = []
        for pc, v, st, ln in r.rets:
            if any(x.op == "exc" or x.op == "or" and all(y.op == "exc" for y in x.a) for x in conjuncts(pc)):
                continue
            if self.status and v is not OK:
                if v is not None and v.op != "int":
                    self.good.append((pc, v, st, ln))
                continue
            self.good.append((pc, v, st, ln))

    def out(self, n, st):
        v = st.S.get(T("deref", sym(n)))
        return self.ip.reify(v, st) if v is not None else None


def strip_heap(v):
    """(content, allocator, size) of a buffer handed out."""
    if v.op == "app" and v.a[0] == "heap":
        return v.a[3], v.a[1].a[0], v.a[2]
    return None


def least(c):
    """size(s) + k -> (s, k)"""
    if c.op == "app" and c.a[0] == "+":
        k, s = 0, None
        for x in c.a[1:]:
            if x.op == "int":
                k += x.a[0]
            elif x.op == "app" and x.a[0] in ("size", "length", "strlen") and s is None:
                s = x.a[1]
            else:
                return None
        return (s, k) if s is not None else None
    if c.op == "app" and c.a[0] in ("size", "length", "strlen"):
        return c.a[1], 0
    return None


def text_of(ctx, what, loc, v):
    """The text a char* handed out points to; checks that it is a copy of its own, complete and terminated."""
    h = strip_heap(v)
    if h is None:
        if v.op == "app" and v.a[0] in ("malloc", "newarray"):
            ctx.bad(what + ": text", loc, "the memory handed out is not filled")
            return None
        ctx.need(False, what + ": the text is a copy for the caller", loc, "it hands out %s itself" % show(v)[:120], about=[v])
        return None
    c, alloc, n = h
    ctx.need(alloc == "malloc", what + ": the text is allocated as its release function expects", loc, "allocated with %s" % alloc)
    s = c
    if c.op == "app" and c.a[0] in ("strn", "memn"):
        s = c.a[1]
        m = least(ncanon(c.a[2]))
        ctx.need(m is not None and ncanon(m[0]) is ncanon(s) and m[1] == 1, what + ": the text is copied with its end", loc,
                 "copies %s characters of %s" % (show(ncanon(c.a[2]))[:80], show(ncanon(s))[:80]), about=[c])
    m = least(ncanon(n))
    ctx.need(m is not None and ncanon(m[0]) is ncanon(s) and m[1] >= 1, what + ": there is room for the text and its end", loc,
             "room for %s" % show(ncanon(n))[:120], about=[n])
    return s


def bytes_of(ctx, what, loc, v):
    h = strip_heap(v)
    if h is None:
        ctx.need(False, what + ": the data is a copy for the caller", loc, "it hands out %s" % show(v)[:120], about=[v])
        return None
    c, alloc, n = h
    ctx.need(alloc == "new[]", what + ": the data is allocated as its release function expects", loc, "allocated with %s" % alloc)
    s = c
    if c.op == "app" and c.a[0] == "memn":
        s = c.a[1]
    ctx.need(ncanon(n) is ncanon(app("size", s)), what + ": there is room for exactly the data", loc, "room for %s" % show(ncanon(n))[:120], about=[n])
    return s


def same(a, b):
    if a is b:
        return True
    a, b = ncanon(a), ncanon(b)
    return a is b or copied(a, b) or copied(b, a)


def copied(o, s):
    """An object all of whose fields are those of the given one."""
    return o.op == "new" and len(o.a) > 1 and all(o.a[i + 1] is T("fld", s, o.a[i]) for i in range(1, len(o.a), 2))


def getter_of(p, cls, words):
    """The getter an attribute name stands for, or None."""
    gs = getters(p, cls)
    want = flatn("".join(words))
    want = ATTR.get((cls, want), want)
    tab = {}
    for g in gs:
        n = flatn(g)
        tab[n] = g
        if n.startswith("get"):
            tab.setdefault(n[3:], g)
        if n.startswith("is"):
            tab.setdefault(n[2:], g)
    for w in (want, want + "s", want[:-1] + "ies" if want.endswith("y") else want, want + "ids", "is" + want):
        if w in tab:
            return tab[w], gs[tab[w]]
    return None


def arg(n, names):
    """Value of a C argument as the C++ side sees it: arrays with a size are sequences."""
    if n + "_size" in names:
        return T("seq", T("each", 1, app("range", sym(n + "_size")), T("seq", T("one", app("idx", sym(n), T("bv", 1)))), FALSE))
    if n == "in_data" and "in_length" in names:
        return app("std::vector", sym(n), app("+", sym(n), sym("in_length")))
    return sym(n)


@check("C19", "gated value numbering of every C function; comparison with the value of the C++ getter, constructor or operation of the same name on the same arguments",
       "for every C function: what it returns or stores through each out parameter on success equals what the C++ member it is named after yields; text is handed out as a complete terminated copy; indices are bounds-checked.")
def c19(ctx):
    p = ctx.p
    cm = cmap(p)
    for f in cfuncs(p):
        cls, op = split(cm, f["n"])
        ctx.part(f["n"], one, ctx, cm, cls, op, f)
    ctx.part("status texts", status_texts, ctx)
    from .r_list import lists
    ctx.part("linked lists", lists, ctx)


def one(ctx, cm, cls, op, f):
    n = f["n"]
    if n.startswith("eg_linked_list") or op[-1:] == ["free"] or n in ("eg_free_int_ptr", "eg_delete_int_ptr"):
        return
    if n in OPS:
        return operation(ctx, cls, op, f)
    if cls is not None and op[:1] == ["get"]:
        return getter(ctx, cls, op[1:], f)
    if cls is not None and (op[:1] == ["new"] or op[:1] == ["make"] and cls in ("ContextConfiguration", "CiphertextElectionContext")):
        return maker(ctx, cls, op, f)
    return operation(ctx, cls, op, f)


def element_new(ctx, cls, f):
    """An element made from an array holds all of its limbs."""
    n = f["n"]
    run = Run(ctx, f, const=True)
    for pc, v, st, ln in run.good:
        o = run.out("out_handle", st)
        if o is None:
            ctx.bad("%s sets out_handle" % n, ctx.loc(f, ln), "success without an object")
            continue
        c = {x for x in subterms(o) if x.op == "app" and x.a[0] == "memcpy" and x.a[2] is sym("in_data")}
        if any(x.op == "app" and x.a[0] == "copyinto" and x.a[2] is sym("in_data") for x in subterms(o)):
            ctx.need(True, n + ": all limbs are taken", ctx.loc(f, ln), "")
            continue
        if not c:
            ctx.undecide(n + ": the limbs", ctx.loc(f, ln), "in_data is not copied with memcpy: " + show(o)[:120])
            continue
        k = {"ElementModP": 512, "ElementModQ": 32}[cls]
        for x in c:
            ctx.need(x.a[3] is num(k), n + ": all limbs are taken", ctx.loc(f, ln), "%s bytes of in_data" % show(x.a[3])[:80], about=[x.a[3]])


def extended_list(ctx, f):
    """The list handed out has an entry of key and value for every entry of the map."""
    n = f["n"]
    ip = engine(ctx)
    ip.opaque |= {"eg_linked_list_append", "eg_linked_list_new"}
    r = ip.run(f, args=[sym(a) for a in cnames(f)])
    ctx.saw(ip)
    out = [a for a in pnames(f) if a.startswith("out_")][0]
    for pc, v, st, ln in r.rets:
        if v is not OK:
            continue
        g = st.S.get(T("deref", sym(out)))
        g = ip.reify(g, st) if g is not None else None
        m = T("fld", sym("handle"), "extendedData")
        new = [x for x in subterms(g) if x.op == "app" and x.a[0] == "out0:eg_linked_list_new"] if g is not None else []
        if g is None or not new:
            ctx.need(False, n + " hands out a list", ctx.loc(f, ln), "none", about=[g] if g is not None else [])
            continue
        if g.op == "app" and g.a[0] == "loop" and g.a[4].op == "app" and g.a[4].a[0] == "out0:eg_linked_list_append":
            k, w = g.a[4].a[2:4]
            e = T("bv", g.a[1]) if isinstance(g.a[1], int) else T("bv", g.a[1].a[0])
            ctx.need(same(g.a[2], show_of(ctx, ip, "CiphertextElectionContext", getters(ctx.p, "CiphertextElectionContext")["getExtendedData"], sym("handle"), None)),
                     n + ": every entry", ctx.loc(f, ln), show(g.a[2])[:120], about=[g.a[2]])
            ctx.need(g.a[5] is FALSE, n + ": every entry", ctx.loc(f, ln), "the loop ends early", about=[g.a[5]])
            ctx.need((show(k), show(w)) == (show(e) + ".first", show(e) + ".second"), n + ": key and value", ctx.loc(f, ln), "%s: %s" % (show(k)[:80], show(w)[:80]), about=[k, w])
        elif g is new[0] or not any(x.op == "app" and "eg_linked_list_append" in str(x.a[0]) for x in subterms(g)):
            ctx.need(False, n + ": every entry", ctx.loc(f, ln), show(g)[:120], about=[g])
        else:
            ctx.undecide(n, ctx.loc(f, ln), show(g)[:200])


def getter(ctx, cls, words, f):
    n = f["n"]
    if any("linked_list" in q["t"] for q in f["ps"]):
        return extended_list(ctx, f)
    idx = words[-2:] == ["at", "index"]
    size = words[-1:] == ["size"]
    attr = words[:-2] if idx else words[:-1] if size else words
    g = getter_of(ctx.p, cls, attr)
    run = Run(ctx, f)
    if g is None:
        return operation(ctx, cls, ["get"] + words, f)
    exp = show_of(ctx, run.ip, cls, g[1], sym("handle"), None)
    if domain.vocab(g[1]["n"], g[1]):
        exp = app(g[1]["n"], sym("handle"))
    if size:
        exp = app("size", exp)
    if n.endswith("_date"):
        exp = app("count", string("1/1000"), exp)
    if not run.good:
        ctx.bad(n + " succeeds", ctx.loc(f), "it never returns a value")
        return
    for pc, v, st, ln in run.good:
        if any(x is neg(run.ip.nonnull(sym("handle"))) for x in conjuncts(pc)):
            continue
        got, t = v, f["rt"]
        o = [x for x in run.outs if x != "out_size"]
        if run.status:
            if not o:
                return ctx.undecide(n, ctx.loc(f), "no out parameter")
            if len(o) > 1:
                return ctx.undecide(n, ctx.loc(f), "several out parameters")
            got, t = run.out(o[0], st), run.types[o[0]]
            if got is None:
                ctx.bad("%s sets %s" % (n, o[0]), ctx.loc(f, ln), "success without a value")
                continue
        if "char **" in t:
            got = text_of(ctx, n, ctx.loc(f, ln), got)
            if got is None:
                continue
        e = exp
        if idx:
            e = app("idx", exp, sym("in_index"))
            for ev in run.ip.indexed:
                b, k = ev.t.a[1:]
                lim = unsize(ncanon(run.ip.lt(k, app("size", b))))
                ctx.need(any(unsize(ncanon(x)) is lim for x in conjuncts(ev.pc)) or implies(unsize(ncanon(ev.pc)), lim), n + ": the index is checked", ctx.loc(f, ev.line),
                         "element %s of %s without a bounds check" % (show(k)[:60], show(b)[:80]), about=[ev.t])
        ctx.need(same(unsize(got), unsize(e)), "%s hands out %s::%s%s" % (n, cls, g[0], " by index" if idx else "'s size" if size else ""), ctx.loc(f, ln),
                 "%s instead of %s" % (show(ncanon(got))[:160], show(ncanon(e))[:160]), about=[got, e])
        if "out_size" in run.outs:
            sz = run.out("out_size", st)
            k = {"ElementModP": 64, "ElementModQ": 4}.get(cls)
            ctx.need(sz is not None and k is not None and (sz is num(k) or ncanon(sz) is ncanon(app("size", got))), n + ": the size is that of the data", ctx.loc(f, ln),
                     show(sz) if sz is not None else "not set", about=[sz] if sz is not None else [])


def unsize(t):
    """Checked width conversions are identities where they return; the size of a sorted list is that of the list."""
    def f(x):
        if not isinstance(x, T):
            return x
        if x.op == "app" and x.a[0] in ("uint64_to_size", EG + "uint64_to_size"):
            return f(x.a[1])
        if x.op == "app" and x.a[0] == "size" and x.a[1].op == "app" and x.a[1].a[0] == "sorted":
            return f(app("size", x.a[1].a[1]))
        if not x.a:
            return x
        na = tuple(f(a) for a in x.a)
        return x if na == x.a else rebuild(x.op, na)
    return f(t)


def maker(ctx, cls, op, f):
    """Constructors: every argument is found again in the getter of its name; everything else is as the C++ constructor with these parameters leaves it."""
    n = f["n"]
    if cls in ("ElementModP", "ElementModQ"):
        return element_new(ctx, cls, f)
    run = Run(ctx, f)
    if not run.good:
        ctx.bad(n + " succeeds", ctx.loc(f), "it never yields an object")
        return
    known = {}
    for a in run.ins:
        if a.endswith("_size") and a[:-5] in run.ins or a == "in_length" and "in_data" in run.ins:
            continue
        g = getter_of(ctx.p, cls, a.replace("in_", "", 1).split("_"))
        known[a] = g
    cpp = counterpart(ctx, cls, op, f, run)
    for pc, v, st, ln in run.good:
        o = run.out("out_handle", st)
        if o is None:
            ctx.bad("%s sets out_handle" % n, ctx.loc(f, ln), "success without an object")
            continue
        obj = st.S.get(T("deref", sym("out_handle")))
        for a, g in sorted(known.items()):
            if g is None or "linked_list" in run.types[a]:
                continue
            got = show_of(ctx, run.ip, cls, g[1], obj, st)
            exp = arg(a, run.names)
            if a.endswith("_date"):
                exp = app("dur", string("1/1000"), exp)
            if "hex" in "_".join(op) and "char" in run.types[a]:
                exp = None
            if got.op == "app" and got.a[0] == "sorted":
                got = got.a[1]
            if exp is not None:
                ctx.need(same(got, exp), "%s: %s becomes %s" % (n, a, g[0]), ctx.loc(f, ln), "%s instead of %s" % (show(ncanon(got))[:160], show(ncanon(exp))[:160]), about=[got, exp])
        if cpp is not None:
            cr, cobj, cst, cip = cpp
            for gname, gf in sorted(getters(ctx.p, cls).items()):
                a = show_of(ctx, run.ip, cls, gf, obj, st)
                b = show_of(ctx, cip, cls, gf, cobj, cst)
                if any(q.op == "fresh" for q in subterms(b)):
                    continue
                if gname.lower().find("extendeddata") >= 0 and "in_extended_data" in run.ins:
                    extended(ctx, n, f, ln, a)
                    continue
                ctx.need(same(undate(a), undate(b)), "%s: %s as from C++" % (n, gname), ctx.loc(f, ln), "%s instead of %s" % (show(ncanon(a))[:160], show(ncanon(b))[:160]), about=[a, b])


def undate(t):
    if t.op == "app" and t.a[0] == "dur":
        return t.a[2]
    return t


LISTFNS = {"eg_linked_list_get_count", "eg_linked_list_get_element_at"}


def extended(ctx, n, f, ln, got):
    """The extended data is the map of all elements of the list."""
    got = ncanon(got)
    what, where = n + ": extended data", ctx.loc(f, ln)
    key = val_ = cond = None
    if got.op == "app" and got.a[0] == "loop" and got.a[5] is FALSE and got.a[3] is T("seq"):
        rng, step = got.a[2], got.a[4]
        if step.op == "ite":
            cond = step.a[0]
            step = next((x for x in step.a[1:] if x.op == "app" and x.a[0] == "upd"), step)
        if step.op == "app" and step.a[0] == "upd":
            key, val_ = step.a[2:4]
    elif got.op == "seq" and len(got.a) == 1 and got.a[0].op == "each" and got.a[0].a[3] is FALSE:
        rng, body = got.a[0].a[1:3]
        if len(body.a) == 1 and body.a[0].op == "when":
            cond, body = body.a[0].a[:2]
        if len(body.a) == 1 and body.a[0].op in ("kv", "kvnew"):
            key, val_ = body.a[0].a
    if key is None:
        if not any(x is sym("in_extended_data") for x in subterms(got)):
            ctx.need(False, what, where, "it is %s" % show(got)[:120], about=[x for x in [got] if x.op != "seq"])
        else:
            ctx.undecide(what, where, show(got)[:200])
        return
    ctx.need(cond is None, what, where, "an entry is only taken if %s" % show(cond)[:160] if cond is not None else "")
    ctx.need(rng is app("range", app("eg_linked_list_get_count", sym("in_extended_data"))), what, where, "entries %s are taken" % show(rng)[:120], about=[rng])
    el = "eg_linked_list_get_element_at"
    if not all(x.op == "app" and str(x.a[0]) in ("out2:" + el, "out3:" + el) for x in (key, val_)):
        ctx.undecide(what, where, "%s: %s" % (show(key)[:120], show(val_)[:120]))
        return
    ctx.need(key.a[0].startswith("out2:") and val_.a[0].startswith("out3:"), what, where, "key and value are exchanged")
    ctx.need(all(x.a[2].op == "bv" for x in (key, val_)), what, where, "entry %s" % show(key.a[2])[:100], about=[key.a[2]])


def match(ps, ins, types, ptypes, alias=()):
    """Assign C arguments to C++ parameters by name; a single rest pairs up."""
    alias = dict(alias)
    left = list(ins)
    out = {}
    for q in ps:
        fq = flatn(q)
        for a in left:
            fa = flatn(a.replace("in_", "", 1))
            if fa == fq or alias.get((fq, fa)):
                out[q] = a
                left.remove(a)
                break
    rest = [q for q in ps if q not in out]
    for q in list(rest):
        fq = flatn(q)
        c = [a for a in left if flatn(a.replace("in_", "", 1)) in fq or fq in flatn(a.replace("in_", "", 1))]
        if len(c) == 1:
            out[q] = c[0]
            left.remove(c[0])
            rest.remove(q)
    if len(rest) == 1 and len(left) == 1:
        out[rest[0]] = left[0]
        left, rest = [], []
    return out, left, rest


ALIASES = {("email", "emailline"): 1, ("phone", "phoneline"): 1, ("type", "reportingunittype"): 1, ("type", "electiontype"): 1,
           ("internalmanifest", "manifest"): 1, ("config", "configuration"): 1, ("votesallowd", "votesallowed"): 1,
           ("expectednumberselections", "expectednumselections"): 1, ("expectednumberelected", "expectednumelected"): 1,
           ("maxballots", "numberofguardians"): 1, ("elgamalpublickey", "publickey"): 1, ("message", "ciphertext"): 1,
           ("manifesthash", "encryptionseed"): 1, ("elgamalpublickeyinhex", "elgamalpublickey"): 1, ("commitmenthashinhex", "commitmenthash"): 1,
           ("manifesthashinhex", "manifesthash"): 1, ("representation", "hex"): 1, ("ballot", "plaintext"): 1, ("ballot", "ciphertext"): 1,
           ("m", "plaintext"): 1, ("description", "manifest"): 1, ("elem", "data"): 1, ("encryptionseed", "ballotcodeseed"): 1,
           ("previouscode", "seed"): 1, ("uuid", "deviceuuid"): 1, ("sessionid", "sessionuuid"): 1}


def data_ins(run):
    return [a for a in run.ins if not (a.endswith("_size") and a[:-5] in run.ins or a == "in_length" and "in_data" in run.ins)]


def counterpart(ctx, cls, op, f, run):
    """The object the C++ constructor (or make) with exactly these parameters builds."""
    p = ctx.p
    ins = data_ins(run)
    cands = []
    hexed = "hex" in op
    for g in p.funcs.values():
        if g.get("cls") != EG + cls or g.get("implicit") or g.get("access"):
            continue
        nm = g["n"].split("::")[-1]
        if not (g.get("ctor") and op[0] == "new" or nm == op[0]):
            continue
        if g.get("b") is None and not g.get("inits"):
            continue
        ps = pnames(g)
        if len(ps) == 1 and g.get("ctor") and EG + cls in g["ps"][0]["t"]:
            continue
        if op[0] == "make" and cls == "CiphertextElectionContext" and hexed != any("string" in q["t"] and "map" not in q["t"] for q in g["ps"]):
            continue
        m, left, rest = match(ps, ins, run.types, None, ALIASES)
        if left or any(("linked_list" in run.types[a]) != ("map<" in g["ps"][ps.index(q)]["t"]) for q, a in m.items()):
            continue
        if any(not g["ps"][ps.index(q)].get("d") for q in rest):
            continue
        cands.append((len(rest), len(cands), g, m))
    if not cands:
        return None
    _, _, g, m = min(cands, key=lambda c: c[:2])
    ps = pnames(g)
    if any(q not in m for q in ps):
        return None
    ip = engine(ctx)
    args = [arg(m[q], run.names) for q in ps]
    if g.get("ctor"):
        o = ip.newobj(EG + cls)
        r = ip.run(g, args=args, this=o)
        return (g, o, r.st, ip)
    r = ip.run(g, args=args)
    return (g, r.ret, r.st, ip) if r.ret is not None else None


# C functions whose C++ counterpart has another name: -> name, fixed arguments by parameter name
OPS = {
    "eg_constant_to_json": ("Constants::toJson", {}),
    "eg_elgamal_encrypt": ("elgamalEncrypt", {}),
    "eg_elgamal_ciphertext_decrypt_with_secret": ("ElGamalCiphertext::decrypt", {}),
    "eg_elgamal_keypair_from_secret_new": ("ElGamalKeyPair::fromSecret", {"isFixedBase": None}),
    "eg_encrypt_ballot": ("encryptBallot", {"nonce": NULL, "timestamp": 0}),
    "eg_encrypt_ballot_with_nonce": ("encryptBallot", {"timestamp": 0}),
    "eg_encrypt_compact_ballot": ("encryptCompactBallot", {"nonce": NULL, "timestamp": 0}),
    "eg_encrypt_compact_ballot_with_nonce": ("encryptCompactBallot", {"timestamp": 0}),
    "eg_encrypt_contest": ("encryptContest", {}),
    "eg_encrypt_selection": ("encryptSelection", {}),
    "eg_encryption_mediator_encrypt_ballot": ("EncryptionMediator::encrypt", {"verifyProofs": FALSE}),
    "eg_encryption_mediator_encrypt_ballot_verify_proofs": ("EncryptionMediator::encrypt", {"verifyProofs": TRUE}),
    "eg_encryption_mediator_compact_encrypt_ballot": ("EncryptionMediator::compactEncrypt", {"verifyProofs": FALSE}),
    "eg_encryption_mediator_compact_encrypt_ballot_verify_proofs": ("EncryptionMediator::compactEncrypt", {"verifyProofs": TRUE}),
    "eg_element_mod_q_from_hex": ("ElementModQ::fromHex", {"unchecked": FALSE}),
    "eg_element_mod_q_from_hex_unchecked": ("ElementModQ::fromHex", {"unchecked": TRUE}),
    "eg_element_mod_q_pow_mod_p": ("pow_mod_p", {}),
    "eg_disjunctive_chaum_pedersen_proof_make_deterministic": ("DisjunctiveChaumPedersenProof::make", {}),
    "eg_contest_description_with_placeholders_selection_for_id": ("ContestDescriptionWithPlaceholders::selectionFor", {}),
    "eg_internal_manifest_get_ballot_style": ("InternalManifest::getBallotStyle", {}),
    "eg_ballot_code_get_ballot_code": ("BallotCode::getBallotCode", {}),
    "eg_ballot_code_get_hash_for_device": ("BallotCode::getHashForDevice", {}),
}
for _k in ("json", "bson", "msgpack"):
    OPS["eg_ciphertext_ballot_to_" + _k] = ("CiphertextBallot::to" + {"json": "Json", "bson": "Bson", "msgpack": "MsgPack"}[_k], {"withNonces": FALSE})
    OPS["eg_ciphertext_ballot_to_%s_with_nonces" % _k] = ("CiphertextBallot::to" + {"json": "Json", "bson": "Bson", "msgpack": "MsgPack"}[_k], {"withNonces": TRUE})

CONST = {"eg_element_mod_p_constant_g": "G", "eg_element_mod_p_constant_p": "P", "eg_element_mod_p_constant_r": "R",
         "eg_element_mod_p_constant_zero_mod_p": "ZERO_MOD_P", "eg_element_mod_p_constant_one_mod_p": "ONE_MOD_P",
         "eg_element_mod_p_constant_two_mod_p": "TWO_MOD_P", "eg_element_mod_q_constant_q": "Q", "eg_element_mod_q_constant_zero_mod_q": "ZERO_MOD_Q",
         "eg_element_mod_q_constant_one_mod_q": "ONE_MOD_Q", "eg_element_mod_q_constant_two_mod_q": "TWO_MOD_Q"}


def operation(ctx, cls, op, f):
    n = f["n"]
    p = ctx.p
    if n in CONST:
        run = Run(ctx, f)
        g = find(p, CONST[n], n=0)
        exp = run.ip.eval_fn(g) if hasattr(run.ip, "eval_fn") else app(EG + CONST[n])
        for pc, v, st, ln in run.good:
            got = run.out(run.outs[0], st)
            ctx.need(got is not None and (got is exp or got.op == "app" and got.a == exp.a), "%s is %s" % (n, CONST[n]), ctx.loc(f, ln), show(got) if got is not None else "not set")
        return
    fixed = {}
    if n in OPS:
        name, fixed = OPS[n]
        cands = [g for g in p.fn(EG + name) if g.get("b") is not None]
    elif cls is not None:
        want = flatn("".join(op))
        cands = []
        for b in bases(p, cls):
            cs = [g for g in p.funcs.values() if g.get("cls") == EG + b and g.get("b") is not None and flatn(g["n"].split("::")[-1]) == want and not g.get("implicit")]
            if cs:
                cands = cs
                break
    else:
        cands = []
    if not cands:
        ctx.tally("C functions without a C++ member of that name", 1)
        return
    opaque = HEAVY if any(c["n"][len(EG):] in HEAVY for c in cands) else ()
    if opaque and any(c["n"].startswith(EG + "DisjunctiveChaumPedersenProof") for c in cands):
        opaque = ()
    run = Run(ctx, f, opaque=opaque)
    ins = data_ins(run)
    best = None
    for g in cands:
        ps = pnames(g)
        m, left, rest = match([q for q in ps if q not in fixed], ins, run.types, None, ALIASES)
        if left:
            continue
        rest = [q for q in rest if not g["ps"][ps.index(q)].get("d")]
        if rest:
            continue
        if best is None or len(ps) < len(pnames(best[0])):
            best = (g, m)
    if best is None:
        ctx.undecide(n, ctx.loc(f), "no C++ overload with these parameters")
        return
    g, m = best
    ps = pnames(g)
    exp = None
    this = sym("handle") if g.get("cls") and not g.get("static") else None
    args = []
    for q in ps:
        if q in m:
            args.append(arg(m[q], run.names))
        elif q in fixed:
            x = fixed[q]
            args.append(None if x is None else num(x) if isinstance(x, int) else x)
        else:
            args.append(None)
    ip = engine(ctx, opaque)
    if domain.vocab(g["n"], g) and g["n"] != EG + "dynamicCopy":
        exp = app(g["n"], *(([this] if this is not None else []) + [default(ip, g["ps"][i].get("d")) if a is None else a for i, a in enumerate(args)])) if all(
            a is not None or default(ip, g["ps"][i].get("d")) is not None for i, a in enumerate(args)) else None
        return compare(ctx, n, f, g, run, exp)
    if g["n"][len(EG):] in opaque:
        heavy(ctx, n, f, g, run, ps, args, this)
        return
    # defaulted parameters
    defs = [q.get("d") for q in g["ps"]]
    for i, a in enumerate(args):
        if a is None:
            d = defs[i]
            args[i] = default(ip, d)
    if any(a is None for a in args):
        ctx.undecide(n, ctx.loc(f), "default argument of %s" % g["n"])
        return
    r = ip.run(g, args=args, this=this)
    exp = r.ret
    if exp is not None:
        exp = ip.reify(exp, r.st)
    compare(ctx, n, f, g, run, exp)


def default(ip, d):
    if not isinstance(d, dict):
        return None
    while d.get("k") in ("cast", "paren"):
        d = d["e"]
    if d.get("k") == "ctor" and len(d["a"]) == 1:
        return default(ip, d["a"][0])
    if d.get("k") == "bool":
        return boolean(d.get("v"))
    if d.get("k") == "null":
        return NULL
    if d.get("k") == "int":
        return num(int(d["v"]))
    if d.get("k") == "str":
        return string(d["v"])
    return None


def heavy(ctx, n, f, g, run, ps, args, this):
    """The C++ operation itself is not looked into: the C function calls it once, with the caller's arguments in their places."""
    for pc, v, st, ln in run.good:
        o = [x for x in run.outs if x != "out_size"]
        got = run.out(o[0], st) if run.status and o else v
        if got is None:
            ctx.bad("%s sets %s" % (n, o[0]), ctx.loc(f, ln), "success without a value")
            continue
        t = [x for x in subterms(got) if x.op == "app" and x.a[0] == g["n"]]
        if got.op == "app" and got.a[0] == g["n"]:
            t = [got]
        if len(t) != 1 or got is not t[0]:
            ctx.need(False, "%s is %s" % (n, g["n"][len(EG):]), ctx.loc(f, ln), show(got)[:200], about=[got])
            continue
        have = list(t[0].a[1:])
        if this is not None:
            ctx.need(have[0] is this, "%s works on the given object" % n, ctx.loc(f, ln), show(have[0])[:100], about=[have[0]])
            have = have[1:]
        for q, a, b in zip(ps, have, args):
            if b is None:
                continue
            ctx.need(same(a, b), "%s: %s" % (n, q), ctx.loc(f, ln), "%s instead of %s" % (show(ncanon(a))[:120], show(ncanon(b))[:120]), about=[a])


def compare(ctx, n, f, g, run, exp):
    for pc, v, st, ln in run.good:
        nulls = [x for x in conjuncts(pc)]
        got = v
        o = [x for x in run.outs if x != "out_size"]
        if run.status:
            if not o:
                continue
            got = run.out(o[0], st)
            if got is None:
                ctx.bad("%s sets %s" % (n, o[0]), ctx.loc(f, ln), "success without a value")
                continue
            t = run.types[o[0]]
            buf = None
            if t.startswith(("char **", "const char **")):
                s = text_of(ctx, n, ctx.loc(f, ln), got)
                buf, got = strip_heap(got), s
            elif t.startswith("unsigned char **"):
                s = bytes_of(ctx, n, ctx.loc(f, ln), got)
                buf, got = strip_heap(got), s
            if got is None:
                continue
            if "out_size" in run.outs and buf is not None:
                sz = run.out("out_size", st)
                ctx.need(sz is not None and same(sz, buf[2]), n + ": the size is that of the data", ctx.loc(f, ln), show(ncanon(sz))[:100] if sz is not None else "not set", about=[sz] if sz is not None else [])
        elif any(contains(x, lambda q: q.op == "nonnull" and q.a[0].op == "sym") and x.op == "not" or x.op == "or" for x in nulls) and got is FALSE:
            continue        # refusal of null arguments
        if exp is None:
            ctx.undecide(n, ctx.loc(f), "no value of " + g["n"])
            return
        e = exp
        if f["rt"] == "bool" and "valid_contest_return" in g["rt"]:
            e = run.ip.binop("==", exp, num(0))
        ctx.need(same(unwit(got), unwit(e)), "%s is %s" % (n, g["n"][len(EG):]), ctx.loc(f, ln), "%s instead of %s" % (show(ncanon(got))[:200], show(ncanon(e))[:200]), about=[got, e])


def unwit(t):
    return t


def status_texts(ctx):
    """Every status code has its own name as its text; codes beyond the last are unknown."""
    p = ctx.p
    e = [x for k, x in p.enums.items() if k.endswith("eg_electionguard_status_e") or k.endswith("eg_electionguard_status_t")]
    f = [x for x in p.funcs.values() if x["n"] == "eg_electionguard_get_status" and x.get("b") is not None]
    if not e or not f:
        ctx.undecide("status texts", "", "not found")
        return
    vals = [(x["n"].split("::")[-1], int(x["v"])) for x in e[0]["c"]]
    top = max(v for _, v in vals)
    for nm, v in vals + [("ELECTIONGUARD_STATUS_UNKNOWN", top + 1), ("ELECTIONGUARD_STATUS_UNKNOWN", top + 1000)]:
        ip = engine(ctx)
        ip.const_globals = True
        r = ip.run(f[0], args=[num(v)])
        got = ncanon(r.ret) if r.ret is not None else None
        ctx.need(got is not None and got.op == "str" and got.a[0] == nm, "text of status %d" % v, ctx.loc(f[0]), show(got) if got is not None else "none", about=[got] if got is not None else [])


@check("C18", "type-based exception flow over the call graph with try/catch, virtual dispatch and the throwing calls of the standard and JSON libraries",
       "no exception leaves a function of the C interface: every throw it can reach is caught by a handler of its type on the way; nothing rethrows outside a handler; a caught exception is never answered with success.")
def c18(ctx):
    from ..throws import Throws
    p = ctx.p
    th = Throws(p)
    fs = cfuncs(p)
    n = 0
    for f in fs:
        esc = th.sum[f["u"]]
        ctx.saw(f)
        ctx.part(f["n"], failure, ctx, f)
        if not esc:
            ctx.ok("%s lets no exception out" % f["n"], ctx.loc(f))
            continue
        for (t, origin), (ln, via) in sorted(esc.items(), key=str):
            if " at " in origin and "::at " in origin and guarded(f, ln):
                ctx.undecide("%s lets no exception out" % f["n"], ctx.loc(f, ln), "an index that is compared before it is used")
                continue
            what = "the process ends: a rethrow outside a handler" if t == "terminate" else "%s thrown at %s" % (t, origin)
            ctx.bad("%s lets no exception out" % f["n"], ctx.loc(f, ln), what + " via " + " -> ".join(th.chain(f, (t, origin))))
    ctx.tally("C functions", len(fs))
    ctx.tally("functions with an exception summary", len(th.sum))
    ctx.tally("throwing functions", sum(1 for s in th.sum.values() if s))
    ctx.tally("rounds to the fixed point", th.rounds)


def failure(ctx, f):
    """What a function answers after it caught an exception is a failure."""
    from ..prog import walk
    if f["rt"] != "bool" and "status" not in f["rt"] or not any(n.get("k") == "try" for n in walk(f["b"])):
        return
    run = Run(ctx, f, opaque=HEAVY)
    for pc, v, st, ln in run.r.rets:
        if any(x.op == "exc" for x in conjuncts(pc)) and v is not None:
            ctx.need(v is not (OK if run.status else TRUE), "%s reports a caught exception as a failure" % f["n"], ctx.loc(f, ln), "it returns %s" % show(v)[:60])


def guarded(f, ln):
    from ..prog import walk
    return any(n.get("k") in ("if", "cond") and any(x.get("k") == "call" and (x.get("n") or "").split("::")[-1] in ("size", "empty", "length", "find", "contains", "count")
                                                  for x in walk(n.get("c"))) for n in walk(f["b"]) if isinstance(n, dict))
