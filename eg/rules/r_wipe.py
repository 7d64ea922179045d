"""C17: elements are wiped when they are destroyed, derived keys when they have been used."""
from ..api import EG
from ..bn import *
from ..check import check
from ..prog import AnalysisBroken, strip_targs
from .r_group import Group, wid
from .r_secret import strip, walk

WIPE = ("Lib_Memzero0_memzero", "explicit_bzero", "memset_explicit", "memset_s", "SecureZeroMemory", "OPENSSL_cleanse", "sodium_memzero")


def wiper(mark):
    def f(ip, e, st):
        for x, vs in args(ip, e, st):
            p, n = vs[0], vs[-1]
            c = x.pinned(n) if isinstance(n, Poly) else None
            if c is None or not isinstance(p, Ptr):
                raise AnalysisBroken("a wipe of unknown extent")
            for i in range(0, c):
                ip.wr(Ptr(p.rid, p.off + num(i)), 1, mark, x, e)
            yield x, None
    return f


def destroy(ip, p, cls, ptr, st, seen):
    """Run the destructors of an object and of what it owns."""
    fns = [f for f in p.funcs.values() if f.get("b") and strip_targs(f["n"]).split("::")[-1].startswith("~") and f.get("cls") == cls]
    sts = [st]
    for f in fns[:1]:
        seen.append(f)
        sts = [y for x in sts for y, _ in ip.call(f, ptr, [], x, None)]
    rec = p.records.get(cls)
    for fl in ip.fields(rec) if rec else ():
        t = fl["t"]
        nxt = []
        for x in sts:
            o = x.mem.get(ptr.rid)
            q = o.f.get(fl["n"]) if isinstance(o, Obj) else None
            r = x.mem.get(q) if q is not None else None
            if "unique_ptr<" in t or "shared_ptr<" in t:
                c = targ(cv(t))[0]
                if isinstance(r, Val) and isinstance(r.v, Ptr) and r.v.rid in x.mem:
                    nxt += destroy(ip, p, c, r.v, x, seen)
                    continue
            elif isinstance(r, Obj):
                nxt += destroy(ip, p, r.cls, Ptr(q), x, seen)
                continue
            nxt.append(x)
        sts = nxt
    return sts


@check("C17", "abstract interpretation of the destructors over the bytes of the object; scope analysis of the buffers that hold derived keys",
       "after the destructors of an element every byte of its limbs has been overwritten by a call that may not be optimised away; a derived key is overwritten whole before its scope ends or is left.")
def c17(ctx):
    g = Group(ctx)
    for cls in ("ElementModP", "ElementModQ"):
        ctx.part(cls, element, ctx, g, cls)
    ctx.part("keys", keys, ctx)


def element(ctx, g, cls):
    W = 0x5A
    what = "%s: every byte is wiped when it is destroyed" % cls
    ip = g.ip()
    for n in WIPE:
        ip.models[n] = wiper(num(W))
    st = St()
    v = sym("v", 0, (1 << (64 * wid(cls))) - 1)
    o, st = g.elem(ip, cls, v, st)
    (st, limbs), = ip.call(find_get(ctx, cls), o, [], st, None)
    seen = []
    outs = destroy(ip, ctx.p, EG + cls, o, st, seen)
    g.seen(ip)
    ctx.functions |= {f["n"] for f in seen}
    fs = ctx.p.fn(EG + cls + "::~" + cls)
    where = ctx.loc(seen[-1]) if seen else ctx.loc(fs[0]) if fs else ctx.loc(find_get(ctx, cls))
    n = 8 * wid(cls)
    for key, (f, line, text) in sorted(ip.oob.items(), key=str):
        if key[2]:
            ctx.bad("%s: the wipe stays inside the element" % cls, ctx.loc(f, line) if f else where, text, key=cls + " oob")
    for x in outs:
        left, soft = [], []
        for i in range(n):
            b = ip.rd(Ptr(limbs.rid, limbs.off + num(i)), 1, x)
            c = b.const()
            if c == W:
                continue
            (soft if c == 0 else left).append(i)
        if left:
            ctx.bad(what, where, "%d of its %d bytes are left as they were, from byte %d on" % (len(left), n, left[0]), key=what)
        elif soft:
            if any("volatile" in (e.get("t") or "") for f in seen for e in walk(f["b"])):
                ctx.undecide(what, where, "cleared through volatile accesses")
            else:
                ctx.bad(what, where, "cleared by stores to a dying object, which the compiler removes", key=what)
        else:
            ctx.ok(what, where)
    if not outs:
        ctx.undecide(what, where, "the destructors do not return")


def find_get(ctx, cls):
    fs = [f for f in ctx.p.fn(EG + cls + "::get") if not f["ps"]]
    if not fs:
        raise AnalysisBroken(cls + "::get")
    return fs[0]


# ------------------------------------------------------------------------------------------------ derived keys
def var(e):
    """The local a value is, through references, pointers to its front and the like."""
    e = strip(e)
    while e["k"] == "sub" or e["k"] == "call" and e.get("o") is not None and strip_targs(e["n"]).split("::")[-1] in ("front", "data", "begin", "operator[]", "at"):
        e = strip(e["a"] if e["k"] == "sub" else e["o"])
    return e.get("id") if e["k"] == "ref" and e.get("dk") in ("local", "param") else None


def mentions(e, i):
    return any(x["k"] == "ref" and x.get("id") == i for x in walk(e))


def wipes(p, fn, e, i, depth=0):
    """A call that overwrites the whole of variable i: True, a part of it: the text of what is wrong, else None."""
    if e["k"] != "call":
        return None
    n = e.get("n") or ""
    if n in WIPE and e["a"] and var(e["a"][0]) == i:
        ln = e["a"][-1]
        while ln["k"] in ("cast", "paren"):
            ln = ln["e"]
        a0 = e["a"][0]
        start = next((x for x in walk(a0) if x["k"] in ("bin",)), None) is None and not any(x["k"] in ("sub",) or x["k"] == "call" and x.get("op") == "[]" for x in walk(a0)
                                                                                         if (strip_int(x) or 0) != 0)
        if ln["k"] == "call" and strip_targs(ln["n"]).split("::")[-1] == "size" and var(ln["o"]) == i:
            return True if start else "it starts behind the first byte"
        if ln["k"] == "int":
            return True if int(ln["v"]) >= 32 and start else "%s of its 32 bytes are overwritten" % ln["v"]
        if ln["k"] == "sizeof" or ln["k"] == "bin" and ln.get("op") in ("/", "-", ">>", "%"):
            return "its extent is not the size of the buffer"
        return ("?",)
    fn2 = p.lookup(e.get("f", ""), fn.get("file")) or p.lookup(e.get("f", ""))
    if fn2 is not None and fn2.get("b") and depth < 3:
        for j, a in enumerate(e["a"]):
            if j < len(fn2["ps"]) and var(a) == i:
                t, q = fn2["ps"][j]["t"].rstrip(), fn2["ps"][j]["id"]
                if t.endswith("&") and not t.startswith("const"):
                    r = covers(p, fn2, fn2["b"], q, depth + 1)
                    if r:
                        return r
                    if any(x["k"] == "call" and x.get("n") in WIPE for x in walk(fn2["b"])):
                        return ("?",)
                elif t.endswith("*") and any(x["k"] == "call" and x.get("n") in WIPE for x in walk(fn2["b"])):
                    return ("?",)
    return None


def covers(p, fn, s, i, depth=0):
    """Every way through the statement overwrites variable i (True), as wipes otherwise."""
    if s["k"] == "call":
        return wipes(p, fn, s, i, depth)
    if s["k"] == "block":
        for x in s["c"]:
            r = covers(p, fn, x, i, depth)
            if r:
                return r
    if s["k"] == "if":
        a, b = covers(p, fn, s["a"], i, depth), covers(p, fn, s["b"], i, depth) if s.get("b") else None
        if a and b:
            return a if a is not True else b
        if a is True and own(s["c"], i):
            return True         # nothing to overwrite otherwise
    return None


def own(c, i):
    """A condition about the buffer alone (whether it is empty)."""
    rs = [x for x in walk(c) if x["k"] == "ref" and x.get("dk") in ("local", "param")]
    return bool(rs) and all(x.get("id") == i for x in rs)


def strip_int(x):
    b = x.get("b") if x["k"] == "sub" else (x.get("a") or [None])[0]
    while isinstance(b, dict) and b["k"] in ("cast", "paren"):
        b = b["e"]
    return int(b["v"]) if isinstance(b, dict) and b["k"] == "int" else 1 if b is not None else 0


def key_sources(p):
    """get_hmac, and functions that return what it returns."""
    out = {EG + "get_hmac"}
    for _ in range(3):
        for f in p.funcs.values():
            if f.get("b") and f["n"] not in out and "vector<unsigned char" in f.get("rt", ""):
                rs = [s for s in walk(f["b"]) if s["k"] == "ret" and s.get("e")]
                if rs and all(src(s["e"], out) for s in rs):
                    out.add(f["n"])
    return out


def src(e, names):
    e = strip(e)
    return e["k"] == "call" and strip_targs(e.get("n") or "") in names


def keys(ctx):
    p = ctx.p
    names = key_sources(p)
    n = 0
    for f in sorted((f for f in p.funcs.values() if f.get("b") and "karamel" not in f.get("file", "")), key=lambda f: (f["file"], f["line"] if "line" in f else f.get("l", 0))):
        for blk in walk(f["b"]):
            if blk["k"] != "block":
                continue
            for k, s in enumerate(blk["c"]):
                if s["k"] != "decl":
                    continue
                for v in s["vars"]:
                    if v.get("i") is not None and "vector<" in v.get("t", "") and src(v["i"], names) and used_as_key(v["id"], blk["c"][k + 1:]):
                        n += 1
                        ctx.functions.add(f["n"])
                        scope(ctx, p, f, v, blk["c"][k + 1:])
    if not n:
        ctx.undecide("derived keys are wiped", "src/electionguard", "no buffer that holds a derived key was found")


def used_as_key(i, rest):
    for e in walk(rest):
        if e["k"] in ("bin", "asg") and e.get("op") in ("^", "^=") and mentions(e, i):
            return True
        if e["k"] == "call" and strip_targs(e.get("n") or "") == EG + "get_hmac" and e["a"] and var(e["a"][0]) == i:
            return True
    return False


def scope(ctx, p, f, v, rest):
    what = "%s: the derived key '%s' is wiped after its use" % (strip_targs(f["n"]).replace(EG, ""), v["n"])
    where = ctx.loc(f, v.get("l"))
    done = False
    for s in rest:
        if done and mentions(s, v["id"]) and not any(wipes(p, f, e, v["id"]) is True for e in walk(s)):
            if any(e["k"] == "asg" and var(e["a"]) == v["id"] for e in walk(s)):
                done = False
        w = covers(p, f, s, v["id"]) if s["k"] in ("call", "if", "block") else None
        if isinstance(w, str):
            ctx.bad(what, ctx.loc(f, s.get("l")), w, key=what)
            return
        if isinstance(w, tuple):
            ctx.undecide(what, where, "the extent of the wipe is not resolved")
            return
        if w:
            done = True
            continue
        if not done:
            if s["k"] == "if" and not s.get("b") and own(s["c"], v["id"]) and any(e["k"] in ("ret", "throw") for e in walk(s["a"])):
                c = strip(s["c"])
                if c["k"] == "call" and strip_targs(c["n"]).split("::")[-1] == "empty":
                    continue        # there is nothing to wipe on that path
                ctx.undecide(what, where, "the scope is left under a condition on the buffer itself")
                return
            for e in walk(s):
                if e["k"] == "ret" or e["k"] == "throw":
                    if e["k"] == "ret" and e.get("e") and var(e["e"]) == v["id"]:
                        ctx.undecide(what, where, "it is returned")
                        return
                    if any(wipes(p, f, x, v["id"]) is True for x in walk(s)):
                        ctx.undecide(what, where, "it is wiped on some of the paths through a statement that leaves")
                        return
                    ctx.bad(what, ctx.loc(f, e.get("l") or s.get("l")), "the scope is left here before it is wiped", key=what)
                    return
    if done:
        ctx.ok(what, where)
    elif [1 for s in rest for e in walk(s) if wipes(p, f, e, v["id"]) is True] == [1] and any(s["k"] == "if" and not s.get("b") and covers(p, f, s["a"], v["id"]) is True for s in rest):
        ctx.bad(what, where, "it is overwritten under a condition only", key=what)
    elif any(wipes(p, f, e, v["id"]) is True for s in rest for e in walk(s)):
        ctx.undecide(what, where, "it is wiped on some paths")
    elif any(e["k"] == "ctor" or e["k"] == "call" and strip_targs(e.get("n") or "").split("::")[-1] in ("move", "swap") for s in rest for e in walk(s) if mentions(e, v["id"]) and e["k"] == "call"):
        ctx.undecide(what, where, "it is moved elsewhere")
    else:
        ctx.bad(what, where, "it is never overwritten", key=what)
