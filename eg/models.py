"""Models of the library calls the code base uses (std, nlohmann, logging)."""
import re

from .prog import strip_targs
from .terms import *

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def val(ip, e, st):
    v = ip.eval(e, st)
    if v.op == "addr":
        v = ip.read(v.a[0], st)
    return v


def objloc(ip, e, st):
    o = e["o"]
    l = ip.lval(o, st)
    return ip.resolve(l) if l is not None else None


def real_args(e):
    return [a for a in e["a"] if a["k"] != "defarg"]


@model("std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const",
       "std::__addressof", "std::static_pointer_cast", "std::dynamic_pointer_cast", "std::const_pointer_cast",
       "std::move_if_noexcept", "std::make_optional", "std::any_cast")
def _ident(ip, e, st):
    return ip.eval(e["a"][0], st)


@model("std::make_unique", "std::make_shared")
def _make(ip, e, st):
    cls = e.get("mk", "")
    args = e["a"]
    if cls in ip.p.records or cls.startswith("electionguard::"):
        fn = ip.p.lookup(e.get("ctor", "")) if e.get("ctor") else None
        if fn is None:
            fn = guess_ctor(ip, cls, args)
        rec = ip.p.records.get(cls)
        # copy / move construction
        if len(args) == 1 and (fn is None or fn.get("special") in ("copyctor", "movector")):
            at = args[0].get("t", "").replace("const ", "").rstrip("& ")
            if at == cls or (fn is not None and fn.get("special")):
                if cls not in ip.no_copy_identity:
                    v = val(ip, args[0], st)
                    if v.op == "obj":
                        return ip.copyobj(v, st) if "move" not in strip_targs(args[0].get("n", "")) else v
                    return v
        vals = ip.args(args, fn, st)
        if st.dead:
            return unk("dead")
        return ip.construct(cls, fn, vals, st, e)
    vals = [val(ip, a, st) for a in args]
    if len(vals) == 1:
        return vals[0]
    if not vals:
        return ip.default_value(cls)
    return app("new " + cls, *[ip.reify(v, st) for v in vals])


def guess_ctor(ip, cls, args):
    short = cls.split("::")[-1]
    c = [f for f in ip.p.fn(strip_targs(cls) + "::" + short.split("<")[0]) if f.get("ctor") and len(f["ps"]) >= len(args)]
    c = [f for f in c if len(f["ps"]) == len(args) or f["ps"][len(args)].get("d")]

    def norm(t):
        return t.replace("const ", "").replace("&", "").strip()
    best = [f for f in c if all(norm(p["t"]) == norm(a.get("t", "")) for p, a in zip(f["ps"], args))]
    if best:
        return best[0]
    return c[0] if len(c) == 1 else None


@model("*::operator->")
def _arrow(ip, e, st):
    v = val(ip, e["o"], st)
    if v.op == "app" and v.a[0] == "iter":
        return v.a[1]
    if v.op == "app" and v.a[0] == "find":
        return app("first", v.a[1], v.a[2], v.a[3], T("bv", v.a[1].a[0]))
    if v.op == "app" and v.a[0] == "mapfind":
        r = maplook(ip, v)
        if r:
            return app("tuple", v.a[2], r[1])
    return v


@model("*::operator*")
def _star(ip, e, st):
    if e.get("o") is not None and not e["a"]:
        v = val(ip, e["o"], st)
        if v.op == "app" and v.a[0] == "iter":
            return v.a[1]
        if v.op == "app" and v.a[0] == "find":
            return app("first", v.a[1], v.a[2], v.a[3], T("bv", v.a[1].a[0]))
        if v.op == "app" and v.a[0] == "begin":
            return app("front", v.a[1])
        return v
    a = [val(ip, x, st) for x in ([e["o"]] if e.get("o") else []) + e["a"]]
    return ip.arith("*", a[0], a[1])


@model("*::operator bool")
def _bool(ip, e, st):
    return ip.nonnull(val(ip, e["o"], st))


@model("std::reference_wrapper::get", "std::unique_ptr::get", "std::shared_ptr::get", "std::__shared_ptr::get",
       "std::optional::value", "std::basic_string::c_str", "std::basic_string::data", "std::basic_string::str",
       "std::vector::data", "std::array::data", "std::__shared_ptr_access::get",
       "std::basic_string::operator basic_string_view", "std::chrono::duration::count",
       "std::chrono::time_point::time_since_epoch")
def _get(ip, e, st):
    v = val(ip, e["o"], st)
    if v.op == "app" and v.a[0] == "iter":
        return v.a[1]
    return v


@model("std::reference_wrapper::operator")
def _refconv(ip, e, st):
    return val(ip, e["o"], st)


@model("std::unique_ptr::release", "std::basic_string::release")
def _release(ip, e, st):
    l = objloc(ip, e, st)
    v = val(ip, e["o"], st)
    if l is not None:
        ip.write(l, NULL, st)
    return v


@model("std::unique_ptr::reset", "std::shared_ptr::reset", "std::__shared_ptr::reset")
def _reset(ip, e, st):
    l = objloc(ip, e, st)
    a = real_args(e)
    v = ip.eval(a[0], st) if a else NULL
    if l is not None:
        ip.write(l, v, st)
    return unk("void")


@model("std::unique_ptr::swap", "std::shared_ptr::swap", "std::vector::swap", "std::basic_string::swap")
def _mswap(ip, e, st):
    l = objloc(ip, e, st)
    r = ip.lval(e["a"][0], st)
    return _doswap(ip, l, ip.resolve(r) if r is not None else None, st)


def _doswap(ip, l, r, st):
    if l is None or r is None:
        return unk("swap")
    a, b = ip.read(l, st), ip.read(r, st)
    ip.write(l, b, st)
    ip.write(r, a, st)
    return unk("void")


@model("std::swap")
def _swap(ip, e, st):
    l, r = ip.lval(e["a"][0], st), ip.lval(e["a"][1], st)
    return _doswap(ip, ip.resolve(l) if l is not None else None, ip.resolve(r) if r is not None else None, st)


@model("std::exchange")
def _exchange(ip, e, st):
    l = ip.lval(e["a"][0], st)
    v = ip.read(l, st) if l is not None else unk("exchange")
    n = val(ip, e["a"][1], st)
    if l is not None:
        ip.write(ip.resolve(l), n, st)
    return v


# ---------------------------------------------------------------- containers

def _pushval(ip, e, st):
    a = real_args(e)
    vs = [val(ip, x, st) for x in a]
    if len(vs) == 1:
        return vs[0]
    return app("tuple", *vs)


@model("std::vector::push_back", "std::vector::emplace_back", "std::deque::push_back", "std::list::push_back",
       "std::queue::push", "std::deque::emplace_back", "std::set::insert", "std::unordered_set::insert",
       "std::set::emplace", "std::queue::emplace")
def _push(ip, e, st):
    l = objloc(ip, e, st)
    name = strip_targs(e["n"])
    ety = _elemtype(e["o"].get("t", ""))
    a = real_args(e)
    if name.endswith("emplace_back") and ety and (ety in ip.p.records) and not (
            len(a) == 1 and a[0].get("t", "").replace("const ", "").rstrip("& ") == ety):
        from .models import guess_ctor
        fn = guess_ctor(ip, ety, a)
        v = ip.construct(ety, fn, ip.args(a, fn, st), st, e)
    else:
        v = _pushval(ip, e, st)
    if st.dead:
        return unk("dead")
    if l is None:
        return unk("push")
    old = ip.read(l, st)
    if old.op in ("null", "unk"):
        old = EMPTY
    ip.write(l, append(old, T("one", v)), st)
    if "set::" in name:     # (where it is, whether it was not there before)
        return app("tuple", unk("iterator"), neg(app("contains", ip.reify(old, st), ip.reify(v, st))))
    return unk("void")


def _elemtype(t):
    t = t.replace("const ", "")
    if t.startswith("std::vector<"):
        inner = t[len("std::vector<"):]
        d = 0
        for i, c in enumerate(inner):
            if c == "<":
                d += 1
            elif c == ">":
                d -= 1
                if d < 0:
                    return inner[:i]
            elif c == "," and d == 0:
                return inner[:i]
    return None


@model("std::vector::insert", "std::basic_string::insert")
def _insert(ip, e, st):
    l = objloc(ip, e, st)
    a = [val(ip, x, st) for x in real_args(e)]
    a = [x.a[1] if x.op == "app" and str(x.a[0]).endswith("__normal_iterator") and len(x.a) == 2 else x for x in a]
    old = ip.read(l, st) if l is not None else unk("insert")
    new = None
    if len(a) == 3 and a[0].op == "app" and a[0].a[0] == "end":
        r = ptr_range(a[1], a[2])
        if r is not None:
            new = append(old if old.op not in ("null", "unk") else EMPTY, r)
        elif (old.op in ("null", "unk") or old is EMPTY) and len(e["a"]) == 3 and "*" in e["a"][1].get("t", ""):
            new = app("std::vector", a[1], a[2])
    if len(a) == 3 and a[1].op == "app" and a[1].a[0] == "begin" and a[2].op == "app" and a[2].a[0] == "end" and a[1].a[1] is a[2].a[1]:
        if a[0].op == "app" and a[0].a[0] == "end":
            new = append(old if old.op not in ("null", "unk") else EMPTY, T("splice", a[1].a[1]))
        elif a[0].op == "app" and a[0].a[0] == "begin":
            new = mkseq([T("splice", a[1].a[1])] + list(pieces(old)))
    elif len(a) == 2 and a[0].op == "app" and a[0].a[0] == "end":
        new = append(old, T("one", a[1]))
    elif len(a) == 2 and a[0].op == "app" and a[0].a[0] == "begin":
        new = mkseq([T("one", a[1])] + list(pieces(old)))
    if new is None:
        new = app("insert", old, *a)
    if l is not None:
        ip.write(l, new, st)
    return unk("void")


def _offset(p):
    """(base, offset) of a pointer built by adding to the address of a vector's first element or of a variable."""
    if p.op == "app" and p.a[0] == "+" and len(p.a) == 3:
        for i in (1, 2):
            if p.a[i].op == "app" and p.a[i].a[0] == "front":
                return p.a[i], p.a[3 - i]
        for i in (1, 2):
            if p.a[3 - i].op == "int":
                return p.a[i], p.a[3 - i]
    if p.op == "int":
        return p, num(0)
    return p, num(0)


def ptr_range(lo, hi):
    """A piece for the bytes [lo, hi)."""
    if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] in (1, 2, 4, 8):
        return T("one", app("bytes", lo, num(hi.a[0] - lo.a[0])))
    b1, o1 = _offset(lo)
    b2, o2 = _offset(hi)
    if b1 is not b2 or o1 is o2:
        return None
    if b1.op == "app" and b1.a[0] == "front":
        return T("splice", app("slice", b1.a[1], o1, o2))
    if o1 is num(0) and o2.op == "int":
        return T("one", app("bytes", b1, o2))
    return None


@model("std::map::insert", "std::unordered_map::insert", "std::map::emplace", "std::unordered_map::emplace",
       "std::map::insert_or_assign", "std::unordered_map::insert_or_assign", "std::map::try_emplace",
       "std::unordered_map::try_emplace")
def _minsert(ip, e, st):
    l = objloc(ip, e, st)
    a = [val(ip, x, st) for x in real_args(e)]
    nm = strip_targs(e["n"]).split("::")[-1]
    if len(a) == 1 and a[0].op == "app" and a[0].a[0] == "tuple" and len(a[0].a) == 3:
        k, v = a[0].a[1], a[0].a[2]
    elif len(a) == 1 and a[0].op == "seq" and len(a[0].a) == 2 and all(p.op == "one" for p in a[0].a):
        k, v = a[0].a[0].a[0], a[0].a[1].a[0]
    elif len(a) == 2:
        k, v = a
    else:
        k, v = unk("key"), unk("value")
    if l is not None:
        old = ip.read(l, st)
        if old.op in ("null", "unk"):
            old = EMPTY
        ip.write(l, append(old, T("kv" if nm == "insert_or_assign" else "kvnew", k, v)), st)
    return unk("void")


@model("std::vector::reserve", "std::basic_string::reserve", "std::vector::shrink_to_fit")
def _noop(ip, e, st):
    for a in e["a"]:
        ip.eval(a, st)
    return unk("void")


@model("std::vector::clear", "std::map::clear", "std::basic_string::clear", "std::unordered_map::clear")
def _clear(ip, e, st):
    l = objloc(ip, e, st)
    if l is not None:
        ip.write(l, EMPTY if "string" not in e["n"] else string(""), st)
    return unk("void")


def size_of(v):
    if v.op == "seq" and all(p.op == "one" for p in v.a):
        return num(len(v.a))
    if v.op == "str":
        return num(len(v.a[0]))
    if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "each" and len(v.a[0].a[2].a) == 1 and v.a[0].a[2].a[0].op in ("one", "kv") and v.a[0].a[3] is FALSE:
        return app("size", v.a[0].a[1])
    if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "splice":
        return app("size", v.a[0].a[0])
    return app("size", v)


@model("*::size", "*::length")
def _size(ip, e, st):
    o = e["o"] if e.get("o") is not None else e["a"][0]
    v = val(ip, o, st)
    t = o.get("t", "").replace("const ", "")
    if t.startswith(("std::set<", "std::unordered_set<")) and not (v.op == "seq" and len(v.a) < 2 and all(p.op == "one" for p in v.a)):
        return app("distinct", ip.reify(v, st))
    return size_of(v)


@model("*::empty")
def _empty(ip, e, st):
    v = val(ip, e["o"] if e.get("o") is not None else e["a"][0], st)
    s = size_of(v)
    return ip.eq(s, num(0))


@model("*::begin", "*::cbegin")
def _begin(ip, e, st):
    return app("begin", ip.reify(val(ip, e["o"] if e.get("o") is not None else e["a"][0], st), st))


@model("*::end", "*::cend")
def _end(ip, e, st):
    return app("end", ip.reify(val(ip, e["o"] if e.get("o") is not None else e["a"][0], st), st))


@model("*::rbegin", "*::crbegin")
def _rbegin(ip, e, st):
    return app("rbegin", val(ip, e["o"] if e.get("o") is not None else e["a"][0], st))


@model("*::rend", "*::crend")
def _rend(ip, e, st):
    return app("rend", val(ip, e["o"] if e.get("o") is not None else e["a"][0], st))


@model("*::front")
def _front(ip, e, st):
    return app("front", val(ip, e["o"], st))


@model("*::back")
def _back(ip, e, st):
    return app("back", val(ip, e["o"], st))


@model("*::at", "*::operator[]")
def _at(ip, e, st):
    if ip.indexed is not None and (e.get("n") or "").endswith("operator[]"):
        ip.indexing(e, st)
    if (e.get("n") or "").startswith(("std::map<", "std::unordered_map<", "std::map::", "std::unordered_map::")) and strip_targs(e["n"]).endswith("::at"):
        x = _mfind(ip, e, st)
        if x.op == "app" and x.a[0] == "tuple":
            return x.a[2]
    l = ip.lval(e, st)
    if l is not None:
        return ip.read(l, st)
    b = val(ip, e["o"], st)
    return ip.index(b, val(ip, e["a"][0], st), st)


@model("*::count", "*::contains")
def _count(ip, e, st):
    if e.get("o") is None or not e["a"]:
        return app(strip_targs(e["n"]), *[val(ip, x, st) for x in e["a"]])
    b = val(ip, e["o"], st)
    k = val(ip, e["a"][0], st)
    if b.op == "seq" and k.op == "str" and all(p.op == "kv" and p.a[0].op == "str" for p in b.a):
        return boolean(any(p.a[0] is k for p in b.a))
    b = ip.reify(b, st)
    if "map" in (e.get("n") or ""):
        r = maplook(ip, app("mapfind", b, k))
        if r:
            return r[0]
    return app("contains", b, k)


@model("std::map::find", "std::unordered_map::find", "std::set::find")
def _mfind(ip, e, st):
    b = val(ip, e["o"], st)
    k = val(ip, e["a"][0], st)
    b = ip.reify(b, st)
    if b.op == "seq" and k.op in ("int", "str") and all(
            p.op == "one" and p.a[0].op == "app" and p.a[0].a[0] == "tuple" and p.a[0].a[1].op == k.op for p in b.a):
        for p in b.a:
            if p.a[0].a[1] is k:
                return p.a[0]
        return app("end", b)
    return app("mapfind", b, k)


def maplook(ip, m):
    """A lookup in a map that one loop filled: (found, value), or None."""
    b, k = m.a[1], m.a[2]
    if b.op != "seq" or len(b.a) != 1 or b.a[0].op != "each" or b.a[0].a[3] is not FALSE:
        return None
    h, coll, body = b.a[0].a[0], b.a[0].a[1], b.a[0].a[2]
    if body.op != "seq" or len(body.a) != 1 or body.a[0].op not in ("kv", "kvnew") or not isinstance(body.a[0].a[0], T):
        return None
    ip.nloop += 1
    el = T("elem", ip.nloop, coll)
    kk, v = (subst(x, {T("bv", h): el}) for x in body.a[0].a)
    c = ip.eq(kk, k)
    h2, (c2, v2) = bind(el, c, v)
    return T("exists", h2, coll, c2), app("first" if body.a[0].op == "kvnew" else "last", num(h2), coll, c2, v2)


# ---------------------------------------------------------------- operators

@model("*::operator==", "*::operator!=", "*::operator<", "*::operator>", "*::operator<=", "*::operator>=")
def _cmp(ip, e, st):
    xs = [val(ip, x, st) for x in ([e["o"]] if e.get("o") is not None else []) + e["a"]]
    if st.dead:
        return unk("dead")
    a, b = ip.reify(xs[0], st), ip.reify(xs[1], st)
    op = e.get("op") or strip_targs(e["n"]).split("operator")[-1]
    if op in ("==", "!="):
        for x, y in ((a, b), (b, a)):
            if x.op == "app" and x.a[0] == "tuple" and y.op == "app" and y.a[0] == "end":
                return boolean(op == "!=")
            if x.op == "app" and x.a[0] == "mapfind" and y.op == "app" and y.a[0] == "end":
                r = maplook(ip, x)
                c = r[0] if r else app("contains", x.a[1], x.a[2])
                return c if op == "!=" else neg(c)
    return ip.binop(op, a, b)


@model("*::operator+")
def _plus(ip, e, st):
    xs = [val(ip, x, st) for x in ([e["o"]] if e.get("o") is not None else []) + e["a"]]
    out = []
    for x in xs:
        x = ip.reify(x, st)
        if x.op == "app" and x.a[0] == "concat":
            out.extend(x.a[1:])
        else:
            out.append(x)
    if "string" in e.get("t", ""):
        out = [x for x in out if not (x.op == "str" and x.a[0] == "")] or [string("")]
        m = []
        for x in out:
            if m and m[-1].op == "str" and x.op == "str":
                m[-1] = string(m[-1].a[0] + x.a[0])
            else:
                m.append(x)
        return app("concat", *m) if len(m) > 1 else m[0]
    if len(xs) == 2:
        return ip.arith("+", xs[0], xs[1])
    return xs[0]


@model("*::operator-", "*::operator/", "*::operator%")
def _minus(ip, e, st):
    xs = [val(ip, x, st) for x in ([e["o"]] if e.get("o") is not None else []) + e["a"]]
    if len(xs) == 2:
        return ip.arith(e["op"], xs[0], xs[1])
    return app("neg", xs[0])


@model("*::operator+=", "std::basic_string::append")
def _pluseq(ip, e, st):
    tgt = e["o"] if e.get("o") is not None else e["a"][0]
    arg = e["a"][0] if e.get("o") is not None else e["a"][1]
    l = ip.lval(tgt, st)
    old = ip.read(l, st) if l is not None else val(ip, tgt, st)
    v = val(ip, arg, st)
    out = []
    for x in (old, v):
        if x.op == "app" and x.a[0] == "concat":
            out.extend(x.a[1:])
        elif not (x.op == "str" and x.a[0] == ""):
            out.append(x)
    if l is not None and "string" in tgt.get("t", ""):
        n = app("concat", *out) if len(out) > 1 else (out[0] if out else string(""))
    else:
        n = ip.arith("+", old, v)
    if l is not None:
        ip.write(ip.resolve(l), n, st)
    return n


@model("*::operator=")
def _assign(ip, e, st):
    l = objloc(ip, e, st)
    v = val(ip, e["a"][0], st)
    if l is not None:
        ip.write(l, v, st)
        return T("addr", l) if l.op != "val" else v
    return v


@model("*::operator++", "*::operator--")
def _inc(ip, e, st):
    tgt = e["o"] if e.get("o") is not None else e["a"][0]
    l = ip.lval(tgt, st)
    old = ip.read(l, st) if l is not None else val(ip, tgt, st)
    n = app("next" + e.get("op", "++"), old)
    if l is not None:
        ip.write(ip.resolve(l), n, st)
    return n


@model("*::operator<<")
def _shl(ip, e, st):
    tgt = e["o"] if e.get("o") is not None else e["a"][0]
    arg = e["a"][0] if e.get("o") is not None else e["a"][1]
    l = ip.lval(tgt, st)
    old = ip.read(l, st) if l is not None else val(ip, tgt, st)
    v = ip.reify(val(ip, arg, st), st)
    n = app("<<", ip.reify(old, st), v)
    if l is not None:
        ip.write(ip.resolve(l), n, st)
        return T("addr", ip.resolve(l)) if ip.resolve(l).op != "val" else n
    return n


@model("std::to_string")
def _tostr(ip, e, st):
    return app("to_string", val(ip, e["a"][0], st))


@model("std::make_pair", "std::make_tuple", "std::forward_as_tuple")
def _pair(ip, e, st):
    return app("tuple", *[val(ip, x, st) for x in e["a"]])


@model("std::get")
def _stdget(ip, e, st):
    v = val(ip, e["a"][0], st)
    import re
    m = re.search(r"#V[a-z]*(\d+)", e.get("f", ""))
    if m and ("tuple" in e["a"][0].get("t", "") or "pair" in e["a"][0].get("t", "")):
        return ip.tuple_get(v, int(m.group(1)))
    return app("std::get", v, string(e.get("t", "")))


# ---------------------------------------------------------------- algorithms

def _range(ip, e, st, i=0):
    a, b = val(ip, e["a"][i], st), val(ip, e["a"][i + 1], st)
    if a.op == "app" and b.op == "app" and a.a[0] == "begin" and b.a[0] == "end" and a.a[1] is b.a[1]:
        return a.a[1]
    if a.op == "app" and b.op == "app" and a.a[0] == "rbegin" and b.a[0] == "rend" and a.a[1] is b.a[1]:
        return app("reversed", a.a[1])
    return app("iterrange", a, b)


def _pred_loop(ip, e, st, kind):
    coll = _range(ip, e, st)
    f = ip.eval(e["a"][2], st)
    acc = {"v": None}
    loc = T("var", ip.frame()["id"], -(ip.nloop + 1000), "acc")
    st.S[loc] = FALSE

    def setvar(el, x):
        acc["el"] = el

    def body(x):
        r = ip.tobool(ip.call_value(f, [acc["el"]], x, e))
        if kind == "all":
            r = neg(r)
        x.S[loc] = disj(x.S[loc], r)
    ip.over(coll, setvar, body, st)
    r = st.S.pop(loc, FALSE)
    return neg(r) if kind in ("all", "none") else r


@model("std::all_of")
def _all_of(ip, e, st):
    return _pred_loop(ip, e, st, "all")


@model("std::any_of")
def _any_of(ip, e, st):
    return _pred_loop(ip, e, st, "any")


@model("std::none_of")
def _none_of(ip, e, st):
    return _pred_loop(ip, e, st, "none")


@model("std::find_if", "std::find_if_not")
def _find_if(ip, e, st):
    coll = _range(ip, e, st)
    f = ip.eval(e["a"][2], st)
    ip.nloop += 1
    el = T("elem", ip.nloop, coll)
    c = ip.tobool(ip.call_value(f, [el], st, e))
    if e["n"].endswith("_not"):
        c = neg(c)
    h, (c2,) = bind(el, c)
    return app("find", num(h), coll, c2)


@model("std::find")
def _find(ip, e, st):
    coll = _range(ip, e, st)
    v = val(ip, e["a"][2], st)
    ip.nloop += 1
    el = T("elem", ip.nloop, coll)
    c = ip.eq(el, v)
    h, (c2,) = bind(el, c)
    return app("find", num(h), coll, c2)


@model("std::for_each")
def _for_each(ip, e, st):
    coll = _range(ip, e, st)
    f = ip.eval(e["a"][2], st)
    h = {}
    ip.over(coll, lambda el, x: h.__setitem__("el", el), lambda x: ip.call_value(f, [h["el"]], x, e), st)
    return f


@model("std::transform")
def _transform(ip, e, st):
    if len(e["a"]) != 4:
        return unk("transform2")
    coll = _range(ip, e, st)
    out = ip.eval(e["a"][2], st)
    f = ip.eval(e["a"][3], st)
    h = {}

    def body(x):
        v = ip.plain(ip.call_value(f, [h["el"]], x, e), x)
        if out.op == "app" and out.a[0] == "inserter":
            l = out.a[1]
            ip.write(l, append(_e(ip.read(l, x)), T("one", v)), x)
    ip.over(coll, lambda el, x: h.__setitem__("el", el), body, st)
    return unk("void")


def _e(v):
    return EMPTY if v.op in ("null", "unk") else v


@model("std::back_inserter", "std::inserter")
def _bi(ip, e, st):
    l = ip.lval(e["a"][0], st)
    return app("inserter", ip.resolve(l)) if l is not None else unk("inserter")


def _filled(old, coll):
    """std::vector(n) overwritten from p to p + n is the vector of that range."""
    if old.op == "app" and old.a[0] == "std::vector" and len(old.a) == 2 and coll.op == "app" and coll.a[0] == "iterrange":
        a, b = coll.a[1:3]
        if b is app("+", a, old.a[1]) or b is app("+", old.a[1], a):
            return app("std::vector", a, b)
    return None


@model("std::vector::assign")
def _vassign(ip, e, st):
    l = ip.lval(e["o"], st)
    if l is None:
        return unk("assign")
    if len(e["a"]) == 2 and "*" in e["a"][0].get("t", ""):
        ip.write(ip.resolve(l), app("std::vector", *[ip.reify(val(ip, a, st), st) for a in e["a"]]), st)
    elif len(e["a"]) == 2 and not re.match(r"(const )?(unsigned |int|long|size_t)", e["a"][0].get("t", "")):
        ip.write(ip.resolve(l), _range(ip, e, st), st)
    else:
        ip.write(ip.resolve(l), unk("assign"), st)
    return unk("void")


@model("std::copy", "std::move_backward", "std::copy_n", "std::copy_if", "std::fill", "std::fill_n")
def _copy(ip, e, st):
    n = strip_targs(e["n"]).split("::")[-1]
    if n in ("copy", "copy_if"):
        coll = _range(ip, e, st)
        out = ip.eval(e["a"][2], st)
        if out.op == "app" and out.a[0] == "inserter":
            l = out.a[1]
            if n == "copy":
                ip.write(l, append(_e(ip.read(l, st)), T("splice", coll)), st)
            else:
                f = ip.eval(e["a"][3], st)
                h = {}

                def body(x):
                    c = ip.tobool(ip.call_value(f, [h["el"]], x, e))
                    ip.write(l, append(_e(ip.read(l, x)), T("when", c, T("seq", T("one", h["el"])))), x)
                ip.over(coll, lambda el, x: h.__setitem__("el", el), body, st)
            return unk("void")
        if out.op == "app" and out.a[0] == "begin":
            # overwrite of a container prefix
            a = e["a"][2]
            while a["k"] == "cast":
                a = a["e"]
            if a["k"] == "call" and (a.get("o") or a["a"]):
                l = ip.lval(a["o"] if a.get("o") is not None else a["a"][0], st)
                if l is not None:
                    old = ip.reify(ip.read(l, st), st)
                    ip.write(ip.resolve(l), _filled(old, coll) or app("copyinto", old, coll), st)
        else:
            a = e["a"][2]
            while a["k"] == "cast":
                a = a["e"]
            l = ip.lval(a, st) if a["k"] in ("ref", "mem") else None
            if l is not None:
                old = ip.read(ip.resolve(l), st)
                k = heapof(old)
                ip.write(ip.resolve(l), app("heap", k[0], k[1], ip.reify(coll, st)) if k else coll, st)
        return unk("void")
    vals = [ip.reify(val(ip, a, st), st) for a in e["a"]]
    ip.effect(app("std::" + n, *vals), e, st)
    a = e["a"][0 if n.startswith("fill") else 2]
    while a["k"] == "cast":
        a = a["e"]
    if a["k"] == "call" and (a.get("o") or a["a"]):
        a = a["o"] if a.get("o") is not None else a["a"][0]
        while a["k"] == "cast":
            a = a["e"]
    l = ip.lval(a, st) if a["k"] in ("ref", "mem") else None
    if l is not None:
        ip.write(ip.resolve(l), unk("std::" + n), st)
    return unk("void")


@model("std::accumulate", "std::reduce")
def _acc(ip, e, st):
    coll = _range(ip, e, st)
    init = val(ip, e["a"][2], st) if len(e["a"]) > 2 else num(0)
    f = ip.eval(e["a"][3], st) if len(e["a"]) > 3 else None
    loc = T("var", ip.frame()["id"], -(ip.nloop + 2000), "acc")
    st.S[loc] = init
    h = {}

    def body(x):
        if f is None:
            x.S[loc] = ip.arith("+", x.S[loc], h["el"])
        else:
            x.S[loc] = ip.plain(ip.call_value(f, [x.S[loc], h["el"]], x, e), x)
    ip.over(coll, lambda el, x: h.__setitem__("el", el), body, st)
    return st.S.pop(loc)


@model("std::sort", "std::stable_sort")
def _sort(ip, e, st):
    a = e["a"][0]
    while a["k"] == "cast":
        a = a["e"]
    l = None
    if a["k"] == "call":
        l = ip.lval(a["o"] if a.get("o") is not None else a["a"][0], st)
    key = string("<")
    if len(e["a"]) > 2:
        f = ip.eval(e["a"][2], st)
        x, y = sym("$x"), sym("$y")
        key = ip.reify(ip.plain(ip.call_value(f, [x, y], st, e), st), st)
    if l is not None:
        l = ip.resolve(l)
        old = ip.read(l, st)
        while old.op == "app" and old.a[0] == "sorted" and len(old.a) > 2:
            old = old.a[1]
        ip.write(l, app("sorted", ip.reify(old, st), key), st)
    return unk("void")


# ---------------------------------------------------------------- logging

@model("electionguard::Log::trace", "electionguard::Log::debug", "electionguard::Log::info", "electionguard::Log::warn",
       "electionguard::Log::error", "electionguard::Log::critical")
def _log(ip, e, st):
    vals = [ip.reify(val(ip, a, st), st) for a in e["a"]]
    if not st.dead:
        ip.effect(app(strip_targs(e["n"]), *vals), e, st)
    return unk("void")


# ---------------------------------------------------------------- json
# A json value is: the value itself (string), jnum(value, type) (number, bool, enum), NULL, or a seq of one/kv pieces.
# A json that was default constructed carries a `jnull` piece: it stays null until something is put into it.
def jm(*ops):
    return model(*["nlohmann::%sbasic_json::%s" % (abi, o) for o in ops for abi in ("json_abi_v3_11_3::", "")])


JNULL = T("jnull")
_JINT = {"bool": (1, 0), "unsigned char": (8, 0), "unsigned short": (16, 0), "unsigned int": (32, 0), "unsigned long": (64, 0),
         "unsigned long long": (64, 0), "char": (8, 1), "signed char": (8, 1), "short": (16, 1), "int": (32, 1), "long": (64, 1),
         "long long": (64, 1), "float": (24, 1), "double": (53, 1)}


def _short(t):
    return t.replace("const ", "").rstrip("& ").strip()


def jwrap(ip, v, t):
    """v of C++ type t put into a json."""
    t = _short(t)
    if v.op == "app" and v.a[0] == "jnum":
        return v
    if t in _JINT or t in getattr(ip.p, "enums", {}):
        return app("jnum", v, string(t))
    if t.startswith(("std::vector<", "std::list<", "std::deque<")):
        el = _short(_elt(t))
        if v.op == "seq":
            r = _jmap(v, lambda x: jwrap(ip, x, el))
            return r if r is not None else unk("json of a vector")
        h = "jv%d" % len(show(v))
        return mkseq([T("each", h, v, mkseq([T("one", jwrap(ip, T("bv", h), el))]), FALSE)])
    return v


def _elt(t):
    """T of std::vector<T, ...>"""
    i = t.index("<") + 1
    d, j = 0, i
    while j < len(t) and (d or t[j] not in ",>"):
        d += {"<": 1, ">": -1}.get(t[j], 0)
        j += 1
    return t[i:j].strip()


def _jmap(v, f):
    """f on every element of a sequence; None when it has keys or parts that are not known."""
    out = []
    for p in v.a:
        if p.op == "one":
            out.append(T("one", f(p.a[0])))
        elif p.op in ("each", "when"):
            i = 2 if p.op == "each" else 1
            b = _jmap(p.a[i], f) if p.a[i].op == "seq" else None
            if b is None:
                return None
            out.append(T(p.op, *[b if j == i else q for j, q in enumerate(p.a)]))
        elif p.op == "splice":
            h = "jv%d" % len(show(p))
            out.append(T("each", h, p.a[0], mkseq([T("one", f(T("bv", h)))]), FALSE))
        elif p.op == "jnull":
            out.append(p)
        else:
            return None
    return mkseq(out)


def jlookup(v, k):
    """(present, value) of key k in json value v, or None."""
    if v is NULL:
        return FALSE, NULL
    if v.op == "ite":
        a, b = jlookup(v.a[1], k), jlookup(v.a[2], k)
        if a is None or b is None:
            return None
        return ite(v.a[0], a[0], b[0]), ite(v.a[0], a[1], b[1])
    if v.op != "seq":
        return None
    have, out = FALSE, NULL
    for p in v.a:
        if p.op == "jnull":
            continue
        if p.op in ("kv", "kvnew") and p.a[0].op == "str":
            if p.a[0] is k:
                if p.op == "kv":
                    have, out = TRUE, p.a[1]
                else:
                    have, out = TRUE, ite(have, out, p.a[1])
            continue
        if p.op == "when":
            r = jlookup(p.a[1], k)
            if r is None:
                return None
            c = conj(p.a[0], r[0])
            have, out = disj(have, c), ite(c, r[1], out)
            continue
        return None
    return have, out


def jisnull(v):
    if v is NULL:
        return TRUE
    if v.op == "ite":
        return ite(v.a[0], jisnull(v.a[1]), jisnull(v.a[2]))
    if v.op == "seq":
        if JNULL not in v.a:
            return FALSE
        return conj(*[_emptypiece(p) for p in v.a])
    if v.op == "unk" or v.op == "app" and v.a[0] in ("idx", "jparse", "jfrom_bson", "jfrom_msgpack", "jfrom_cbor", "loop"):
        return app("jis_null", v)
    return FALSE


def _emptypiece(p):
    if p.op == "jnull":
        return TRUE
    if p.op == "when":
        return disj(neg(p.a[0]), conj(*[_emptypiece(q) for q in p.a[1].a]))
    if p.op == "each":
        if any(q.op in ("one", "kv", "kvnew") for q in p.a[2].a):
            return app("empty", p.a[1])
        return app("jis_null", mkseq([p]))
    if p.op == "splice":
        return app("empty", p.a[0])
    return FALSE


def jget(v, t):
    """The json value read as C++ type t."""
    t = _short(t)
    if v.op == "ite":
        return ite(v.a[0], jget(v.a[1], t), jget(v.a[2], t))
    if v.op == "unk":
        return v
    if v.op == "app" and v.a[0] == "jnum":
        s = v.a[2].a[0]
        ws, wt = _JINT.get(s, (32, 0)), _JINT.get(t)
        if s == t or wt is not None and (s == "bool") == (t == "bool") and (wt[0] >= ws[0] and wt[1] == ws[1] or wt[0] > ws[0] and wt[1]):
            return v.a[1]
        return app("jconvert", v, string(t))
    if t == "std::string" and (v.op in ("str", "fld", "elem", "bv", "new") or v.op == "app" and v.a[0] not in ("idx", "jparse", "jfrom_bson", "jfrom_msgpack", "loop")):
        return v
    if v.op == "seq" and t.startswith("std::vector") and all(p.op != "kv" for p in v.a):
        el = _elt(t)
        r = _jmap(mkseq([p for p in v.a if p.op != "jnull"]), lambda x: jget(x, el)) if "<" in t else None
        if r is not None:
            return r
    return app("jget", v, string(t))


@jm("basic_json")
def _jctor(ip, e, st):
    return unk("json")


@jm("operator[]", "at")
def _jidx(ip, e, st):
    l = ip.lval(e, st)
    if l is not None and l.op == "idx":
        b, k = l.a
        b = ip.read(b, st) if b.op in ("var", "fld", "deref", "idx", "glob") else b
    else:
        b, k = val(ip, e["o"], st), val(ip, e["a"][0], st)
    b = ip.reify(b, st)
    if k.op == "str":
        r = jlookup(b, k)
        if r is not None:
            return ite(r[0], r[1], NULL)
    return ip.index(b, k, st)


@jm("contains", "count")
def _jcontains(ip, e, st):
    b = ip.reify(val(ip, e["o"], st), st)
    k = val(ip, e["a"][0], st)
    if k.op == "str":
        if b.op == "str":
            return FALSE        # json("{}") is a string, not an object
        r = jlookup(b, k)
        if r is not None:
            return r[0]
    return app("contains", b, k)


@jm("get", "get_ref", "get_ptr", "get_impl")
def _jget(ip, e, st):
    return jget(ip.reify(val(ip, e["o"], st), st), e.get("t", ""))


@jm("operator basic_string", "operator std::basic_string", "operator string", "operator bool", "operator unsigned long", "operator ValueType")
def _jconvop(ip, e, st):
    return jget(ip.reify(val(ip, e["o"], st), st), e.get("t", ""))


@jm("push_back", "emplace_back", "operator+=")
def _jpush(ip, e, st):
    l = objloc(ip, e, st)
    a = real_args(e)
    v = val(ip, a[0], st)
    if st.dead:
        return unk("dead")
    if l is None:
        return unk("push")
    old = ip.read(l, st)
    if old.op in ("null", "unk"):
        old = mkseq([JNULL])
    il = ip._is_init_list(a[0])
    v = ip.reify(v, st)
    if il and v.op == "seq":
        isobj = any(p.op == "kv" or p.op == "when" and any(q.op == "kv" for q in p.a[1].a) for p in old.a) if old.op == "seq" else False
        if isobj and len(v.a) == 2 and all(p.op == "one" for p in v.a):
            ip.write(l, append(old, T("kv", v.a[0].a[0], v.a[1].a[0])), st)
            return unk("void")
        v = ip.json_init(v)
    else:
        v = jwrap(ip, v, a[0].get("t", ""))
    ip.write(l, append(old, T("one", v)), st)
    return unk("void")


@jm("emplace", "insert")
def _jemplace(ip, e, st):
    l = objloc(ip, e, st)
    a = [val(ip, x, st) for x in real_args(e)]
    if l is None:
        return unk("emplace")
    if len(a) != 2:
        ip.write(l, unk("json insert"), st)
        return unk("emplace")
    old = ip.read(l, st)
    if old.op in ("null", "unk"):
        old = mkseq([JNULL])
    ip.write(l, append(old, T("kvnew", a[0], jwrap(ip, ip.reify(a[1], st), real_args(e)[1].get("t", "")))), st)
    return unk("void")


@jm("operator=")
def _jassign(ip, e, st):
    l = objloc(ip, e, st)
    v = ip.reify(val(ip, e["a"][0], st), st)
    if v.op == "seq" and ip._is_init_list(e["a"][0]):
        v = ip.json_init(v)
    if l is not None:
        ip.write(l, v, st)
        return T("addr", l) if l.op != "val" else v
    return v


@jm("array", "object")
def _jarr(ip, e, st):
    a = real_args(e)
    v = val(ip, a[0], st) if a else EMPTY
    return v if v.op == "seq" else EMPTY


@jm("dump")
def _dump(ip, e, st):
    return app("jdump", ip.reify(val(ip, e["o"], st), st))


@jm("parse")
def _parse(ip, e, st):
    v = ip.reify(val(ip, e["a"][0], st), st)
    if v.op == "app" and v.a[0] == "jdump":
        return v.a[1]
    return app("jparse", v)


@jm("to_bson", "to_msgpack", "to_cbor")
def _tobson(ip, e, st):
    return app("j" + strip_targs(e["n"]).split("::")[-1], ip.reify(val(ip, e["a"][0], st), st))


@jm("from_bson", "from_msgpack", "from_cbor")
def _frombson(ip, e, st):
    n = strip_targs(e["n"]).split("::")[-1]
    v = ip.reify(val(ip, e["a"][0], st), st)
    if v.op == "app" and v.a[0] == "j" + n.replace("from", "to"):
        return v.a[1]
    return app("j" + n, v)


@jm("items")
def _items(ip, e, st):
    return ip.reify(val(ip, e["o"], st), st)


@jm("is_null")
def _isnull(ip, e, st):
    return jisnull(ip.reify(val(ip, e["o"], st), st))


@jm("is_string", "is_number", "is_object", "is_array", "is_boolean", "is_number_unsigned", "is_number_integer")
def _jis(ip, e, st):
    v = ip.reify(val(ip, e["o"], st), st)
    n = strip_targs(e["n"]).split("::")[-1]
    if v is NULL:
        return FALSE
    if v.op == "seq" and JNULL not in v.a and v.a:
        return boolean(n == ("is_object" if any(p.op == "kv" for p in v.a) else "is_array"))
    return app(n, v)


@jm("value")
def _jvalue(ip, e, st):
    b = ip.reify(val(ip, e["o"], st), st)
    k = val(ip, e["a"][0], st)
    d = val(ip, e["a"][1], st)
    r = jlookup(b, k) if k.op == "str" else None
    if r is None:
        return ite(app("contains", b, k), jget(ip.index(b, k, st), e.get("t", "")), d)
    return ite(r[0], jget(r[1], e.get("t", "")), d)


def heapof(v):
    """(allocator, size) of a pointer to fresh memory."""
    if v.op == "app" and v.a[0] == "newarray":
        return string("new[]"), v.a[1]
    if v.op == "app" and v.a[0] in ("malloc", "std::malloc"):
        return string("malloc"), v.a[1]
    if v.op == "app" and v.a[0] in ("calloc", "std::calloc"):
        return string("malloc"), app("*", v.a[1], v.a[2])
    return None


@model("strncpy", "std::strncpy", "strcpy", "std::strcpy", "strdup")
def _strncpy(ip, e, st):
    """Copies of a text into fresh memory: the memory holds the text if it has room for it and its end."""
    n = strip_targs(e["n"]).split("::")[-1]
    if n == "strdup":
        s = ip.reify(val(ip, e["a"][0], st), st)
        return app("heap", string("malloc"), app("+", app("size", s), num(1)), s)
    d = e["a"][0]
    while d.get("k") in ("cast", "paren"):
        d = d["e"]
    l = ip.lval(d, st) if d["k"] in ("ref", "mem") else None
    if l is not None:
        l = ip.resolve(l)
        k = heapof(ip.read(l, st))
        if k:
            s = ip.reify(val(ip, e["a"][1], st), st)
            m = val(ip, e["a"][2], st) if n == "strncpy" else None
            ip.write(l, app("heap", k[0], k[1], s if m is None else app("strn", s, m)), st)
            return unk("void")
    return ip.opaque_call(n, None, e, st)


@model("memcpy", "std::memcpy", "__builtin_memcpy", "memmove")
def _memcpy(ip, e, st):
    """memcpy(&scalar, source, n): the scalar becomes the bytes read."""
    d = e["a"][0]
    while d.get("k") in ("cast", "paren"):
        d = d["e"]
    src = val(ip, e["a"][1], st)
    n = val(ip, e["a"][2], st)
    if d.get("k") == "un" and d.get("op") == "&":
        l = ip.lval(d["e"], st)
        if l is not None and ip.resolve(l).op == "var":
            b, o = _offset(src)
            if b.op == "app" and b.a[0] == "front":
                b = b.a[1]
            ip.write(ip.resolve(l), app("frombytes", b, o, n), st)
            return unk("void")
    if d.get("k") in ("ref", "mem"):
        l = ip.lval(d, st)
        if l is not None:
            l = ip.resolve(l)
            old = ip.reify(ip.read(l, st), st)
            s = ip.reify(src, st)
            k = heapof(old)
            if k:
                ip.write(l, app("heap", k[0], k[1], app("memn", s, n)), st)
                return unk("void")
            whole = sizeof(d.get("t", ""))
            ip.write(l, app("copyinto", old, s) if whole is not None and n is num(whole) else app("memcpy", old, s, n), st)
            return unk("void")
    return ip.opaque_call("memcpy", None, e, st)


def sizeof(t):
    import re
    m = re.match(r"(?:const )?(unsigned long|unsigned char|uint8_t|uint64_t|char|unsigned int|uint32_t)\[(\d+)\]$", t)
    if not m:
        return None
    return {"unsigned long": 8, "uint64_t": 8, "unsigned int": 4, "uint32_t": 4}.get(m.group(1), 1) * int(m.group(2))
