"""C25: what a random element is made of, from the operating system's generator to the element."""
from .. import witness
from ..api import EG, find
from ..bn import *
from ..check import check
from ..poly import expand_bytes, resid
from ..prog import AnalysisBroken
from .r_group import Group

GOOD = ("/dev/urandom", "/dev/random")


class World:
    """The operating system and the DRBG as the vocabulary: every draw is a new symbol, or fails."""

    def __init__(self):
        self.n = 0
        self.fd = {}
        self.seeds = {}     # symbol of a state -> [(what, polynomial, length)]
        self.calls = {"os": 0, "instantiate": 0, "generate": 0}
        self.problems = []

    def fresh(self, what, n):
        self.n += 1
        return sym("%s%d" % (what, self.n), 0, (1 << (8 * n)) - 1)

    def models(self):
        def length(x, v):
            c = x.pinned(v) if isinstance(v, Poly) else None
            if c is None:
                raise AnalysisBroken("a draw of unknown length")
            return c

        def fill(ip, e, x, p, n, what="os"):
            if n:
                ip.wr(p, n, self.fresh(what, n), x, e)

        def draw(ip, e, x, p, ln, random=True):
            """(state, bytes obtained): all, none with an error, fewer than asked."""
            self.calls["os"] += 1
            n = length(x, ln)
            a, b, c = x.fork(), x.fork(), x.fork()
            fill(ip, e, a, p, n, "os" if random else "file")
            yield a, num(n)
            yield b, num(-1)
            if n:
                yield c, sym("short%d" % self.n, 0, n - 1)

        def syscall(ip, e, st):
            for x, vs in args(ip, e, st):
                if len(vs) == 4 and isinstance(vs[0], Poly) and vs[0].const() == 318:
                    yield from draw(ip, e, x, vs[1], vs[2])
                else:
                    yield x, Unk("syscall")

        def getrandom(ip, e, st):
            for x, vs in args(ip, e, st):
                yield from draw(ip, e, x, vs[0], vs[1])

        def open_(ip, e, st):
            for x, vs in args(ip, e, st):
                a, b = x.fork(), x.fork()
                self.n += 1
                f = sym("fd%d" % self.n, 0, (1 << 31) - 1)
                self.fd[f.single()] = lit(e["a"][0])
                yield a, f
                yield b, num(-1)

        def read(ip, e, st):
            for x, vs in args(ip, e, st):
                path = self.fd.get(vs[0].single()) if isinstance(vs[0], Poly) else None
                yield from draw(ip, e, x, vs[1], vs[2], path in GOOD)

        def close(ip, e, st):
            for x, vs in args(ip, e, st):
                yield x, ZERO

        def create(ip, e, st):
            rid = ip.alloc("Hacl_HMAC_DRBG_state_s", st)
            o = st.mem[rid]
            if not isinstance(o, Obj):
                raise AnalysisBroken("the state of the DRBG")
            for n, w in (("k", 32), ("v", 32), ("reseed_counter", 4)):
                ip.store(Ptr(o.f["Hacl_HMAC_DRBG_state_s::" + n]), "unsigned char *", Ptr(st.new(Bytes(w))), st)
            yield st, Ptr(rid)

        def key(ip, x, s):
            o = x.mem.get(s.rid) if isinstance(s, Ptr) else None
            if not isinstance(o, Obj) or "Hacl_HMAC_DRBG_state_s::k" not in o.f:
                raise AnalysisBroken("the state of the DRBG")
            return ip.load(Ptr(o.f["Hacl_HMAC_DRBG_state_s::k"]), "unsigned char *", x)

        def state(ip, e, st):
            yield from ip.lv(e["a"][1 if "generate" not in e["n"] else 2], st)

        def instantiate(ip, e, st):
            self.calls["instantiate"] += 1
            for x, s in ip.lv(strip(e["a"][1]), st):
                for y, vs in ip.evs([e["a"][i] for i in (2, 3, 4, 5)], x):
                    parts = []
                    for what, ln, p, need in (("entropy", vs[0], vs[1], 32), ("nonce", vs[2], vs[3], 16)):
                        n = length(y, ln)
                        parts.append((what, ip.rd(p, n, y, e) if n else ZERO, n, need, ip.where(e)))
                    k = self.fresh("key", 32)
                    self.seeds[k.single()] = parts
                    ip.wr(key(ip, y, s), 32, k, y, e)
                    yield y, None

        def generate(ip, e, st):
            self.calls["generate"] += 1
            for x, s in ip.lv(strip(e["a"][2]), st):
                for y, (out, ln) in ip.evs([e["a"][1], e["a"][3]], x):
                    n = length(y, ln)
                    k = ip.rd(key(ip, y, s), 32, y, e)
                    a, b = y.fork(), y.fork()
                    r = self.fresh("out", n)
                    ip.wr(out, n, r, a, e)
                    self.seeds[r.single()] = k
                    yield a, ONE
                    yield b, ZERO

        def textsize(ip, e, st):
            for x, p in ip.lv(e["o"], st):
                r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
                if isinstance(r, Vec):
                    yield from MODELS["*::size"](ip, e, st)
                    return
                self.n += 1
                yield x, sym("length%d" % self.n, 0, 1 << 16)
        return {"syscall": syscall, "getrandom": getrandom, "open": open_, "read": read, "close": close,
                "Hacl_HMAC_DRBG_create_in": create, "Hacl_HMAC_DRBG_instantiate": instantiate, "Hacl_HMAC_DRBG_generate": generate,
                "std::basic_string::size": textsize, "std::basic_string::length": textsize}


def strip(e):
    while e["k"] in ("cast", "paren") and "e" in e or e["k"] == "ctor" and len(e["a"]) == 1:
        e = e["e"] if "e" in e else e["a"][0]
    return e


def lit(e):
    e = strip(e)
    return (e.get("v") or e.get("s")) if e["k"] == "str" else None


def drawn(p, out, what="out"):
    """The bits of the generator's output that reach p: {(symbol, byte): bits}; None for anything else unknown."""
    for mo in p.d:
        for x, ex in mo:
            if not isinstance(ex, int):
                return False
            if not atoms(x, out, what):
                return False
    return True


def atoms(x, out, what):
    if x.kind == "sym":
        if str(x.a[0]).startswith(what):
            for i in range((x.hi.bit_length() + 7) // 8):
                out[(x, i)] = 8
            return True
        return False
    if x.kind == "part":
        y = x.a[0].single()
        if y is not None and y.kind == "sym" and str(y.a[0]).startswith(what):
            for i in range(x.a[1], x.a[1] + x.a[2]):
                out[(y, i)] = 8
            return True
        return drawn(x.a[0], out, what)
    if x.kind == "unk" and x.a and x.a[0] in ("mask", "div"):
        sub = {}
        if not drawn(x.a[1], sub, what):
            return False
        out[(x, None)] = bin(x.a[2]).count("1") if x.a[0] == "mask" else max((x.hi - x.lo).bit_length(), 1)
        return True
    if x.kind in ("rev", "mod", "mont"):
        return all(drawn(y, out, what) for y in x.a if isinstance(y, Poly))
    return False


def stale(p):
    """An indeterminate byte, or one of a source that is not random."""
    for mo in p.d:
        for x, _ in mo:
            if x.kind == "unk" and x.a and x.a[0] == "indeterminate":
                return True
            if any(isinstance(y, Poly) and stale(y) for y in x.a):
                return True
    return False


def seeding(ctx, w, label, where, r):
    """The DRBG state behind an output symbol."""
    k = w.seeds.get(r)
    s = k.single() if isinstance(k, Poly) else None
    parts = w.seeds.get(s)
    if parts is None:
        if isinstance(k, Poly) and k.const() is not None:
            ctx.bad("%s: the generator is seeded" % label, where, "it is asked for output before it is instantiated", key=label + " seed")
        else:
            ctx.undecide("%s: the generator is seeded" % label, where, "its state is not known")
        return
    for what, v, n, need, (f, line) in parts:
        name = "%s: the %s of the generator comes from the operating system" % (label, what)
        loc = ctx.loc(f, line) if f else where
        out = {}
        if v.const() is not None:
            ctx.bad(name, loc, "it is constant" if n else "it is empty", key=name)
        elif stale(v):
            ctx.bad(name, loc, "it has bytes the operating system did not deliver", key=name)
        elif not drawn(v, out, "os"):
            out = {}
            if drawn(v, out, "file"):
                ctx.bad(name, loc, "it is read from a file that is not a source of randomness", key=name)
            else:
                ctx.undecide(name, loc, "not resolved: %s" % repr(v)[:120])
        elif sum(out.values()) < 8 * need:
            ctx.bad(name, loc, "%d random bits reach it, fewer than the %d the algorithm needs" % (sum(out.values()), 8 * need), key=name)
        else:
            ctx.ok(name, loc)


@check("C25", "abstract interpretation of the drawing of random elements, the operating system's generator and the DRBG as the vocabulary",
       "on every path that returns, every draw has delivered all its bytes, and each byte of the element is one of the generator's, none dropped, repeated or fixed.")
def c25(ctx):
    g = Group(ctx)
    for name, cls, M in (("rand_q", "ElementModQ", g.Q), ("rand_p", "ElementModP", g.P)):
        ctx.part(name, element, ctx, g, name, cls, M)


def element(ctx, g, name, cls, M):
    fn = find(ctx.p, name, n=0)
    w = World()
    ip = g.ip()
    ip.models.update(w.models())
    outs = ip.run(fn, None, [], St())
    g.seen(ip)
    where = ctx.loc(fn)
    for key, (f, line, text) in sorted(ip.oob.items(), key=str):
        if key[2]:
            ctx.bad("%s: memory is read and written inside its arrays" % name, ctx.loc(f, line) if f else where, text, key="%s oob %s" % (name, key[0]))
        else:
            ctx.undecide("%s: memory is read and written inside its arrays" % name, where, text)
    for x in sorted(ip.incomplete):
        ctx.undecide("%s: the remaining paths" % name, where, x)
    if not outs:
        ctx.undecide(name, where, "no path returns")
    done = set()
    for i, (s, v) in enumerate(outs):
        try:
            r, s = g.value(ip, cls, v, s)
        except AnalysisBroken as e:
            ctx.undecide(name + ": result", where, str(e))
            continue
        judge(ctx, w, name, where, r, s, M, done)
        if i == 0:
            ctx.part(name + " again", again, ctx, g, w, ip, fn, cls, r, s, M)
    ctx.tally("paths", len(outs))
    ctx.tally("paths that throw", len(ip.throws))
    for k, n in w.calls.items():
        ctx.tally("%s calls on these paths" % k, n)


def again(ctx, g, w, ip, fn, cls, r1, st, M):
    """A second draw after the first: what it is made of is not what the first was made of."""
    where, what = ctx.loc(fn), fn["n"].split("::")[-1] + ": two draws are independent"
    first = {}
    if not drawn(r1, first):
        ctx.undecide(what, where, "not resolved")
        return
    used = {k[0] for k in first if k[1] is not None} | {y for k in first if k[1] is None for y in inner(k[0])}
    for s, v in ip.run(fn, None, [], st.fork()):
        r, s = g.value(ip, cls, v, s)
        b = {}
        if r.const() is not None:
            continue
        if not drawn(r, b):
            ctx.undecide(what, where, "not resolved")
            return
        left = sum(n for (x, i), n in b.items() if (x, i) not in first and not (i is None and inner(x) & used))
        if left < (M - 1).bit_length():
            ctx.bad(what, where, "a second draw shares bytes with the one before it: %s" % repr(r)[:120], key=what)
            return
    ctx.ok(what, where)


def judge(ctx, w, name, where, r, st, M, done):
    what = name + ": every value can be drawn"
    bits = {}
    full = (M - 1).bit_length()
    if r.const() is not None:
        told = [(K, l, h) for K, l, h in st.cons if any(str(x.a[0]).startswith("out") for x in inner(K))]
        if any(l == h and l is not None for K, l, h in told):
            ctx.ok(name + ": the value of one draw", where)
        elif told:
            ctx.undecide(what, where, "a path that looks at the draw returns a constant")
        else:
            ctx.bad(what, where, "a path returns a constant", key=what)
        return
    if stale(r):
        ctx.bad(name + ": nothing is returned that was not drawn", where, "a path on which a draw failed returns bytes the generator did not deliver", key=name + " stale")
        return
    if not drawn(r, bits, "out"):
        ctx.undecide(what, where, "not resolved: %s" % repr(r)[:160])
        return
    for x in sorted({k[0] for k in bits if k[1] is not None} | {y for k in bits if k[1] is None for y in inner(k[0])}, key=str):
        if x not in done:
            done.add(x)
            seeding(ctx, w, name, where, x)
    n = sum(bits.values())
    if n < full:
        ctx.bad(what, where, "%d of the generator's bits reach the element, %d are needed: %s" % (n, full, repr(r)[:120]), key=what)
        return
    widths = {x: (x.hi.bit_length() + 7) // 8 for x in {k[0] for k in bits if k[1] is not None}}
    e = resid(expand_bytes(resid(r, M), widths), M)
    co = []
    for mo, c in e.d.items():
        if len(mo) != 1 or mo[0][1] != 1 or mo[0][0].kind not in ("sym", "part"):
            if mo == ():
                continue
            ctx.undecide(what, where, "not a sum of the generator's bytes: %s" % repr(e)[:160])
            return
        co.append(c % M)
    miss = {pow(256, i, M) for i in range((full + 7) // 8)} - set(co)
    if miss:
        ctx.undecide(what, where, "the bytes are not weighted as digits")
    else:
        ctx.ok(what, where)


def inner(x):
    """The symbols in an atom or polynomial."""
    out = set()
    for y in (x,) if isinstance(x, Poly) else x.a:
        if isinstance(y, Poly):
            for z in y.atoms():
                if z.kind == "sym":
                    out.add(z)
                else:
                    out |= inner(z)
    return out
