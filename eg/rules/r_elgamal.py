"""Hashed ElGamal: encryption and decryption agree, authentication before plaintext."""
from fractions import Fraction

from ..check import check
from ..api import *
from ..alg import *
from ..terms import *
from .r_proofs import H, gp, pw, fresh_engine
from .r_hash import same, leaves
from .r_ballot import ncanon
from .r_flow import eqv, lin, lsub, running_index

HEC = "HashedElGamalCiphertext"
HM = EG + "get_hmac"


def hmacs(ts):
    out = []
    for t in ts:
        for q in subterms(t):
            if q.op == "app" and q.a[0] == HM and q not in out:
                out.append(q)
    return out


def tobytes(cls, t):
    return app(EG + cls + "::toBytes", t)


def shape(t):
    """A length or counter argument with the data size and the block index abstracted."""
    def go(q):
        if q.op == "app" and q.a[0] in ("trunc32", "trunc64", "trunc"):
            return go(q.a[-1])
        if q.op == "app" and q.a[0] == "size":
            return sym("SIZE")
        if q.op in ("bv", "lv", "elem"):
            return sym("BLOCK")
        if q.op == "app":
            a = [go(x) if isinstance(x, T) else x for x in q.a[1:]]
            if q.a[0] in ("*", "+"):
                a.sort(key=show)
            return T("app", q.a[0], *a)
        return q
    r = go(ncanon(t))
    k = ratio(r)
    return r if k is None else app("*", sym("SIZE"), string(str(k)))


def ratio(t):
    """k with t = k * SIZE (sizes are whole blocks, so the division is exact)."""
    if t is sym("SIZE"):
        return Fraction(1)
    if t.op == "app" and t.a[0] == "*" and len(t.a) == 3:
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if y.op == "int" and ratio(x) is not None:
                return ratio(x) * y.a[0]
    if t.op == "app" and t.a[0] == "/" and t.a[2].op == "int" and t.a[2].a[0] and ratio(t.a[1]) is not None:
        return ratio(t.a[1]) / t.a[2].a[0]
    if t.op == "app" and t.a[0] == "<<" and t.a[2].op == "int" and ratio(t.a[1]) is not None:
        return ratio(t.a[1]) * 2 ** t.a[2].a[0]
    return None


@check("C11", "gated value numbering of encryption and decryption; comparison of their key schedules in group normal form",
       "both derive the session key from (pad, K^r = pad^s), the MAC key and block keys from the same inputs with distinct "
       "counters; every decrypting return is guarded by equality of the MAC over pad and all data; nothing is truncated unasked.")
def c11(ctx):
    for n, f in (("encrypt", encrypt_side), ("decrypt", decrypt_side), ("hmac", hmac_input)):
        ctx.part(n, f, ctx)


def schedule(ctx, fn, what, calls, session, seed, pad, data):
    """Classify the keyed hashes; returns the abstract schedule."""
    sk, sd = ncanon(tobytes("ElementModQ", session)), ncanon(tobytes("ElementModQ", seed))
    keys, macs = [], []
    for q in calls:
        k, m, ln, start = [ncanon(x) for x in q.a[1:5]]
        if k is sk:
            ctx.need(m is sd, what + ": derived keys are bound to the encryption seed", ctx.loc(fn), show(m)[:200], about=[m])
            keys.append((shape(ln), shape(start), q))
        elif k.op == "app" and k.a[0] == HM:
            macs.append(q)
        else:
            ctx.need(False, what + ": keys are derived from the session key H(pad, K^r)", ctx.loc(fn), show(k)[:300], about=[k])
    mk = [q for ln, s, q in keys if s is num(0)]
    bk = [(ln, s, q) for ln, s, q in keys if s is not num(0)]
    ctx.need(len(mk) >= 1 and len(set(x[0] for x in keys)) == 1, what + ": MAC key and block keys share the length field", ctx.loc(fn),
             "; ".join(show(x[0])[:100] for x in keys))
    for ln, s, q in bk:
        ctx.need(lin(s).get(sym("BLOCK"), 0) == 1 and lin(s).get(None, 0) >= 1 and len(lin(s)) == 2,
                 what + ": block keys use a counter per block that never equals the MAC key's", ctx.loc(fn), show(s)[:200], about=[])
    if not bk:
        ctx.undecide(what + ": block keys", ctx.loc(fn), "none recognised")
    for q in macs:
        k, m, ln, start = [ncanon(x) for x in q.a[1:5]]
        ctx.need(any(ncanon(z) is k for z in mk), what + ": the MAC is keyed with the MAC key", ctx.loc(fn), show(k)[:200], about=[])
        want = ncanon(mkseq([T("splice", tobytes("ElementModP", pad)), T("splice", data)]))
        ctx.need(m is want or same(m, want) is None, what + ": the MAC covers the pad and all of the data", ctx.loc(fn), show(m)[:300],
                 about=[x for x in [m] if not has(m, ncanon(tobytes("ElementModP", pad)))])
    if not macs:
        ctx.bad(what + ": a MAC is computed", ctx.loc(fn), "no keyed hash with the MAC key")
    return (set(x[:2] for x in keys), set((shape(q.a[3]), shape(q.a[4])) for q in macs), bk)


def xors(ctx, ip, fn, what, t, bk, src):
    n = 0
    for q in subterms(t):
        if q.op != "app" or q.a[0] != "^":
            continue
        n += 1
        key = [x for x in q.a[1:] if x.op == "app" and x.a[0] == "idx" and x.a[1].op == "app" and x.a[1].a[0] == HM]
        ctx.need(len(key) == 1 and any(key[0].a[1] is b[2] for b in bk), what + ": every byte is combined with its block's key", ctx.loc(fn), show(q)[:300],
                 about=[] if key else [q])
        for x in key:
            keybyte(ctx, fn, what, x.a[2])
        oth = [x for x in q.a[1:] if x not in key]
        if len(oth) != 1:
            continue
        o = oth[0]
        ls = [x for x in leaves(o)]
        for x in ls:
            if x.op == "app" and x.a[0] == "idx" and x.a[2].op == "lv" and x.a[2] in ip.lvinfo:
                running(ctx, ip, fn, what, x.a[2])
            elif x.op == "app" and x.a[0] == "idx":
                pass
            else:
                ctx.undecide(what + ": data byte", ctx.loc(fn), show(x)[:200])
    if not n:
        ctx.undecide(what + ": byte combination", ctx.loc(fn), "no xor found")


BLOCKLEN = 32


def keybyte(ctx, fn, what, i):
    """Every byte of a block takes its own byte of the block's key."""
    w = what + ": every byte of a block takes its own byte of the key"
    i = strip(i)
    if i.op in ("bv", "lv"):
        ctx.ok(w, ctx.loc(fn))
    elif i.op == "app" and i.a[0] in ("%", "&") and len(i.a) == 3:
        m = [x.a[0] for x in i.a[1:] if x.op == "int"]
        per = (m[0] if i.a[0] == "%" else m[0] + 1) if m else None
        if per is None:
            ctx.undecide(w, ctx.loc(fn), show(i)[:200])
        else:
            ctx.need(per >= BLOCKLEN and per % BLOCKLEN == 0, w, ctx.loc(fn), "the key byte repeats: index %s" % show(i)[:200])
    elif i.op == "int" or i.op == "app" and i.a[0] in ("/", ">>", "|", "min"):
        ctx.bad(w, ctx.loc(fn), "several bytes take the same key byte: index %s" % show(i)[:200])
    elif lin(i) and set(lin(i).values()) == {1} and len([k for k in lin(i) if k is not None]) == 1:
        ctx.ok(w, ctx.loc(fn))
    else:
        ctx.undecide(w, ctx.loc(fn), show(i)[:200])


def strip(t):
    while t.op == "app" and str(t.a[0]).startswith("trunc"):
        t = t.a[1]
    return t


def running(ctx, ip, fn, what, i):
    nxt = ncanon(ip.lvinfo[i][1])
    step = lsub(lin(nxt), {i: 1})
    if nxt is i:
        ctx.bad(what + ": the data index advances", ctx.loc(fn), "it never changes")
    elif step == {None: 1}:
        ctx.ok(what + ": the data index advances by one per byte", ctx.loc(fn))
    else:
        ctx.undecide(what + ": data index", ctx.loc(fn), show(nxt)[:200])


_SCHED = {}


def encrypt_side(ctx):
    p = ctx.p
    K, r, seed, msg = sym("K"), sym("r"), sym("seed"), sym("message")
    fn = find(p, "hashedElgamalEncrypt")
    for full in (False, True):
        what = "hashedElgamalEncrypt%s" % (" (precomputed)" if full else "")
        E = fresh_engine(ctx, K, full)
        E.opaque = list(E.opaque) + [HM]
        ip = E.ip()
        res = E.run(fn, args={"publicKey": K, "nonce": r, "encryption_seed": seed, "message": msg}, ip=ip)
        for pc, o, s, ln in res.rets:
            for o in leaves(o):
                if o.op != "new":
                    ctx.undecide(what, ctx.loc(fn, ln), show(o)[:200])
                    continue
                pad, data, mac = [E.get(HEC, g, o) for g in ("getPad", "getData", "getMac")]
                e = exponent(ncanon(pad))
                if e is None:
                    ctx.need(False, what + ": pad = g^r", ctx.loc(fn), show(ncanon(pad))[:200], about=[pad])
                    continue
                if not full:
                    ctx.need(e is ncanon(r), what + ": pad = g^nonce", ctx.loc(fn), show(e)[:200])
                else:
                    ctx.need(e.op == "app" and e.a[0] == EG + "rand_q", what + ": the exponent was drawn fresh", ctx.loc(fn), show(e)[:200])
                session = H(pad, pw(K, e))
                calls = hmacs([data, mac])
                a = schedule(ctx, fn, what, calls, session, seed, pad, data)
                _SCHED["enc"] = a[:2]
                xors(ctx, ip, fn, what, data, a[2], None)
                layout(ctx, fn, what, data)
        # nothing is cut off unless the caller allows it
        A = FALSE
        for pc, v, s, ln in res.rets:
            A = disj(A, pc)
        A = ncanon(A)
        mx, tr = sym("max_len"), sym("allow_truncation")
        over = ncanon(T("lt", mx, app("size", msg)))
        B = conj(A, neg(ncanon(T("eq", mx, num(0)))), neg(tr), over)
        ctx.need(ncanon(B) is FALSE or implies(B, FALSE), what + ": a message longer than the limit is refused unless truncation is allowed", ctx.loc(fn), show(A)[:300], about=[A])
        m32 = ncanon(T("eq", app("%", app("size", msg), num(32)), num(0)))
        B = conj(A, ncanon(T("eq", mx, num(0))), neg(m32))
        ctx.need(ncanon(B) is FALSE or implies(B, FALSE), what + ": without padding only whole blocks are accepted", ctx.loc(fn), show(A)[:300], about=[A])


def exponent(t):
    """e with t = g^e"""
    for q in subterms(t):
        if q.op in ("gprod",) or q.op == "app" and q.a[0] == "gprod":
            a = [x for x in (q.a[1:] if q.op == "app" else q.a)]
            if q is t and len(a) == 2 and same(t, gp(a[1])) is None:
                return ncanon(a[1])
    return None


def layout(ctx, fn, what, data):
    """[length of padding, big endian][message][zeros] whenever padding is asked for."""
    msg, mx = sym("message"), sym("max_len")
    plain = None
    for q in subterms(data):
        if q.op == "app" and q.a[0] == "^":
            for x in q.a[1:]:
                for y in leaves(x):
                    if y.op == "app" and y.a[0] == "idx" and has(y.a[1], msg) and not (y.a[1].op == "app" and y.a[1].a[0] == HM):
                        plain = y.a[1] if plain is None or has(y.a[1], mx) else plain
    if plain is None:
        ctx.undecide(what + ": plaintext layout", ctx.loc(fn), "not recognised")
        return
    short = ncanon(subst(ncanon(plain), {ncanon(T("lt", mx, app("size", msg))): FALSE, ncanon(T("eq", mx, num(0))): FALSE}))
    pl = app("-", mx, app("size", msg))
    ps = pieces(short)
    ok = len(ps) >= 2 and ps[0].op == "one" and ps[0].a[0].op == "app" and ps[0].a[0].a[0] == "bytes" and ps[0].a[0].a[2] is num(2)
    if not ok:
        ctx.undecide(what + ": plaintext layout", ctx.loc(fn), show(short)[:300])
        return
    f = ps[0].a[0].a[1]
    sw = f.op == "app" and ("bswap" in str(f.a[0]) or "htobe" in str(f.a[0]) or "htons" in str(f.a[0]))
    inner = f.a[1] if sw else f
    while inner.op == "app" and str(inner.a[0]).startswith("trunc"):
        inner = inner.a[-1]
    ctx.need(sw and lin(inner) == lin(ncanon(pl)), what + ": the first two bytes are the padding length, big endian", ctx.loc(fn), show(f)[:200], about=[f])
    ctx.need(ps[1].op == "splice" and ps[1].a[0] is msg, what + ": the whole message follows", ctx.loc(fn), show(ps[1])[:200], about=[ps[1]])


def decrypt_side(ctx):
    p = ctx.p
    fn = find(p, HEC + "::decrypt")
    names = pnames(fn)
    h, s, seed, lp = sym("h"), sym(names[0]), sym(names[1]), sym(names[2])
    E = Engine(ctx, opaque=PRECOMP + [HM])
    ip = E.ip()
    r = E.run(fn, this=h, ip=ip)
    pad, data, mac = [E.get(HEC, g, h) for g in ("getPad", "getData", "getMac")]
    session = H(pad, pw(pad, s))
    what = HEC + "::decrypt"
    A = FALSE
    ts = []
    for pc, v, st, ln in r.rets:
        A = disj(A, pc)
        ts += [pc, v]
    calls = hmacs(ts)
    a = schedule(ctx, fn, what, calls, session, seed, pad, data)
    if _SCHED.get("enc"):
        ctx.need(a[0] == _SCHED["enc"][0] and a[1] == _SCHED["enc"][1], "encryption and decryption use the same key schedule", ctx.loc(fn),
                 "decrypt %s %s, encrypt %s %s" % ([show(x) for y in a[0] for x in y], [show(x) for y in a[1] for x in y],
                                                   [show(x) for y in _SCHED["enc"][0] for x in y], [show(x) for y in _SCHED["enc"][1] for x in y]))
    macs = [q for q in calls if q.a[1].op == "app" and q.a[1].a[0] == HM]
    for pc, v, st, ln in r.rets:
        P = ncanon(pc)
        ok = any(implies(P, ncanon(T("eq", mac, q))) for q in macs)
        ctx.need(ok, what + ": no plaintext is returned unless the stored MAC equals the computed one", ctx.loc(fn, ln), show(P)[:300], about=[])
        ctx.need(implies(P, ncanon(T("eq", app("%", app("trunc32", app("size", data)), num(32)), num(0)))) or
                 implies(P, ncanon(T("eq", app("%", app("size", data), num(32)), num(0)))), what + ": only whole blocks are decrypted", ctx.loc(fn, ln), show(P)[:300], about=[P])
        xors(ctx, ip, fn, what, v, a[2], data)
        # with padding: the slice between the length field and the padding
        w = ncanon(subst(v, {lp: TRUE}))
        if w.op == "app" and w.a[0] == "slice" or w.op == "seq" and len(w.a) == 1 and w.a[0].op == "splice" and w.a[0].a[0].op == "app" and w.a[0].a[0].a[0] == "slice":
            sl = w if w.op == "app" else w.a[0].a[0]
            base, lo, hi = sl.a[1:4]
            L = lin(hi)
            szs = [k for k in L if k is not None and k.op == "app" and k.a[0] == "size" and k.a[1] is base]
            rest = [k for k in L if k is not None and k not in szs]
            plen = rest[0] if len(rest) == 1 else None
            ok = lo is num(2) and len(szs) == 1 and L[szs[0]] == 1 and plen is not None and L[plen] == -1 and not L.get(None)
            ctx.need(ok, what + ": the plaintext is what lies between the length field and the padding", ctx.loc(fn, ln), "from %s to %s" % (show(lo)[:60], show(hi)[-200:]))
            if plen is not None:
                src = plen
                while src.op == "app" and (str(src.a[0]).startswith("trunc") or "bswap" in str(src.a[0]) or "be16" in str(src.a[0]) or "ntoh" in str(src.a[0])):
                    src = src.a[-1]
                ctx.need(src.op == "app" and src.a[0] == "frombytes" and src.a[1] is base and src.a[2] is num(0) and src.a[3] is num(2),
                         what + ": the padding length is read from the first two bytes", ctx.loc(fn, ln), show(src)[:200], about=[src])
                P2 = ncanon(subst(P, {lp: TRUE}))
                lim = ncanon(neg(T("lt", app("-", app("size", base), num(2)), plen)))
                ctx.need(implies(P2, lim), what + ": a padding length beyond the data is refused", ctx.loc(fn, ln), show(P2)[:200] + " ... " + show(lim)[-200:], about=[])
        else:
            ctx.undecide(what + ": padding removal", ctx.loc(fn, ln), show(w)[:200])


def hmac_input(ctx):
    """The bytes fed to HMAC bind counter, message and length."""
    p = ctx.p
    fn = find(p, "get_hmac")
    from .. import domain
    seen = []
    key, msg, ln, start = [sym(n) for n in pnames(fn)[:4]]

    def hook(ip, e, st):
        seen.append([ip.reify(ip.eval(a, st), st) for a in e["a"]])
        return unk("void")
    ip = domain.make(p, opaque=[], models={"Hacl_HMAC_compute_sha2_256": hook})
    ip.run(fn, args=[key, msg, ln, start])
    ctx.saw(ip)
    if not seen:
        ctx.undecide("get_hmac", ctx.loc(fn), "no HMAC computation recognised")
    for a in seen:
        k, klen, d, dlen = [ncanon(x) for x in a[1:5]]
        base = lambda t: t.a[1] if t.op == "app" and t.a[0] == "front" else t
        def untr(t):
            while t.op == "app" and str(t.a[0]).startswith("trunc"):
                t = t.a[-1]
            return t
        ctx.need(base(k) is key and untr(klen) is ncanon(app("size", key)), "get_hmac keys HMAC with the whole key", ctx.loc(fn), show(k)[:100] + " " + show(klen)[:100], about=[k])
        D = base(d)
        ctx.need(untr(dlen) is ncanon(app("size", D)), "get_hmac authenticates the whole buffer", ctx.loc(fn), show(dlen)[:200], about=[dlen])
        pos = ncanon(subst(D, {ncanon(T("lt", num(0), ln)): TRUE, ncanon(T("eq", ln, num(0))): FALSE}))
        ps = pieces(pos)
        txt = show(pos)
        want = [T("one", app("bytes", start, num(4))), T("splice", msg), T("one", app("bytes", ln, num(4)))]
        ctx.need(sorted(map(show, ps)) == sorted(map(show, want)), "get_hmac binds counter, message and length", ctx.loc(fn), txt[:300], about=[pos])
        zero = ncanon(subst(D, {ncanon(T("lt", num(0), ln)): FALSE, ncanon(T("eq", ln, num(0))): TRUE}))
        ctx.need(zero is msg or pieces(zero) == (T("splice", msg),) or list(pieces(zero)) == [T("splice", msg)], "get_hmac without length authenticates exactly the message", ctx.loc(fn), show(zero)[:200], about=[zero])
