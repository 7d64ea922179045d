"""Zero-knowledge proof verifiers and provers."""
from ..check import check
from ..api import *
from ..alg import *
from ..terms import *
from .. import terms as _t

DCP = "DisjunctiveChaumPedersenProof"
CCP = "ConstantChaumPedersenProof"


def res(x):
    return app(EG + "ElementModP::isValidResidue", x)


def inb(x):
    return app(EG + "ElementModQ::isInBounds", x)


def H(*xs):
    return app(EG + "hash_elems", T("seq", *[T("one", x) for x in xs]))


def gp(e):
    return app(EG + "g_pow_p", e)


def pw(b, e):
    return app(EG + "pow_mod_p", b, e)


def mul(a, b):
    return app(EG + "mul_mod_p", a, b)


def addq(a, b):
    return app(EG + "add_mod_q", a, b)


def eqn(a, b):
    return T("eq", a, b)


def msg_parts(E, msg):
    return E.get("ElGamalCiphertext", "getPad", msg), E.get("ElGamalCiphertext", "getData", msg)


def disjunctive_spec(E, proof, msg, k, q):
    g = lambda n: E.get(DCP, n, proof)
    al, be = msg_parts(E, msg)
    a0, b0, a1, b1 = g("getProofZeroPad"), g("getProofZeroData"), g("getProofOnePad"), g("getProofOneData")
    c0, c1, c = g("getProofZeroChallenge"), g("getProofOneChallenge"), g("getChallenge")
    v0, v1 = g("getProofZeroResponse"), g("getProofOneResponse")
    out = []
    for n, x in (("pad alpha", al), ("data beta", be), ("commitment a0", a0), ("commitment b0", b0),
                 ("commitment a1", a1), ("commitment b1", b1)):
        out.append(("%s is a residue of the subgroup" % n, res(x)))
    for n, x in (("challenge c0", c0), ("challenge c1", c1), ("response v0", v0), ("response v1", v1)):
        out.append(("%s is in [0,Q)" % n, inb(x)))
    out.append(("c = c0 + c1 mod q", eqn(addq(c0, c1), c)))
    out.append(("c = H(Q', alpha, beta, a0, b0, a1, b1)", eqn(c, H(q, al, be, a0, b0, a1, b1))))
    out.append(("g^v0 = a0 alpha^c0", eqn(gp(v0), mul(a0, pw(al, c0)))))
    out.append(("g^v1 = a1 alpha^c1", eqn(gp(v1), mul(a1, pw(al, c1)))))
    out.append(("K^v0 = b0 beta^c0", eqn(pw(k, v0), mul(b0, pw(be, c0)))))
    out.append(("g^c1 K^v1 = b1 beta^c1", eqn(mul(gp(c1), pw(k, v1)), mul(b1, pw(be, c1)))))
    return out


def constant_spec(E, proof, msg, k, q):
    g = lambda n: E.get(CCP, n, proof)
    al, be = msg_parts(E, msg)
    a, b, c, v, L = g("getPad"), g("getData"), g("getChallenge"), g("getResponse"), g("getConstant")
    out = []
    for n, x in (("pad alpha", al), ("data beta", be), ("commitment a", a), ("commitment b", b)):
        out.append(("%s is a residue of the subgroup" % n, res(x)))
    for n, x in (("challenge c", c), ("response v", v)):
        out.append(("%s is in [0,Q)" % n, inb(x)))
    out.append(("c = H(Q', alpha, beta, a, b)", eqn(c, H(q, al, be, a, b))))
    out.append(("g^v = a alpha^c", eqn(gp(v), mul(a, pw(al, c)))))
    cl = app(EG + "mul_mod_p", c, app(EG + "ElementModQ::fromUint64", L))
    out.append(("g^(L c) K^v = b beta^c", eqn(mul(gp(cl), pw(k, v)), mul(b, pw(be, c)))))
    return out


def solve_eqs(A):
    """Rewrite map from the linear Z_q equalities among A's conjuncts (atom := rest)."""
    m = {}
    for c in conjuncts(A):
        if c.op != "q0":
            continue
        po = to_poly(c.a[0])
        for mono, k in po.items():
            if len(mono) == 1 and mono[0][1] == 1 and k in (1, -1) and mono[0][0].op == "fld":
                at = mono[0][0]
                rest = p_add(po, {mono: k}, -1)
                if k == 1:
                    rest = p_add({}, rest, -1)
                rt = p_term(rest)
                if not has(rt, at) and at not in m:
                    m[at] = rt
                    break
    return m


def implied(C, A, c):
    """Does acceptance condition A (canonical) force conjunct c (canonical)?"""
    if implies(A, c):
        return True
    sol = dict(solve_eqs(A))
    for q in conjuncts(A):
        if q.op == "eq":        # two names of one value
            for a, b in ((q.a[0], q.a[1]), (q.a[1], q.a[0])):
                if a.op in ("fld", "sym") and b.op in ("fld", "sym"):
                    sol.setdefault(a, b)
    for at, rt in sol.items():
        m = {at: rt}
        A2, c2 = Canon()(subst(A, m)), Canon()(subst(c, m))
        if implies(A2, c2):
            return True
    return False


def check_spec(ctx, fn, A, spec, what):
    C = Canon()
    A = C(A)
    for n, t in spec:
        c = C(t)
        if A is FALSE:
            ctx.bad("%s requires %s" % (what, n), ctx.loc(fn), "never accepts")
            continue
        ctx.need(implied(C, A, c), "%s requires %s" % (what, n), ctx.loc(fn),
                 "a proof can be accepted without this conjunct; acceptance condition: %s" % show(A)[:500], about=[A])
    return A


def verifier(ctx, E, cls):
    fn = find(ctx.p, cls + "::isValid", ["ElGamalCiphertext", "ElementModP", "ElementModQ"])
    proof, msg, k, q = sym("proof"), sym("msg"), sym("K"), sym("Qbar")
    r = E.run(fn, args=[msg, k, q], this=proof)
    return fn, cond_true(r), (proof, msg, k, q)


@check("C01", "gated value numbering of the verifier's return value + algebraic normal forms",
       "the condition under which isValid returns true must imply, for each proof kind, every bound check, the "
       "Fiat-Shamir hash and every verification equation of the published scheme.")
def c01(ctx):
    E = Engine(ctx)
    fn, A, s = verifier(ctx, E, DCP)
    check_spec(ctx, fn, A, disjunctive_spec(E, *s), DCP + "::isValid")
    fn, A, s = verifier(ctx, E, CCP)
    check_spec(ctx, fn, A, constant_spec(E, *s), CCP + "::isValid")
    # the membership predicates the verifiers rest on
    C = Canon()
    x = sym("x")
    fn = find(ctx.p, "ElementModP::isValidResidue", n=0)
    A = C(cond_true(E.run(fn, this=x)))
    inbP = app(EG + "ElementModP::isInBounds", x)
    fb = find(ctx.p, "ElementModP::isInBounds", n=0)
    B = C(cond_true(E.run(fb, this=x)))
    full = C(subst(A, {inbP: B}))
    one = C(app(EG + "ONE_MOD_P"))
    order = C(T("eq", app(EG + "pow_mod_p", x, app(EG + "Q")), app(EG + "ONE_MOD_P")))
    ctx.need(implies(full, order), "isValidResidue requires x^Q mod P = 1", ctx.loc(fn), show(full)[:300])
    for n, f, full, lo, hi in (("ElementModP::isValidResidue", fn, full, "ZERO_MOD_P", "P"),):
        bounds(ctx, n, f, full, x, lo, hi)
    fq = find(ctx.p, "ElementModQ::isInBounds", n=0)
    Bq = C(cond_true(E.run(fq, this=x)))
    bounds(ctx, "ElementModQ::isInBounds", fq, Bq, x, "ZERO_MOD_Q", "Q")
    # element equality compares every limb
    for cls in ("ElementModP", "ElementModQ"):
        limbs(ctx, cls)


def bounds(ctx, n, fn, A, x, lo, hi):
    def is_(t, name):
        return t.op == "app" and t.a[0].replace(EG, "") == name or (name in ("ZERO_MOD_Q", "Q") and t.op == "qpoly" and not t.a)
    up = any(c.op == "lt" and c.a[0] is x and is_(c.a[1], hi) for c in conjuncts(A))
    ctx.need(up, "%s requires x < %s" % (n, hi), ctx.loc(fn), show(A)[:300])


def limbs(ctx, cls):
    """operator== must compare all limbs: returns true only if no index in [0, LEN) differs."""
    from .. import domain
    ip = domain.make(ctx.p, opaque=[EG + cls + "::get"], inline_vocab=True)
    for k in list(ip.models):
        if k.startswith(EG + cls + "::operator") or k.startswith(EG + "operator"):
            del ip.models[k]
    fn = find(ctx.p, cls + "::operator==", n=1)
    a, b = sym("a"), sym("b")
    r = ip.run(fn, args=[b], this=a)
    ctx.saw(ip)
    A = cond_true(r)
    n = {"ElementModP": 64, "ElementModQ": 4}[cls]
    ok = False
    why = show(A)[:300]
    C = Canon()
    A = C(A)
    for c in conjuncts(A):
        if c.op == "not" and c.a[0].op == "exists":
            h, coll, body = c.a[0].a
            if coll.op == "app" and coll.a[0] in ("range",) and coll.a[1].op == "int" and coll.a[1].a[0] >= n \
                    or coll.op == "app" and coll.a[0] == "range2" and coll.a[1].op == "int" and coll.a[1].a[0] == 0 \
                    and coll.a[2].op == "int" and coll.a[2].a[0] >= n:
                d = body.a[0] if body.op == "not" else None
                if d is not None and d.op == "eq" and has(d, a) and has(d, b) and has(d, T("bv", h)):
                    ok = True
        if c.op == "eq" and c.a[0].op == "app" and c.a[0].a[0] in ("memcmp", "std::memcmp"):
            sz = [y for y in c.a[0].a[1:] if isinstance(y, T) and y.op == "int"]
            ok = ok or any(z.a[0] >= 8 * n for z in sz)
        if c.op == "app" and c.a[0] in ("std::equal",) or c.op == "eq" and has(c, a) and has(c, b) and not any(
                z.op == "app" and z.a[0] == "idx" for z in subterms(c)):
            ok = True
    ctx.need(ok, "%s equality compares every limb" % cls, ctx.loc(fn), why)


# ---------------------------------------------------------------- completeness

def wellformed_atom(c, bases):
    """isValidResidue of a product of subgroup generators / isInBounds of a Z_q expression."""
    if c.op == "app" and nm(c) == "ElementModP::isValidResidue":
        return all(b in bases for b in to_prod(c.a[1]))
    if c.op == "app" and nm(c) == "ElementModQ::isInBounds":
        x = c.a[1]
        return is_q(x) or x.op == "app" and nm(x) in ("rand_q", "hash_elems", "QSUM", "ElementModQ::fromUint64") or \
            x.op in ("sym", "fld")
    return False


def residual(A, bases):
    """Conjuncts of an acceptance condition that do not hold by construction."""
    if A is FALSE:
        return [FALSE]
    return [c for c in conjuncts(A) if c is not TRUE and not wellformed_atom(c, bases)]


def short_terms(cs, n=400):
    return "; ".join(show(c)[:n] for c in cs)[:1200]


def fresh_engine(ctx, K, full, **kw):
    return Engine(ctx, models=pre_models(ctx.p, K, full), transparent_clone=False, **kw)


@check("C02", "gated value numbering of prover and verifier + decision of the verification equations in Z_q[x] / free "
              "abelian group normal form",
       "for every vote, key, nonce and both precompute states, substituting what the encryptor/prover builds into the "
       "verifier's acceptance condition must leave only membership facts of well-formed elements (and, for a contest, "
       "'sum of votes = number elected').")
def c02(ctx):
    K, Qb = sym("K"), sym("Qbar")
    p = ctx.p
    # ciphertext shape
    for full in (False, True):
        tag = "precomputed" if full else "direct"
        E = fresh_engine(ctx, K, full)
        fn = find(p, "encryptSelection")
        sel, desc = sym("sel"), sym("desc")
        r = E.run(fn, args={"selection": sel, "description": desc, "elgamalPublicKey": K,
                            "cryptoExtendedBaseHash": Qb, "nonceSeed": sym("seed"), "shouldVerifyProofs": FALSE})
        vote = E.get("PlaintextBallotSelection", "getVote", sel)
        dh = E.run(find(p, "SelectionDescription::crypto_hash", n=0), this=desc).ret
        fv = find(p, "CiphertextBallotSelection::isValidEncryption", n=3)
        for m in (0, 1):
            enc = subst(r.ret, {vote: num(m)})
            if enc.op != "new":
                enc = Canon()(enc)
            what = "encryptSelection(vote=%d, %s)" % (m, tag)
            rho = E.get("CiphertextBallotSelection", "getNonce", enc)
            ct = E.get("CiphertextBallotSelection", "getCiphertext", enc)
            C = Canon()
            pad, data = E.get("ElGamalCiphertext", "getPad", ct), E.get("ElGamalCiphertext", "getData", ct)
            ctx.need(C(T("eq", pad, gp(rho))) is TRUE, what + ": pad = g^nonce", ctx.loc(fn), show(C(pad))[:400])
            want = mul(gp(num(m)), pw(K, rho))
            ctx.need(C(T("eq", data, want)) is TRUE, what + ": data = g^vote K^nonce", ctx.loc(fn), show(C(data))[:400])
            v = E.run(fv, args=[dh, K, Qb], this=enc)
            bad = residual(C(cond_true(v)), (GEN, K))
            ctx.need(not bad, what + ": result satisfies isValidEncryption", ctx.loc(fn),
                     "not discharged: " + short_terms(bad))
            ph = E.get("CiphertextBallotSelection", "getIsPlaceholder", enc)
            ctx.need(ph is sym("isPlaceholder"), what + ": placeholder flag kept", ctx.loc(fn), show(ph)[:100])
        # any other vote is refused
        acc = FALSE
        for pc, val, s, ln in r.rets:
            acc = disj(acc, pc)
        for m in (2, 7):
            c = Canon()(subst(acc, {vote: num(m)}))
            ctx.need(c is FALSE, "encryptSelection refuses vote=%d (%s)" % (m, tag), ctx.loc(fn), show(c)[:300])
    provers(ctx)
    contest_complete(ctx)
    # homomorphic sum and key pair
    E = Engine(ctx)
    fn = find(p, "elgamalAdd")
    r = E.run(fn, args=[sym("cs")])
    X = sym("X")
    C = Canon()
    for g, n in (("getPad", "pad"), ("getData", "data")):
        got = C(E.get("ElGamalCiphertext", g, r.ret))
        want = C(app(EG + "mul_mod_p", T("seq", T("each", 1, sym("cs"), T("seq", T("one", subst(E.get("ElGamalCiphertext", g, X), {X: T("bv", 1)}))), FALSE))))
        ctx.need(got is want, "elgamalAdd: %s is the product of all %ss" % (n, n), ctx.loc(fn), show(got)[:300])
    fn = find(p, "ElGamalKeyPair::fromSecret")
    s = sym("s")
    r = E.run(fn, args={"secretKey": s})
    sk, pk = E.get("ElGamalKeyPair", "getSecretKey", r.ret), E.get("ElGamalKeyPair", "getPublicKey", r.ret)
    ctx.need(C(T("eq", sk, s)) is TRUE and C(T("eq", pk, gp(s))) is TRUE, "fromSecret: public key = g^secret", ctx.loc(fn),
             "%s / %s" % (show(sk)[:100], show(pk)[:200]))
    for m in (0, 1):
        fn = find(p, "elgamalEncrypt", n=3)
        r = E.run(fn, args=[num(m), sym("r"), K])
        for g, n, w in (("getPad", "pad", gp(sym("r"))), ("getData", "data", mul(gp(num(m)), pw(K, sym("r"))))):
            t = C(T("eq", E.get("ElGamalCiphertext", g, r.ret), w))
            ctx.need(t is TRUE, "elgamalEncrypt(%d): %s" % (m, n), ctx.loc(fn), show(t)[:300])


def provers(ctx):
    """The public proof factories, each on any well-formed ciphertext."""
    K, Qb, r_ = sym("K"), sym("Qbar"), sym("r")
    p = ctx.p
    E = fresh_engine(ctx, K, False)
    X = sym("msg")
    padt, datat = E.get("ElGamalCiphertext", "getPad", X), E.get("ElGamalCiphertext", "getData", X)

    def verify(cls, proof, m):
        fv = find(p, cls + "::isValid", ["ElGamalCiphertext", "ElementModP", "ElementModQ"])
        v = E.run(fv, args=[X, K, Qb], this=proof)
        A = subst(cond_true(v), {padt: gp(r_), datat: mul(gp(m), pw(K, r_))})
        return residual(Canon()(A), (GEN, K))
    for n, types in (("make", ["ElGamalCiphertext", "ElementModQ", "ElementModP", "ElementModQ", ""]),
                     ("make", ["ElGamalCiphertext", "ElementModQ", "ElementModP", "ElementModQ", "ElementModQ", ""])):
        fn = find(p, DCP + "::" + n, types)
        for m in (0, 1, 2):
            args = [X, r_, K, Qb] + ([sym("seed")] if len(types) == 6 else []) + [num(m)]
            r = E.run(fn, args=args)
            what = "%s::%s/%d(plaintext=%d)" % (DCP, n, len(types), m)
            if m == 2:
                ctx.need(not r.rets, what + " is refused", ctx.loc(fn), "returns a proof for a plaintext outside {0,1}")
                continue
            if r.ret is None or r.ret.op != "new":
                ctx.bad(what, ctx.loc(fn), "does not build a proof: %s" % (show(r.ret)[:200] if r.ret else None))
                continue
            bad = verify(DCP, r.ret, num(m))
            ctx.need(not bad, what + " verifies", ctx.loc(fn), "not discharged: " + short_terms(bad))
    fn = find(p, CCP + "::make", n=6)
    L = sym("L")
    r = E.run(fn, args=[X, r_, K, sym("seed"), Qb, L])
    bad = verify(CCP, r.ret, app(EG + "ElementModQ::fromUint64", L))
    ctx.need(not bad, CCP + "::make verifies for every constant", ctx.loc(fn), "not discharged: " + short_terms(bad))


def contest_complete(ctx):
    K, Qb, dh, L, X = sym("K"), sym("Qbar"), sym("dh"), sym("L"), sym("X")
    p = ctx.p
    for full in (False, True):
        tag = "precomputed" if full else "direct"
        E = fresh_engine(ctx, K, full)
        fn = find(p, "CiphertextBallotContest::make")
        r = E.run(fn, args={"elgamalPublicKey": K, "cryptoExtendedBaseHash": Qb, "descriptionHash": dh,
                            "numberElected": L, "proof": NULL, "cryptoHash": NULL, "selections": sym("sels")})
        fv = find(p, "CiphertextBallotContest::isValidEncryption", n=3)
        v = E.run(fv, args=[dh, K, Qb], this=r.ret)
        ct = E.get("CiphertextBallotSelection", "getCiphertext", X)
        pad, data = E.get("ElGamalCiphertext", "getPad", ct), E.get("ElGamalCiphertext", "getData", ct)
        non = E.get("CiphertextBallotSelection", "getNonce", X)
        fu = lambda t: app("ElementModQ::fromUint64", t)
        pats = [(pad, X, lambda x: gp(subst(non, {X: x}))),
                (data, X, lambda x: mul(gp(fu(app("vote", x))), pw(K, subst(non, {X: x}))))]
        C = Canon(patterns=pats)
        A = C(cond_true(v))
        votes = C(app(EG + "add_mod_q", T("seq", T("each", 1, sym("sels"), T("seq", T("one", fu(app("vote", T("bv", 1))))), FALSE))))
        A = Canon(patterns=pats)(subst(A, {fu(L): votes, app(EG + "ElementModQ::fromUint64", L): votes}))
        A = Canon(patterns=pats)(subst(A, {app("empty", sym("sels")): FALSE}))
        bad = residual(A, (GEN, K))
        ctx.need(not bad, "CiphertextBallotContest::make (%s): accepted whenever the votes of all selections sum to the "
                 "number elected" % tag, ctx.loc(fn), "not discharged: " + short_terms(bad))
