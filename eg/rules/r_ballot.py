"""Ballots: verification, self-checks, nonces, vote handling, chaining."""
from ..check import check
from ..api import *
from ..alg import *
from ..terms import *
from .r_proofs import H, check_spec, implied, DCP, CCP, mul
from .r_hash import same, leaves, unsorted

SEL, CON, BAL = "CiphertextBallotSelection", "CiphertextBallotContest", "CiphertextBallot"
VALID = [EG + c + "::isValidEncryption" for c in (SEL, CON, BAL)]
PROOFV = [EG + DCP + "::isValid", EG + CCP + "::isValid"]


def ncanon(t):
    return Canon()(t)


def strip(t):
    """A collection up to order."""
    while t.op == "app" and t.a[0] in ("sorted", "reversed"):
        t = t.a[1]
    return t


# ------------------------------------------------------------------ origins of a value
_n = [0]


def _fresh(tag):
    _n[0] += 1
    return sym("%s#%d" % (tag, _n[0]))


def members(coll, conds):
    """(conditions, element) for every way an element can come to be in the collection."""
    if coll.op == "seq":
        out = []
        for q in coll.a:
            if q.op == "one":
                out += cases(q.a[0], conds)
            elif q.op == "when":
                out += members(q.a[1], conds + [q.a[0]])
            elif q.op == "each":
                for cs, y in members(q.a[1], conds):
                    out += members(subst(q.a[2], {T("bv", q.a[0]): y}), cs)
            elif q.op == "splice":
                out += members(q.a[0], conds)
            else:
                out.append((conds, q))
        return out
    if coll.op == "ite":
        return members(coll.a[1], conds + [coll.a[0]]) + members(coll.a[2], conds + [neg(coll.a[0])])
    if coll.op == "app" and coll.a[0] in ("sorted", "reversed"):
        return members(coll.a[1], conds)
    e = _fresh("el")
    return [(conds + [app("in", e, coll)], e)]


def cases(t, conds):
    """(conditions, value) for every origin of a value chosen by conditionals and searches."""
    if t.op == "ite":
        return cases(t.a[1], conds + [t.a[0]]) + cases(t.a[2], conds + [neg(t.a[0])])
    if t.op == "app" and t.a[0] in ("first", "last", "pick"):
        out = []
        h = t.a[1].a[0]
        for cs, y in members(t.a[2], conds):
            m = {T("bv", h): y}
            out += cases(subst(t.a[4], m), cs + [subst(t.a[3], m)])
        return out
    return [(conds, t)]


def settled(t, conds):
    """cases, with the lookups inside the value resolved as far as the conditions do."""
    out = []
    for cs, y in cases(t, conds):
        m = {}
        for c in flat(cs):
            if c.op == "not":
                m[c.a[0]] = FALSE
            elif c.op == "exists":
                m[c] = TRUE
        y = subst(y, m)
        z = next((x for x in subterms(y) if found(x) and x.a[2].op in ("fld", "sym") and not contains(x.a[2], lambda q: q.op == "bv")
                  and not contains(x.a[3], lambda q: q.op == "bv" and q.a[0] != x.a[1].a[0])), None)
        if z is None:
            out.append((cs, y))
            continue
        for cs2, el in cases(z, cs):
            out += settled(subst(y, {z: el}), cs2)
    return out


def flat(conds):
    out = []
    for c in conds:
        for q in conjuncts(c):
            if q not in out:
                out.append(q)
    return out


class Eqs:
    def __init__(self, conds):
        self.p = {}
        self.cs = flat(conds)
        for c in self.cs:
            if c.op == "eq":
                a, b = self.rep(c.a[0]), self.rep(c.a[1])
                if a is not b:
                    # constants and older terms win
                    self.p[b] = a
        self.cs = [c for c in self.cs]

    def rep(self, t):
        while t in self.p:
            t = self.p[t]
        return t

    def eq(self, a, b):
        return self.rep(a) is self.rep(b)

    def isin(self, e, coll):
        return any(c.op == "app" and c.a[0] == "in" and c.a[1] is e and strip(c.a[2]) is strip(coll) for c in self.cs)

    def none(self, coll, key, val):
        """Entailed: no element z of coll has key(z) = val."""
        for c in self.cs:
            if c.op == "not" and c.a[0].op == "exists":
                h, cc, P = c.a[0].a
                if strip(cc) is not strip(coll):
                    continue
                z = _fresh("z")
                Q = subst(P, {T("bv", h): z})
                if Q.op == "eq" and any(Q.a[i] is key(z) and self.eq(Q.a[1 - i], val) for i in (0, 1)):
                    return True
            if c.op == "app" and c.a[0] == "empty" and strip(c.a[1]) is strip(coll):
                return True
        return False


# ------------------------------------------------------------------ C04
@check("C04", "gated value numbering of the acceptance condition of every isValidEncryption",
       "acceptance must imply: description/manifest hash matches, the crypto hash recomputes, the proof is present and "
       "valid for this object's own ciphertexts under the caller's key and base hash, for every contest and selection.")
def c04(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=PRECOMP + PROOFV + VALID[:2])
    x, h, K, Q = sym("x"), sym("h"), sym("K"), sym("Q")

    def cond(cls):
        fn = find(p, cls + "::isValidEncryption", n=3)
        e = Engine(ctx, opaque=[o for o in E.opaque if o != EG + cls + "::isValidEncryption"])
        return fn, cond_true(e.run(fn, args=[h, K, Q], this=x))

    def recomputed(cls):
        return E.run(find(p, cls + "::crypto_hash_with", n=1), args=[h], this=x).ret

    fn, A = cond(SEL)
    g = lambda n: E.get(SEL, n, x)
    spec = [("the expected description hash to be the selection's", T("eq", h, g("getDescriptionHash"))),
            ("the stored hash to be recomputable", T("eq", g("getCryptoHash"), recomputed(SEL))),
            ("a proof", T("nonnull", g("getProof"))),
            ("the proof to be valid for its own ciphertext, the caller's key and base hash",
             app(EG + DCP + "::isValid", g("getProof"), g("getCiphertext"), K, Q))]
    check_spec(ctx, fn, A, spec, SEL + "::isValidEncryption")

    fn, A = cond(CON)
    g = lambda n: E.get(CON, n, x)
    acc = g("getCiphertextAccumulation")
    sels = unsorted(g("getSelections"))
    tot = E.run(find(p, "elgamalAdd"), args=[T("seq", T("each", 1, sels, T("seq", T("one", _of(E, SEL, "getCiphertext", 1))), FALSE))]).ret
    gg = lambda n, o: E.get("ElGamalCiphertext", n, o)
    spec = [("the expected description hash to be the contest's", T("eq", h, g("getDescriptionHash"))),
            ("the stored hash to be recomputable", T("eq", g("getCryptoHash"), recomputed(CON))),
            ("a proof", T("nonnull", g("getProof"))),
            ("the accumulated pad to be the product of all selections' pads", T("eq", gg("getPad", acc), gg("getPad", tot))),
            ("the accumulated data to be the product of all selections' data", T("eq", gg("getData", acc), gg("getData", tot)))]
    A = check_spec(ctx, fn, A, spec, CON + "::isValidEncryption")
    # the proof is checked on that very accumulation
    C = Canon()
    alts = [C(app(EG + CCP + "::isValid", g("getProof"), o, K, Q)) for o in (acc, tot)]
    ctx.need(any(implies(A, c) for c in alts),
             CON + "::isValidEncryption requires the proof to be valid for the accumulation, the caller's key and base hash",
             ctx.loc(fn), show(A)[:500], about=[A])

    fn, A = cond(BAL)
    g = lambda n: E.get(BAL, n, x)
    spec = [("the expected manifest hash to be the ballot's", T("eq", h, g("getManifestHash"))),
            ("the stored hash to be recomputable", T("eq", g("getCryptoHash"), recomputed(BAL)))]
    cons = unsorted(g("getContests"))
    X = sym("X!")
    dhc = subst(E.get(CON, "getDescriptionHash", X), {X: T("bv", 1)})
    spec.append(("every contest to be valid", neg(T("exists", 1, cons, neg(app(VALID[1], T("bv", 1), dhc, K, Q))))))
    inner = unsorted(subst(E.get(CON, "getSelections", X), {X: T("bv", 2)}))
    dhs = subst(E.get(SEL, "getDescriptionHash", X), {X: T("bv", 1)})
    spec.append(("every selection of every contest to be valid",
                 neg(T("exists", 2, cons, T("exists", 1, inner, neg(app(VALID[0], T("bv", 1), dhs, K, Q)))))))
    check_spec(ctx, fn, A, spec, BAL + "::isValidEncryption")


def _of(E, cls, getter, h):
    X = sym("X!")
    return subst(E.get(cls, getter, X), {X: T("bv", h)})


# ------------------------------------------------------------------ C05
@check("C05", "gated value numbering: path condition of every return of the encryption functions",
       "with proof verification requested, every normal return is guarded by isValidEncryption of the very object "
       "returned, and the request reaches every nested encryption.")
def c05(ctx):
    p = ctx.p
    for f, cls, opq in (("encryptSelection", SEL, []), ("encryptContest", CON, ["encryptSelection"]),
                        ("encryptBallot", BAL, ["encryptContests"])):
        fn = find(p, f)
        E = Engine(ctx, opaque=PRECOMP + VALID + [EG + "hashedElgamalEncrypt", EG + "getOvervoteAndWriteIns"] + [EG + o for o in opq])
        r = E.run(fn, args={"shouldVerifyProofs": TRUE})
        if not r.rets:
            ctx.bad(f + " returns", ctx.loc(fn), "no normal return")
        for pc, v, s, ln in r.rets:
            guards = [q for q in subterms_conj(pc) if q.op == "app" and q.a[0] == EG + cls + "::isValidEncryption"]
            cv = ncanon(v)
            ok = any(ncanon(q.a[1]) is cv for q in guards)
            ctx.need(ok, "%s: the returned object passed isValidEncryption" % f, ctx.loc(fn, ln),
                     "a path returns an object that was not verified; guards: %s" % [show(q)[:120] for q in guards])
            for q in guards:
                if ncanon(q.a[1]) is not cv:
                    continue
                if f == "encryptBallot":
                    want = [E.get("InternalManifest", "getManifestHash", sym("manifest")),
                            E.get("CiphertextElectionContext", "getElGamalPublicKey", sym("context")),
                            E.get("CiphertextElectionContext", "getCryptoExtendedBaseHash", sym("context"))]
                else:
                    dcl = "SelectionDescription" if f == "encryptSelection" else "ContestDescription"
                    want = [E.run(find(p, dcl + "::crypto_hash", n=0), this=sym("description")).ret,
                            sym("elgamalPublicKey"), sym("cryptoExtendedBaseHash")]
                for n, a, w in zip(("hash", "key", "base hash"), q.a[2:], want):
                    ctx.need(same(a, w) is None, "%s: verified against the caller's %s" % (f, n), ctx.loc(fn, ln),
                             "%s instead of %s" % (show(a)[:200], show(w)[:200]))
        # nested encryptions are asked to verify as well
    for f, nested in (("encryptContest", "encryptSelection"), ("encryptContests", "encryptContest"),
                      ("encryptCompactBallot", "encryptBallot"), ("EncryptionMediator::encrypt", "encryptBallot"),
                      ("EncryptionMediator::compactEncrypt", "encryptCompactBallot")):
        fn = find(p, f)
        E = Engine(ctx, opaque=PRECOMP + VALID + [EG + nested, EG + "hashedElgamalEncrypt", EG + "getOvervoteAndWriteIns",
                                                  EG + "InternalManifest::getContestsFor", EG + "InternalManifest::getBallotStyle"])
        r = E.run(fn)
        calls = calls_of(r, EG + nested)
        idx = pnames(find(p, nested)).index("shouldVerifyProofs")
        if not calls:
            ctx.undecide("%s forwards shouldVerifyProofs" % f, ctx.loc(fn), "no call of %s in the result" % nested)
        for c in calls:
            ctx.need(c.a[1 + idx] is sym("shouldVerifyProofs") or c.a[1 + idx] is TRUE,
                     "%s forwards shouldVerifyProofs to %s" % (f, nested), ctx.loc(fn), show(c.a[1 + idx])[:200])
    for f in ("encryptSelection", "encryptContest", "encryptContests", "encryptBallot", "encryptCompactBallot",
              "EncryptionMediator::encrypt", "EncryptionMediator::compactEncrypt"):
        ds = defaults(p, EG + f, "shouldVerifyProofs")
        for d, where in ds:
            ctx.need(d is True, "%s verifies by default" % f, where, "default is %s" % d)


def defaults(p, name, pname):
    """Literal default values of the parameter over all declarations."""
    out = []
    for f in p.fn(name):
        for q, n in zip(f["ps"], pnames(f)):
            if n == pname and q.get("d") is not None:
                d = q["d"]
                while d.get("k") in ("cast", "paren"):
                    d = d["e"]
                out.append((d.get("v") if "v" in d else d, "%s:%s" % (f["file"], f.get("l"))))
    return out


def subterms_conj(pc):
    return list(conjuncts(pc))


def calls_of(r, name):
    out = []
    for pc, v, s, ln in r.rets:
        for t in ([v] if v is not None else []) + list(getattr(s, "S", s).values()):
            if isinstance(t, T):
                for q in subterms(t):
                    if q.op == "app" and q.a[0] == name and q not in out:
                        out.append(q)
    return out
