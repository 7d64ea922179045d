"""Nonces, vote handling, mediator, compact ballots, submitted ballots."""
from ..check import check, unresolved
from ..api import *
from ..alg import *
from ..terms import *
from .r_proofs import H, DCP, CCP, fresh_engine
from .r_hash import same, leaves, unsorted
from .r_ballot import *
from .r_ballot import _fresh

FLOW = [EG + n for n in ("InternalManifest::getContestsFor", "InternalManifest::getBallotStyle", "getOvervoteAndWriteIns",
                         "hashedElgamalEncrypt")]


def eqv(a, b):
    return a is not None and b is not None and same(a, b) is None


def nonce_seq(seed, header, i):
    return H(H(seed, header), i)


def entropy(t):
    """A value drawn fresh, or derived by hashing."""
    return t.op == "app" and t.a[0].replace(EG, "") in ("rand_q", "hash_elems")


# ------------------------------------------------------------------ C06
@check("C06", "gated value numbering of every nonce; distinctness of the terms",
       "nonces are derived from the caller's seed by hashing with the object's own description hash and index (or drawn "
       "fresh), and the random values of one proof are pairwise different terms, none of them the encryption nonce.")
def c06(ctx):
    p = ctx.p
    K, Qb = sym("K"), sym("Qbar")
    # selections
    E = fresh_engine(ctx, K, False)
    fn = find(p, "encryptSelection")
    d, s0 = sym("description"), sym("nonceSeed")
    r = E.run(fn, args={"elgamalPublicKey": K, "shouldVerifyProofs": FALSE})
    dh = E.run(find(p, "SelectionDescription::crypto_hash", n=0), this=d).ret
    want = nonce_seq(dh, s0, E.get("SelectionDescription", "getSequenceOrder", d))
    for o in leaves(r.ret):
        if o.op != "new":
            continue
        got = E.get(SEL, "getNonce", o)
        ctx.need(eqv(got, want), "encryptSelection: nonce = H(H(description hash, seed), sequence order)", ctx.loc(fn),
                 show(ncanon(got))[:300])
    E = fresh_engine(ctx, K, True)
    r = E.run(fn, args={"elgamalPublicKey": K, "shouldVerifyProofs": FALSE})
    for o in leaves(r.ret):
        if o.op == "new":
            got = ncanon(E.get(SEL, "getNonce", o))
            ctx.need(got.op == "app" and got.a[0] == EG + "rand_q", "encryptSelection (precomputed): the nonce was drawn fresh",
                     ctx.loc(fn), show(got)[:300])
    # contests
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptSelection", EG + CON + "::make"])
    fn = find(p, "encryptContest")
    r = E.run(fn, args={"shouldVerifyProofs": FALSE})
    cd = sym("description")
    dh = E.run(find(p, "ContestDescription::crypto_hash", n=0), this=cd).ret
    so = E.get("ContestDescription", "getSequenceOrder", cd)
    cn = nonce_seq(dh, s0, so)
    mk = calls_of(r, EG + CON + "::make")
    names = pnames(find(p, CON + "::make"))
    if not mk:
        ctx.undecide("encryptContest nonces", ctx.loc(fn), "no call of CiphertextBallotContest::make")
    si = pnames(find(p, "encryptSelection")).index("nonceSeed")
    for c in mk:
        a = dict(zip(names, c.a[1:]))
        ctx.need(eqv(a["nonce"], cn), "encryptContest: contest nonce = H(H(description hash, seed), sequence order)", ctx.loc(fn),
                 show(ncanon(a["nonce"]))[-300:])
        ps = ncanon(a["proofSeed"])
        ctx.need(entropy(ps) and ps is not ncanon(cn) and has(ps, s0), "encryptContest: the proof seed is derived from the "
                 "seed and differs from the contest nonce", ctx.loc(fn), show(ps)[-300:])
        for q in calls_of(r, EG + "encryptSelection"):
            ctx.need(eqv(q.a[1 + si], cn), "encryptContest: selections are encrypted from the contest nonce", ctx.loc(fn),
                     show(ncanon(q.a[1 + si]))[-300:])
        he = [q for q in subterms(c) if q.op == "app" and q.a[0] == EG + "hashedElgamalEncrypt"]
        hn = pnames(find(p, "hashedElgamalEncrypt")).index("nonce")
        for q in he:
            x = ncanon(q.a[1 + hn])
            ctx.need(entropy(x) and has(x, ncanon(cn)) and x is not ncanon(cn) and x is not ps,
                     "encryptContest: the extended-data nonce is derived from, and differs from, the contest nonce", ctx.loc(fn),
                     show(x)[-300:])
    # ballots
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptContests", EG + BAL + "::make"])
    fn = find(p, "encryptBallot")
    mi = pnames(find(p, BAL + "::make")).index("nonce")
    ci = pnames(find(p, "encryptContests")).index("nonceSeed")
    for given in (True, False):
        r = E.run(fn, args={"shouldVerifyProofs": FALSE, "nonce": sym("nonce") if given else NULL})
        tag = "encryptBallot (nonce %s)" % ("given" if given else "absent")
        mk = calls_of(r, EG + BAL + "::make")
        for c in mk:
            n = ncanon(subst(c.a[1 + mi], {T("nonnull", sym("nonce")): TRUE}))
            if given:
                ctx.need(n is sym("nonce"), tag + ": the ballot's nonce is the caller's", ctx.loc(fn), show(n)[:200])
            else:
                ctx.need(n.op == "app" and n.a[0] == EG + "rand_q", tag + ": the ballot's nonce is drawn fresh", ctx.loc(fn), show(n)[:200])
            want = E.run(find(p, BAL + "::nonceSeed", n=3), args=[E.get("InternalManifest", "getManifestHash", sym("manifest")),
                                                                   E.get("PlaintextBallot", "getObjectId", sym("ballot")), n]).ret
            spec = H(E.get("InternalManifest", "getManifestHash", sym("manifest")), E.get("PlaintextBallot", "getObjectId", sym("ballot")), n)
            for q in calls_of(r, EG + "encryptContests"):
                x = ncanon(subst(q.a[1 + ci], {T("nonnull", sym("nonce")): TRUE}))
                ctx.need(x is ncanon(spec), tag + ": contests are encrypted from H(manifest hash, ballot id, nonce)", ctx.loc(fn), show(x)[:300])
        if not mk:
            ctx.undecide(tag, ctx.loc(fn), "no call of CiphertextBallot::make")
    E0 = Engine(ctx)
    fn = find(p, BAL + "::nonceSeed", n=3)
    a = [sym("mh"), sym("id"), sym("n")]
    ctx.need(eqv(E0.run(fn, args=a).ret, H(*a)), "CiphertextBallot::nonceSeed = H(manifest hash, ballot id, nonce)", ctx.loc(fn), "")
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptContest"])
    fn = find(p, "encryptContests")
    r = E.run(fn)
    i = pnames(find(p, "encryptContest")).index("nonceSeed")
    for q in calls_of(r, EG + "encryptContest"):
        ctx.need(q.a[1 + i] is sym("nonceSeed"), "encryptContests passes its seed on", ctx.loc(fn), show(q.a[1 + i])[:200])
    # mediator: never a fixed nonce
    for f, inner in (("encrypt", "encryptBallot"), ("compactEncrypt", "encryptCompactBallot")):
        fn = find(p, "EncryptionMediator::" + f)
        E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + inner])
        r = E.run(fn, this=sym("m"))
        ns = pnames(find(p, inner))
        i = ns.index("nonce") if "nonce" in ns else ns.index("nonceSeed")
        for q in calls_of(r, EG + inner):
            x = q.a[1 + i]
            ctx.need(x is NULL or x.op == "app" and x.a[0] == EG + "rand_q", "EncryptionMediator::%s draws a fresh nonce per ballot" % f,
                     ctx.loc(fn), show(x)[:200])
    # Nonces
    nonces_class(ctx)
    proof_randomness(ctx)


def nonce_range(ctx, ip, f, o, S):
    w = "Nonces: get(start, count) gives the items start, start+1, ..."
    r = ip.run(f, args=[sym("s"), sym("n")], this=o, S=dict(S))
    t = ncanon(r.ret)
    ps = list(pieces(t)) if t.op == "seq" else []
    if len(ps) != 1 or ps[0].op != "each":
        ctx.undecide(w, ctx.loc(f), show(t)[:200])
        return
    b, coll, body = ps[0].a[0], ps[0].a[1], list(pieces(ps[0].a[2]))
    bv = T("bv", b)
    if eqv(coll, app("range2", sym("s"), app("+", sym("s"), sym("n")))):
        ix = bv
    elif coll is app("range", sym("n")):
        ix = ncanon(app("+", sym("s"), bv))
    elif body and not has(body[0], bv):
        ix = None
    else:
        ctx.undecide(w, ctx.loc(f), "loop over %s" % show(coll)[:100])
        return
    want = None if ix is None else ncanon(nonce_seq(sym("seed"), sym("hdr"), ix))
    ok = len(body) == 1 and body[0].op == "one" and body[0].a[0] is want
    ctx.need(ok, w, ctx.loc(f), show(t)[:200], about=[q.a[0] for q in body if q.op == "one"])


def nonces_class(ctx):
    p = ctx.p
    from .. import domain
    ip = domain.make(p)
    o = ip.newobj("Nonces")
    ctor = find(p, "Nonces::Nonces", n=2)
    r = ip.run(ctor, args=[sym("seed"), sym("hdr")], this=o)
    S = dict(r.st.S)
    get1 = find(p, "Nonces::get", ["unsigned long"])
    nxt = find(p, "Nonces::next", n=0)
    base = None
    r1 = ip.run(get1, args=[sym("i")], this=o, S=S)
    want = nonce_seq(sym("seed"), sym("hdr"), sym("i"))
    ctx.need(eqv(r1.ret, want), "Nonces: item i = H(H(seed, header), i)", ctx.loc(get1), show(r1.ret)[:200])
    r2 = ip.run(nxt, this=o, S=dict(r1.st.S))
    want2 = nonce_seq(sym("seed"), sym("hdr"), ncanon(app("+", num(1), sym("i"))))
    r3 = ip.run(nxt, this=o, S=dict(r2.st.S))
    vals = [ncanon(x.ret) for x in (r1, r2, r3)]
    ctx.need(len(set(vals)) == 3 and eqv(r2.ret, want2), "Nonces: next() after get(i) is item i+1, and never repeats", ctx.loc(nxt),
             show(vals[1])[:200])
    f = find(p, "Nonces::get", ["unsigned long", "std::string"])
    r = ip.run(f, args=[sym("i"), sym("hd")], this=o, S=dict(S))
    ctx.need(eqv(r.ret, H(H(sym("seed"), sym("hdr")), sym("i"), sym("hd"))), "Nonces: item with header binds seed, index and header",
             ctx.loc(f), show(r.ret)[:200])
    r4 = ip.run(nxt, this=o, S=dict(r.st.S))
    ctx.need(eqv(r4.ret, want2), "Nonces: next() after get(i, header) is item i+1", ctx.loc(f), show(ncanon(r4.ret))[:200], about=[r4.ret])
    for f in finds(p, "Nonces::get"):
        if [x["t"] for x in f["ps"]] == ["unsigned long", "unsigned long"]:
            ctx.part("Nonces::get(start, count)", nonce_range, ctx, ip, f, o, S)
    ip2 = domain.make(p)
    o2 = ip2.newobj("Nonces")
    r = ip2.run(find(p, "Nonces::Nonces", n=1), args=[sym("seed")], this=o2)
    r = ip2.run(get1, args=[sym("i")], this=o2, S=dict(r.st.S))
    ctx.need(eqv(r.ret, H(sym("seed"), sym("i"))), "Nonces without header: item i = H(seed, i)", ctx.loc(get1), show(r.ret)[:200])
    ctx.saw(ip)
    ctx.saw(ip2)


def proof_randomness(ctx):
    p = ctx.p
    K, Qb, r_, X = sym("K"), sym("Qbar"), sym("r"), sym("msg")
    E = fresh_engine(ctx, K, False)

    def check_atoms(what, fn, atoms):
        """Jointly uniform: eliminating one private random atom per value must succeed for all of them."""
        left = [(n, to_poly(t)) for n, t in atoms]
        while left:
            hit = None
            for n, po in left:
                for m, k in po.items():
                    if k in (1, -1) and len(m) == 1 and m[0][1] == 1 and entropy(m[0][0]):
                        at = m[0][0]
                        if sum(1 for m2 in po for x in m2 if x[0] is at) == 1 and \
                                not any(x[0] is at for n2, p2 in left if n2 != n for m2 in p2 for x in m2):
                            hit = n
            if hit is None:
                break
            left = [x for x in left if x[0] != hit]
        bad = [n for n, _ in left]
        ctx.need(not bad, "%s: its random values are fresh or derived, independent of one another and of the encryption nonce" % what,
                 ctx.loc(fn), "not independent random values: %s" % "; ".join("%s = %s" % (n, show(p_term(po))[:200]) for n, po in left))

    def one_atom(t):
        """the single atom of a Z_q polynomial"""
        q = to_poly(t)
        if len(q) == 1:
            (m, k), = q.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return t

    def diff(v, c, r):
        return one_atom(p_term(p_add(to_poly(ncanon(v)), p_mul(to_poly(ncanon(c)), to_poly(r)), -1)))
    for types in (["ElGamalCiphertext", "ElementModQ", "ElementModP", "ElementModQ", ""],
                  ["ElGamalCiphertext", "ElementModQ", "ElementModP", "ElementModQ", "ElementModQ", ""]):
        fn = find(p, DCP + "::make", types)
        for m in (0, 1):
            args = [X, r_, K, Qb] + ([sym("seed")] if len(types) == 6 else []) + [num(m)]
            r = E.run(fn, args=args)
            g = lambda n: E.get(DCP, n, r.ret)
            real, fake = ("Zero", "One") if m == 0 else ("One", "Zero")
            u = diff(g("getProof%sResponse" % real), g("getProof%sChallenge" % real), r_)
            check_atoms("%s::make/%d(%d)" % (DCP, len(types), m), fn, [
                ("the commitment exponent", u), ("the simulated challenge", ncanon(g("getProof%sChallenge" % fake))),
                ("the simulated response", ncanon(g("getProof%sResponse" % fake)))])
    fn = find(p, CCP + "::make", n=6)
    r = E.run(fn, args=[X, r_, K, sym("seed"), Qb, sym("L")])
    u = diff(E.get(CCP, "getResponse", r.ret), E.get(CCP, "getChallenge", r.ret), r_)
    check_atoms(CCP + "::make", fn, [("the commitment exponent", u)])
    # with precomputed values
    E = fresh_engine(ctx, K, True)
    r = E.run(fn, args=[X, r_, K, sym("seed"), Qb, sym("L")])
    u = diff(E.get(CCP, "getResponse", r.ret), E.get(CCP, "getChallenge", r.ret), r_)
    check_atoms(CCP + "::make (precomputed)", fn, [("the commitment exponent", u)])
    fn = find(p, "encryptSelection")
    sel = sym("sel")
    r = E.run(fn, args={"selection": sel, "elgamalPublicKey": K, "cryptoExtendedBaseHash": Qb, "shouldVerifyProofs": FALSE})
    vote = E.get("PlaintextBallotSelection", "getVote", sel)
    for m in (0, 1):
        o = Canon()(subst(r.ret, {vote: num(m)}))
        if o.op != "new":
            ctx.undecide("encryptSelection (precomputed, vote %d)" % m, ctx.loc(fn), show(o)[:200])
            continue
        rho = ncanon(E.get(SEL, "getNonce", o))
        pr = E.get(SEL, "getProof", o)
        g = lambda n: E.get(DCP, n, pr)
        real, fake = ("Zero", "One") if m == 0 else ("One", "Zero")
        u = diff(g("getProof%sResponse" % real), g("getProof%sChallenge" % real), rho)
        check_atoms("encryptSelection (precomputed, vote %d)" % m, fn, [
            ("the encryption nonce", rho), ("the commitment exponent", u),
            ("the simulated challenge", ncanon(g("getProof%sChallenge" % fake))),
            ("the simulated response", ncanon(g("getProof%sResponse" % fake)))])


# ------------------------------------------------------------------ C07
PBS, PBC, PB = "PlaintextBallotSelection", "PlaintextBallotContest", "PlaintextBallot"


def lin(t, env=None):
    """Linear form {atom: coefficient} over the integers (None: constant)."""
    if env and t in env:
        return env[t]
    if t.op == "int":
        return {None: t.a[0]} if t.a[0] else {}
    if t.op == "app" and t.a[0] in ("+", "-") and len(t.a) >= 3:
        out = dict(lin(t.a[1], env))
        for x in t.a[2:]:
            for k, v in lin(x, env).items():
                out[k] = out.get(k, 0) + (v if t.a[0] == "+" else -v)
        return {k: v for k, v in out.items() if v}
    if t.op == "app" and t.a[0] == "*" and len(t.a) == 3:
        for i in (1, 2):
            if t.a[i].op == "int":
                return {k: v * t.a[i].a[0] for k, v in lin(t.a[3 - i], env).items() if v * t.a[i].a[0]}
    return {t: 1}


def lsub(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


def less(c):
    """c as A - B < 0 with linear A, B, or None."""
    if c.op == "not":
        x = less(c.a[0])
        if x is None:
            return None
        a, b = x
        # not (a < b)  <=>  b - 1 < a
        return lsub(b, {None: 1}), a
    if c.op == "app" and c.a[0] == "<":
        return lin(c.a[1]), lin(c.a[2])
    if c.op == "lt":
        return lin(c.a[0]), lin(c.a[1])
    return None


def walk_each(coll):
    """(bound element or None, source collection, conditions, element) of a built list; None where the shape is unknown."""
    out = []
    for q in coll.a if coll.op == "seq" else [T("splice", coll)]:
        if q.op == "one":
            out.append((None, None, [], q.a[0]))
        elif q.op == "when":
            for d, s, cs, x in walk_each(q.a[1]):
                out.append((d, s, [q.a[0]] + cs, x))
        elif q.op == "each":
            d = _fresh("d")
            body = subst(q.a[2], {T("bv", q.a[0]): d})
            for d2, s2, cs, x in walk_each(body):
                if d2 is None:
                    out.append((d, q.a[1], cs + ([] if q.a[3] is FALSE else [q.a[3]]), x))
                else:
                    out.append((d, q.a[1], cs + [T("nested", d2, s2)], x))
        else:
            out.append((None, None, [T("shape", q)], q))
    return out


@check("C07", "gated value numbering of plaintext validation and of the list of encryptions; origin enumeration of every vote",
       "each description's selection is encrypted exactly once, with the voter's own vote for that id (or 0), zero on overvote; "
       "placeholders fill exactly up to the number elected; invalid contests are refused; contests are those of the ballot style.")
def c07(ctx):
    for n, f in (("plaintext validation", plaintext_valid), ("encryptContest", contest_votes), ("overvotes and write-ins", overvotes),
                 ("encryptContests", ballot_contests), ("contests of a ballot style", style_contests)):
        ctx.part(n, f, ctx)


def plaintext_valid(ctx):
    p = ctx.p
    E = Engine(ctx)
    c = sym("c")
    fn = find(p, PBC + "::isValid")
    r = E.run(fn, this=c)
    names = pnames(fn)
    oid, nsel, nel, allow = [sym(n) for n in names[:4]]
    sels = unsorted(E.get(PBC, "getSelections", c))
    X = sym("X!")
    vote = E.get(PBS, "getVote", X)
    v = subst(vote, {X: T("bv", 1)})

    def fold(body):
        return app("fold", "+", num(0), T("each", 1, sels, T("seq", body), FALSE))

    total = ncanon(fold(T("one", v)))
    counts = [ncanon(fold(T("when", q, T("seq", T("one", num(1)))))) for q in
              (neg(T("lt", v, num(1))), T("lt", num(0), v), neg(T("eq", v, num(0))))]
    lim = ncanon(ite(T("eq", allow, num(0)), nel, allow))

    succ = FALSE
    over = FALSE
    for pc, val, s, ln in r.rets:
        if val is num(0):
            succ = disj(succ, pc)
        if val is num(1):
            over = disj(over, pc)
        if val.op != "int":
            ctx.undecide(PBC + "::isValid", ctx.loc(fn, ln), "return value not a constant: " + show(val)[:200])
    succ = ncanon(succ)
    lt = lambda a, b: ncanon(T("lt", a, b))
    exceeds = disj(*[lt(nel, k) for k in counts[:1]], )
    spec = [("the contest id is the expected one", ncanon(T("eq", oid, E.get(PBC, "getObjectId", c)))),
            ("at most the expected number of selections", neg(lt(nsel, app("size", sels)))),
            ("at most numberElected selections are voted for", neg(lt(nel, counts[0]))),
            ("the votes do not exceed the votes allowed", neg(lt(lim, total)))]
    for n, s in spec:
        ctx.need(implies(succ, s), PBC + "::isValid succeeds only if " + n, ctx.loc(fn), "acceptance: " + show(succ)[:500], about=[succ])
    ctx.need(implies(conj(*[s for _, s in spec]), succ), PBC + "::isValid accepts every contest within its limits", ctx.loc(fn),
             "acceptance: " + show(succ)[:500], about=[succ])
    ov = conj(spec[0][1], spec[1][1], disj(neg(spec[2][1]), neg(spec[3][1])), sym("supportOvervotes"))
    ctx.need(equivalent(ncanon(over), ov), PBC + "::isValid reports OVERVOTE exactly for overvoted contests when supported", ctx.loc(fn),
             "condition: " + show(ncanon(over))[:500], about=[over])
    fn = find(p, PBS + "::isValid")
    r = E.run(fn, this=c)
    A = ncanon(cond_true(r))
    vt = E.get(PBS, "getVote", c)
    spec = [("the id is the expected one", ncanon(T("eq", sym(pnames(fn)[0]), E.get(PBS, "getObjectId", c)))),
            ("the vote is 0 or 1", neg(lt(num(1), vt)))]
    for n, s in spec:
        ctx.need(implies(A, s), PBS + "::isValid only if " + n, ctx.loc(fn), show(A)[:300], about=[A])


def contest_votes(ctx):
    p = ctx.p
    fn = find(p, "encryptContest")
    IV = EG + PBC + "::isValid"
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptSelection", EG + CON + "::make", IV])
    ip = E.ip()
    c, d = sym("contest"), sym("description")
    r = E.run(fn, args={"shouldVerifyProofs": FALSE}, ip=ip)
    ivs = []
    for pc, v, s, ln in r.rets:
        for q in list(subterms(pc)) + list(subterms(v)):
            if q.op == "app" and q.a[0] == IV and q not in ivs:
                ivs.append(q)
    if not ivs:
        ctx.bad("encryptContest validates the plaintext contest", ctx.loc(fn), "no call of PlaintextBallotContest::isValid decides the result")
        return
    iv = ivs[0]
    g = lambda n: E.get("ContestDescription", n, d)
    dsels = unsorted(g("getSelections"))
    dpl = unsorted(E.get("ContestDescriptionWithPlaceholders", "getPlaceholders", d))
    nel = g("getNumberElected")
    want = [c, g("getObjectId"), app("size", dsels), nel, g("getVotesAllowed")]
    nmv = ["contest", "id", "number of selections", "number elected", "votes allowed"]
    for n, a, w in zip(nmv, iv.a[1:], want):
        ctx.need(eqv(unsorted(a), w), "encryptContest validates against the description's " + n, ctx.loc(fn), show(a)[:200], about=[a])
    # only SUCCESS and OVERVOTE are encrypted
    for code in (2, 3):
        for pc, v, s, ln in r.rets:
            x = subst(pc, {q: num(code) for q in ivs})
            on = [y for y in conjuncts(pc) if any(has(y, q) for q in ivs) and y.op != "nonnull"]
            sure = conj(*[y for y in on if not unresolved(y)])
            on = [y for y in on if not unresolved(y) or not implies(sure, y)]
            ctx.need(ncanon(x) is FALSE, "encryptContest refuses an invalid contest (code %d)" % code, ctx.loc(fn, ln), show(ncanon(conj(*on)))[:300],
                     about=on or [x])
    names = pnames(find(p, CON + "::make"))
    en = pnames(find(p, "encryptSelection"))
    mk = calls_of(r, EG + CON + "::make")
    if not mk:
        ctx.undecide("encryptContest", ctx.loc(fn), "no call of CiphertextBallotContest::make")
    for code, tag in ((0, "valid"), (1, "overvoted")):
        m = {q: num(code) for q in ivs}
        for call in mk:
            a = dict(zip(names, call.a[1:]))
            for k, w in (("objectId", E.get(PBC, "getObjectId", c)), ("sequenceOrder", g("getSequenceOrder")), ("numberElected", nel)):
                if k in a:
                    ok = eqv(a[k], w) or k == "objectId" and eqv(a[k], g("getObjectId"))
                    ctx.need(ok, "encryptContest: the contest's %s is its description's" % k, ctx.loc(fn), show(a[k])[:200], about=[a[k]])
            lst = ncanon(subst(a["selections"], m))
            seen = {"sel": 0, "pl": 0}
            for el, src, conds, x in walk_each(lst):
                if src is None or x.op != "app" or x.a[0] != EG + "encryptSelection" or any(q.op in ("nested", "shape") for q in conds):
                    ctx.undecide("encryptContest list (%s)" % tag, ctx.loc(fn), show(x)[:200])
                    seen = {"sel": None, "pl": None}
                    break
                ea = dict(zip(en, x.a[1:]))
                kind = "sel" if strip(src) is ncanon(dsels) else "pl" if strip(src) is ncanon(dpl) else None
                if kind is None:
                    ctx.undecide("encryptContest list (%s)" % tag, ctx.loc(fn), "loop over " + show(src)[:200])
                    seen = {"sel": None, "pl": None}
                    break
                what = "encryptContest (%s): each %s of the description" % (tag, "selection" if kind == "sel" else "placeholder")
                seen[kind] += 1
                ctx.need(not [q for q in conds if q is not TRUE], what + " is encrypted unconditionally", ctx.loc(fn),
                         "only when " + "; ".join(show(q)[:200] for q in conds), about=conds)
                ctx.need(ea["description"] is el, what + " is encrypted with its own description", ctx.loc(fn), show(ea["description"])[:200])
                ctx.need(ea["isPlaceholder"] is boolean(kind == "pl"), what + " is flagged correctly", ctx.loc(fn), show(ea["isPlaceholder"])[:200])
                for k in ("elgamalPublicKey", "cryptoExtendedBaseHash"):
                    ctx.need(ea[k] is sym(k), what + ": the caller's " + k, ctx.loc(fn), show(ea[k])[:200])
                if kind == "sel":
                    votes_of(ctx, E, fn, what, ea["selection"], el, c, code)
                else:
                    placeholder(ctx, E, ip, fn, what, ea["selection"], el, code, lst, nel, m, dsels)
            for kind, n in (("sel", "selection"), ("pl", "placeholder")):
                if seen[kind] is not None:
                    ctx.need(seen[kind] == 1, "encryptContest (%s) encrypts each %s exactly once" % (tag, n), ctx.loc(fn), "%d times" % seen[kind])
            # the extended data
            he = [q for q in subterms(call) if q.op == "app" and q.a[0] == EG + "hashedElgamalEncrypt"]
            hn = pnames(find(p, "hashedElgamalEncrypt"))
            for q in he:
                h = dict(zip(hn, q.a[1:]))
                w = app(EG + "getOvervoteAndWriteIns", c, sym("internalManifest"), num(code))
                msg = [v for k, v in h.items() if k == "message"]
                if msg and p.fn(EG + "getOvervoteAndWriteIns"):
                    got = ncanon(subst(msg[0], m))
                    ctx.need(has(got, ncanon(w)), "encryptContest (%s): the extended data is the overvote and write-in record" % tag,
                             ctx.loc(fn), show(got)[:300], about=[got])
                ctx.need(h.get("publicKey") is sym("elgamalPublicKey"), "encryptContest: extended data under the election key", ctx.loc(fn),
                         show(h.get("publicKey"))[:200])
            if not he:
                ctx.bad("encryptContest (%s): overvotes and write-ins are encrypted" % tag, ctx.loc(fn), "no hashedElgamalEncrypt in the contest")


def votes_of(ctx, E, fn, what, sel, el, contest, code):
    """The vote encrypted for description el."""
    elid = E.get("SelectionDescription", "getObjectId", el)
    csels = unsorted(E.get(PBC, "getSelections", contest))
    idof = lambda z: E.get(PBS, "getObjectId", z)
    for cs, y in cases(ncanon(sel), []):
        e = Eqs([ncanon(q) for q in cs])
        v = ncanon(E.get(PBS, "getVote", y)) if y.op in ("new", "sym") else None
        if v is None:
            ctx.undecide(what + ": vote", ctx.loc(fn), show(y)[:200])
            continue
        i = ncanon(idof(y))
        for vcs, vv in cases(v, []):
            ee = Eqs([ncanon(q) for q in cs + vcs])
            if code == 1:
                ctx.need(vv is num(0), what + " gets vote 0 on overvote", ctx.loc(fn), show(vv)[:200], about=[vv])
            elif vv.op == "int":
                ok = vv is num(0) and ee.none(csels, idof, elid)
                ctx.need(ok, what + " gets 0 only when the voter gave no vote for it", ctx.loc(fn),
                         "vote %s under %s" % (show(vv), "; ".join(show(q)[:150] for q in cs)), about=cs)
            else:
                src = [q.a[1] for q in ee.cs if q.op == "app" and q.a[0] == "in" and strip(q.a[2]) is ncanon(csels)]
                own = [z for z in src if ncanon(E.get(PBS, "getVote", z)) is vv]
                ok = any(ee.eq(ncanon(idof(z)), ncanon(elid)) for z in own)
                ctx.need(ok, what + " gets the voter's vote for the same id", ctx.loc(fn),
                         "vote %s under %s" % (show(vv)[:100], "; ".join(show(q)[:150] for q in cs)), about=[vv] + cs)
        # encryptSelection refuses a selection whose id differs, so the id needs no separate rule


def placeholder(ctx, E, ip, fn, what, sel, el, code, lst, nel, m, dsels):
    v = ncanon(E.get(PBS, "getVote", sel)) if sel.op == "new" else None
    if v is None:
        ctx.undecide(what + ": vote", ctx.loc(fn), show(sel)[:200])
        return
    i = ncanon(E.get(PBS, "getObjectId", sel))
    ctx.need(i is ncanon(E.get("SelectionDescription", "getObjectId", el)), what + " carries its own id", ctx.loc(fn), show(i)[:200], about=[i])
    if code == 1:
        ctx.need(v is num(1), what + " is selected on overvote", ctx.loc(fn), show(v)[:200], about=[v])
        return
    if v.op == "int":
        ctx.bad(what + " is selected for each seat the voter left open", ctx.loc(fn), "always %s" % show(v))
        return
    cond = v.a[0] if v.op == "ite" and v.a[1] is num(1) and v.a[2] is num(0) else None
    x = less(cond) if cond is not None else None
    if x is None:
        ctx.undecide(what + ": placeholder vote", ctx.loc(fn), show(v)[:300])
        return
    I = sym("i!")
    env = {}
    for q in subterms(cond):
        if q.op == "lv":
            info = ip.lvinfo.get(q)
            if not info:
                ctx.undecide(what + ": counter", ctx.loc(fn), show(q))
                return
            init = ncanon(subst(info[0], m))
            nxt = ncanon(subst(info[1], m))
            step = None
            if nxt.op == "ite" and cond in (nxt.a[0], neg(nxt.a[0])):
                br, other = (nxt.a[1], nxt.a[2]) if nxt.a[0] is cond else (nxt.a[2], nxt.a[1])
                if other is q:
                    step = lsub(lin(br), {q: 1})
            elif nxt.op != "ite":
                step = lsub(lin(nxt), {q: 1})
            if step is None or set(step) - {None}:
                ctx.undecide(what + ": counter", ctx.loc(fn), "next value " + show(nxt)[:200])
                return
            L = dict(lin(init))
            L[I] = L.get(I, 0) + step.get(None, 0)
            env[q] = {k: vv for k, vv in L.items() if vv}

    def expand(l):
        out = {}
        for k, co in l.items():
            for k2, c2 in (env[k] if k in env else {k: 1}).items():
                out[k2] = out.get(k2, 0) + co * c2
        return {k: vv for k, vv in out.items() if vv}
    diff = expand(lsub(*x))
    # the votes encrypted for the real selections
    S = None
    for el2, src, conds, y in walk_each(lst):
        if src is not None and strip(src) is ncanon(dsels):
            b = dict(zip(pnames(find(ctx.p, "encryptSelection")), y.a[1:]))["selection"]
            vt = E.get(PBS, "getVote", b) if b.op in ("new", "sym") else app("vote?", b)
            S = (el2, b)
    foldt = [k for k in diff if k is not None and k is not I and k is not ncanon(nel)]
    const_ok = diff.get(None, 0) == 0 and diff.get(I, 0) == 1 and diff.get(ncanon(nel), 0) == -1
    ok = const_ok and len(foldt) == 1 and diff[foldt[0]] == 1 and sum_of_votes(E, foldt[0], dsels, S)
    ctx.need(ok, what + " is selected exactly while fewer than numberElected votes are encrypted", ctx.loc(fn),
             "selected when %s with i-th value %s < 0" % (show(cond)[:200], " ".join("%+d*%s" % (c, show(k)[:120] if k is not None else 1) for k, c in diff.items())),
             about=[k for k in foldt])


def sum_of_votes(E, t, dsels, S):
    """t is the sum, over the description's selections, of the vote encrypted for each."""
    if t.op != "app" or t.a[0] != "fold" or t.a[1] != "+" or t.a[2] is not num(0) or S is None:
        return False
    e = t.a[3]
    if e.op == "seq" and len(e.a) == 1:
        e = e.a[0]
    if e.op != "each" or strip(e.a[1]) is not ncanon(dsels) or e.a[3] is not FALSE:
        return False
    body = subst(e.a[2], {T("bv", e.a[0]): S[0]})
    if body.op != "seq" or len(body.a) != 1 or body.a[0].op != "one":
        return False
    fn = find(E.p, PBS + "::getVote", n=0)
    X = sym("X!")
    w = E.get(PBS, "getVote", X)
    got = body.a[0].a[0]
    if S[1].op == "new":
        return ncanon(got) is ncanon(E.get(PBS, "getVote", S[1]))
    return ncanon(got) is ncanon(subst(w, {X: S[1]}))


def overvotes(ctx):
    p = ctx.p
    E = Engine(ctx)
    fn = find(p, "getOvervoteAndWriteIns")
    ns = pnames(fn)
    c = sym(ns[0])
    r = E.run(fn)
    # an early return of nothing, when nothing was recorded
    nil = [z for z in r.rets if z[1].op == "str" and z[1].a[0] == "" and contains(z[0], lambda q: q.op == "app" and q.a[0] == "jis_null")]
    if nil and len(nil) < len(r.rets):
        r.rets = [z for z in r.rets if z not in nil]
    csels = unsorted(E.get(PBC, "getSelections", c))
    X = sym("X!")
    vt, oid = E.get(PBS, "getVote", X), E.get(PBS, "getObjectId", X)
    b = {X: T("bv", 1)}
    ids = ncanon(T("seq", T("each", 1, csels, T("seq", T("when", subst(T("eq", vt, num(1)), b), T("seq", T("one", subst(oid, b))))), FALSE)))
    for code in (0, 1):
        for pc, v, s, ln in r.rets:
            g = ncanon(subst(pc, {sym(ns[2]): num(code)}))
            if g is FALSE:
                continue
            t = ncanon(subst(v, {sym(ns[2]): num(code)}))
            tag = "overvote record" if code else "no overvote"
            kv = [q for q in subterms(t) if q.op == "kv" and q.a[0].op == "str" or q.op == "kv" and q.a[0] == "error_data"]
            errs = [q for q in kv if (q.a[0] if isinstance(q.a[0], str) else q.a[0].a[0]) == "error_data"]
            if code == 0:
                ctx.need(not errs, "a contest without overvote records none", ctx.loc(fn), show(t)[:300])
            else:
                if not errs:
                    ctx.need(False, "an overvoted contest records the selected ids", ctx.loc(fn), show(t)[:400], about=[t])
                for q in errs:
                    got = mkseq([z for z in q.a[1].a if z.op != "jnull"]) if q.a[1].op == "seq" else q.a[1]
                    ctx.need(same(got, ids) is None, "an overvote records exactly the ids the voter selected", ctx.loc(fn), show(q.a[1])[:300], about=[q.a[1]])
    # write-ins: the text recorded is that of the selection the id belongs to, for candidates marked write-in
    wi = E.get(PBS, "getWriteIn", X)
    ups = []
    for pc, v, s, ln in r.rets:
        ups += [q for q in subterms(ncanon(v)) if q.op == "app" and q.a[0] == "upd" and q not in ups]
    for q in ups:
        k, val = q.a[2], q.a[3]
        base = [z for z in subterms(k) if z.op == "bv" and ncanon(subst(oid, {X: z})) is k]
        ok = any(ncanon(subst(wi, {X: z})) is val for z in base)
        ctx.need(ok, "a write-in is recorded under its own selection's id", ctx.loc(fn), "%s -> %s" % (show(k)[:100], show(val)[:100]), about=[val])
    if not ups:
        ctx.undecide("write-ins", ctx.loc(fn), "no write-in entry recognised")
    for code in (0, 1):
        for pc, v, s, ln in r.rets:
            if ncanon(subst(pc, {sym(ns[2]): num(code)})) is FALSE:
                continue
            writeins(ctx, E, fn, ncanon(subst(v, {sym(ns[2]): num(code)})), csels, sym(ns[1]), c, "overvoted" if code else "valid")


def writeins(ctx, E, fn, t, csels, mf, c, tag):
    """Every write-in the voter selected is recorded, whatever else the contest holds."""
    X = sym("X!")
    what = "the write-ins the voter selected are recorded (%s contest)" % tag
    name = lambda q: q.a[0] if isinstance(q.a[0], str) else q.a[0].a[0] if q.a[0].op == "str" else None
    ws = [q for q in subterms(t) if q.op == "kv" and name(q) == "write_ins"]
    if not ws:
        ctx.need(False, what, ctx.loc(fn), "no record of write-ins in " + show(t)[:400], about=[q for q in subterms(t) if q.op == "unk"])
        return
    cands = ncanon(E.get("InternalManifest", "getCandidates", mf))
    for w in ws:
        found = []

        def walk(q, cs, els):
            if q.op == "ite":
                walk(q.a[1], cs + list(conjuncts(q.a[0])), els)
                walk(q.a[2], cs + list(conjuncts(neg(q.a[0]))), els)
            elif q.op == "app" and q.a[0] == "loop":
                h, coll, v0, b, brk = q.a[1].a[0], q.a[2], q.a[3], q.a[4], q.a[5]
                x, l = _fresh("e"), _fresh("l")
                m = {T("bv", h): x, T("bv", h + 1): l}
                walk(v0, cs, els)
                walk(subst(b, m), cs, els + [(x, coll, subst(brk, m))])
            elif q.op == "app" and q.a[0] == "upd":
                found.append((cs, els, q))
                walk(q.a[1], cs, els)
        walk(w.a[1], [], [])
        if not found:
            ctx.need(False, what, ctx.loc(fn), "nothing is recorded: " + show(w)[:300], about=[q for q in subterms(w) if q.op in ("unk", "lv") or q.op == "app" and q.a[0] not in ("loop", "empty")])
        for cs, els, q in found:
            s = [x for x, coll, _ in els if strip(coll) is ncanon(csels)]
            k = [x for x, coll, _ in els if strip(coll) is strip(cands)]
            if len(s) != 1 or len(k) != 1 or any(b is not FALSE for _, _, b in els):
                ctx.undecide(what, ctx.loc(fn), "loops over " + "; ".join(show(z[1])[:100] for z in els))
                continue
            g = lambda cls, m, z: ncanon(E.get(cls, m, z))
            vote, wr = g(PBS, "getVote", s[0]), g("Candidate", "isWriteIn", k[0])
            need = {"the selection was voted for": [ncanon(y) for y in (T("eq", num(1), vote), T("eq", vote, num(1)), T("lt", num(0), vote), neg(T("eq", vote, num(0))))],
                    "the candidate is marked as write-in": [wr]}
            cs = [ncanon(y) for y in cs]
            miss = [n for n, ys in need.items() if not any(y in cs for y in ys)]
            extra = [y for y in cs if not any(y in ys for ys in need.values()) and not ids_only(y) and y is not neg(ncanon(app("empty", g(PBS, "getWriteIn", s[0]))))]
            if miss and extra:
                ctx.undecide(what, ctx.loc(fn), "conditions " + "; ".join(show(y)[:100] for y in cs))
                continue
            ctx.need(not extra, what, ctx.loc(fn), "only when " + "; ".join(show(y)[:200] for y in extra), about=extra)
            ctx.need(not miss, "only write-ins the voter selected are recorded (%s contest)" % tag, ctx.loc(fn), "not required: " + ", ".join(miss))


def ids_only(c):
    """An equality of two ids, or its existence."""
    c = c.a[0] if c.op == "not" and False else c
    if c.op == "exists":
        return ids_only(c.a[2])
    idish = lambda q: q.op == "fld" and str(q.a[1]).lower().replace("_", "").endswith(("objectid", "candidateid"))
    return c.op == "eq" and idish(c.a[0]) and idish(c.a[1])


def ballot_contests(ctx):
    p = ctx.p
    fn = find(p, "encryptContests")
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptContest"])
    r = E.run(fn)
    b, mf, cx = sym("ballot"), sym("internalManifest"), sym("context")
    style = app(EG + "InternalManifest::getBallotStyle", mf, E.get(PB, "getStyleId", b))
    sid = E.get("BallotStyle", "getObjectId", style)
    cfs = [app(EG + "InternalManifest::getContestsFor", mf, z) for z in (sid, E.get(PB, "getStyleId", b))]
    cfs = [ncanon(z) for z in cfs]
    names = pnames(find(p, "encryptContest"))
    bcs = unsorted(E.get(PB, "getContests", b))
    idc = lambda z: E.get(PBC, "getObjectId", z)
    for pc, v, s, ln in r.rets:
        v = ncanon(v)
        n = 0
        for q in v.a if v.op == "seq" else [T("splice", v)]:
            if q.op != "each" or strip(q.a[1]) not in cfs:
                ctx.undecide("encryptContests", ctx.loc(fn), "list piece " + show(q)[:200])
                continue
            n += 1
            d = _fresh("d")
            body = subst(q.a[2], {T("bv", q.a[0]): d})
            for cs, x in members(body, []):
                if x.op != "app" or x.a[0] != EG + "encryptContest":
                    ctx.undecide("encryptContests", ctx.loc(fn), "element " + show(x)[:200])
                    continue
                a = dict(zip(names, x.a[1:]))
                did = E.get("ContestDescription", "getObjectId", d)
                ctx.need(a["description"] is d, "encryptContests: each contest of the style with its own description", ctx.loc(fn), show(a["description"])[:200])
                for k, w in (("elgamalPublicKey", E.get("CiphertextElectionContext", "getElGamalPublicKey", cx)),
                             ("cryptoExtendedBaseHash", E.get("CiphertextElectionContext", "getCryptoExtendedBaseHash", cx)),
                             ("internalManifest", mf)):
                    ctx.need(eqv(a[k], w), "encryptContests: %s from the election" % k, ctx.loc(fn), show(a[k])[:200], about=[a[k]])
                for cs2, y in settled(a["contest"], cs):
                    e = Eqs([ncanon(z) for z in cs2])
                    ob = "encryptContests: a contest is encrypted from the voter's contest of the same id"
                    yid = ncanon(idc(y)) if y.op in ("new", "sym") else None
                    if yid is None:
                        ctx.undecide(ob, ctx.loc(fn), show(y)[:200])
                        continue
                    src = [z.a[1] for z in e.cs if z.op == "app" and z.a[0] == "in" and strip(z.a[2]) is ncanon(bcs)]
                    rel = [z for z in src if e.eq(ncanon(idc(z)), ncanon(did))]
                    sel = ncanon(E.get(PBC, "getSelections", y))
                    if y in rel or any(has(sel, z) for z in rel):
                        if y not in rel:
                            contest_fill(ctx, E, fn, ob, sel, d, [z for z in rel if has(sel, z)][0], e)
                        ctx.ok(ob, ctx.loc(fn))
                    elif not any(has(sel, z) for z in src) and not has(sel, b):
                        ctx.need(e.none(bcs, idc, did), ob + ", and empty only if the voter has none", ctx.loc(fn),
                                 "; ".join(show(z)[:150] for z in e.cs), about=e.cs)
                        for scs, sy in members(sel, []):
                            sv = ncanon(E.get(PBS, "getVote", sy)) if sy.op in ("new", "sym") else None
                            ctx.need(sv is num(0), "encryptContests: a contest the voter left out carries no votes", ctx.loc(fn), show(sy)[:200], about=[sy])
                    else:
                        ctx.need(False, ob, ctx.loc(fn), show(y)[:400], about=[y] + e.cs)
        if n != 1:
            ctx.undecide("encryptContests", ctx.loc(fn), "%d loops over the style's contests" % n)
        # an unknown style is an error
        x = ncanon(subst(pc, {style: NULL}))
        ctx.need(implies(ncanon(pc), ncanon(T("nonnull", style))), "encryptContests refuses a ballot whose style is unknown", ctx.loc(fn, ln),
                 show(ncanon(pc))[:300], about=[])


def contest_fill(ctx, E, fn, ob, sel, d, z, e):
    """A normalised copy of the voter's contest z: each description's selection is the voter's, or 0."""
    zs = unsorted(E.get(PBC, "getSelections", z))
    idof = lambda q: E.get(PBS, "getObjectId", q)
    for cs, y in members(sel, []):
        if y.op not in ("new", "sym"):
            ctx.undecide(ob + " (completed copy)", ctx.loc(fn), show(y)[:200])
            continue
        e = Eqs([ncanon(q) for q in cs])
        v = ncanon(E.get(PBS, "getVote", y))
        i = ncanon(idof(y))
        if e.isin(y, zs):
            ctx.ok(ob + ": votes kept", ctx.loc(fn))
        elif v is num(0):
            ds = [q.a[1] for q in e.cs if q.op == "app" and q.a[0] == "in"]
            ok = any(e.none(zs, idof, ncanon(E.get("SelectionDescription", "getObjectId", q))) for q in ds)
            ctx.need(ok, ob + ": a missing selection is added as 0 only if the voter has none of that id", ctx.loc(fn),
                     "; ".join(show(q)[:150] for q in e.cs), about=e.cs)
        else:
            ctx.need(False, ob + ": votes kept", ctx.loc(fn), show(y)[:300], about=[y])


def style_contests(ctx):
    p = ctx.p
    E = Engine(ctx)
    mf, sid = sym("m"), None
    fn = find(p, "InternalManifest::getContestsFor")
    sid = sym(pnames(fn)[0])
    r = E.run(fn, this=mf)
    styles = unsorted(E.get("InternalManifest", "getBallotStyles", mf)) if p.fn(EG + "InternalManifest::getBallotStyles") else None
    cons = unsorted(E.get("InternalManifest", "getContests", mf))
    ids = lambda z: E.get("BallotStyle", "getObjectId", z)
    for pc, v, s, ln in r.rets:
        for cs, y in members(strip(ncanon(v)), [ncanon(pc)]):
            e = Eqs(cs)
            ctx.need(e.isin(y, ncanon(cons)), "getContestsFor returns contests of the manifest", ctx.loc(fn), show(y)[:200], about=[y])
            dist = ncanon(E.get("ContestDescription", "getElectoralDistrictId", y)) if y.op in ("sym",) else None
            if dist is None:
                continue
            gp = [q for q in e.cs if q.op == "app" and q.a[0] == "in" and e.eq(q.a[1], dist)]
            ok = False
            for q in gp:
                for cs2, z in cases(strip(q.a[2]), []):
                    ok = ok or "geopoliticalUnitIds" in show(z)
            ex = [q for q in e.cs if q.op == "exists" and has(q.a[2], dist)]
            if ok or ex:
                ctx.ok("getContestsFor selects by the style's geopolitical units", ctx.loc(fn))
            else:
                ctx.need(False, "getContestsFor selects by the style's geopolitical units", ctx.loc(fn), "; ".join(show(q)[:200] for q in e.cs), about=e.cs)
    fn = find(p, "InternalManifest::getBallotStyle")
    sid = sym(pnames(fn)[0])
    r = E.run(fn, this=mf)
    for pc, v, s, ln in r.rets:
        for cs, y in cases(ncanon(v), [ncanon(pc)]):
            e = Eqs(cs)
            if y is NULL:
                ctx.need(styles is None or e.none(ncanon(styles), ids, sid), "getBallotStyle: none only if the manifest has none", ctx.loc(fn),
                         show(ncanon(pc))[:200], about=[pc])
            elif y.op == "sym":
                ctx.need(e.eq(ncanon(ids(y)), sid), "getBallotStyle returns the style of that id", ctx.loc(fn), show(ncanon(pc))[:200], about=[pc])
            else:
                ctx.undecide("getBallotStyle", ctx.loc(fn), show(y)[:200])


# ------------------------------------------------------------------ C08
@check("C08", "gated value numbering with the mediator's state threaded through every order of two operations",
       "the first ballot is chained to the device hash, each further one to the ballot code returned before, whichever way it "
       "is encrypted; a mediator exists only for a context made from the same manifest; ballots carry seed, time and code as given.")
def c08(ctx):
    ctx.part("chain", mediator_chain, ctx)
    ctx.part("binding", mediator_binding, ctx)
    ctx.part("ballot fields", ballot_fields, ctx)


MED = "EncryptionMediator"


def mediator_chain(ctx):
    p = ctx.p
    from .. import domain
    inner = {"encrypt": "encryptBallot", "compactEncrypt": "encryptCompactBallot"}
    code = {"encrypt": (BAL, "getBallotCode"), "compactEncrypt": ("CompactCiphertextBallot", "getBallotCode")}
    E0 = Engine(ctx)
    mf, cx, dev = sym("manifest"), sym("ctx"), sym("device")
    for first in inner:
        for second in inner:
            ip = domain.make(p, opaque=PRECOMP + FLOW + [EG + x for x in inner.values()])
            o = ip.newobj(MED)
            r0 = ip.run(find(p, MED + "::" + MED, n=3), args=[mf, cx, dev], this=o)
            f1, f2 = find(p, MED + "::" + first), find(p, MED + "::" + second)
            r1 = ip.run(f1, args=[sym("b1"), sym("v")], this=o, S=dict(r0.st.S))
            r2 = ip.run(f2, args=[sym("b2"), sym("v")], this=o, S=dict(r1.st.S))
            ctx.saw(ip)
            c1 = [q for q in subterms(r1.ret) if q.op == "app" and q.a[0] == EG + inner[first]]
            c2 = [q for q in subterms(r2.ret) if q.op == "app" and q.a[0] == EG + inner[second] and has(q, sym("b2"))]
            c2 = [q for q in c2 if q.a[1] is sym("b2")]
            if len(c1) != 1 or len(c2) != 1:
                ctx.undecide("%s then %s" % (first, second), ctx.loc(f2), "calls not recognised")
                continue
            n1, n2 = pnames(find(p, inner[first])), pnames(find(p, inner[second]))
            a1, a2 = dict(zip(n1, c1[0].a[1:])), dict(zip(n2, c2[0].a[1:]))
            want1 = E0.run(find(p, "EncryptionDevice::getHash", n=0), this=dev).ret
            sk = [k for k in n1 if "seed" in k.lower() and "nonce" not in k.lower()]
            k1 = "encryptionSeed" if "encryptionSeed" in n1 else "ballotCodeSeed"
            k2 = "encryptionSeed" if "encryptionSeed" in n2 else "ballotCodeSeed"
            s1, s2 = ncanon(a1[k1]), ncanon(a2[k2])
            ctx.need(eqv(s1, want1), "the first ballot (%s) is chained to the device hash" % first, ctx.loc(f1), show(s1)[:300], about=[s1])
            want2 = ncanon(E0.get(code[first][0], code[first][1], r1.ret))
            ctx.need(ncanon(subst(s2, {T("nonnull", want2): TRUE})) is want2, "a ballot (%s) after another (%s) is chained to that one's code" % (second, first),
                     ctx.loc(f2), "%s instead of %s" % (show(s2)[:300], show(want2)[:300]), about=[s2])
            for a, w, f in ((a1, sym("b1"), f1), (a2, sym("b2"), f2)):
                ctx.need(a["ballot"] is w and eqv(a["manifest"], mf) and eqv(a["context"], cx),
                         "the mediator encrypts the given ballot for its own manifest and context (%s)" % (first if w is sym("b1") else second), ctx.loc(f),
                         show(a["ballot"])[:100] + " " + show(a["manifest"])[:100] + " " + show(a["context"])[:100])
            for rr, cc, f in ((r1, c1, f1), (r2, c2, f2)):
                ctx.need(rr.ret is cc[0], "the mediator returns the ballot it encrypted", ctx.loc(f), show(rr.ret)[:200], about=[rr.ret])


def mediator_binding(ctx):
    p = ctx.p
    E = Engine(ctx)
    fn = find(p, MED + "::" + MED, n=3)
    ip = E.ip()
    o = ip.newobj(MED)
    r = ip.run(fn, args=[sym("manifest"), sym("ctx"), sym("device")], this=o)
    ctx.saw(ip)
    A = FALSE
    for pc, v, s, ln in r.rets:
        A = disj(A, pc)
    mh = E.get("InternalManifest", "getManifestHash", sym("manifest"))
    ch = E.get("CiphertextElectionContext", "getManifestHash", sym("ctx"))
    hx = lambda z: app(EG + "ElementModQ::toHex", z)
    A = ncanon(A)
    ok = implies(A, ncanon(T("eq", mh, ch))) or implies(A, ncanon(T("eq", hx(mh), hx(ch))))
    ctx.need(ok, "a mediator cannot be created for a manifest whose hash is not the context's", ctx.loc(fn), show(A)[:300], about=[A])


def ballot_fields(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptContests"])
    fn = find(p, "encryptBallot")
    b, mf = sym("ballot"), sym("manifest")
    seed = [n for n in pnames(fn) if "seed" in n.lower()][0]
    r = E.run(fn, args={"shouldVerifyProofs": FALSE, "timestamp": sym("timestamp"), "nonce": sym("nonce")})
    T0 = T("eq", sym("timestamp"), num(0))
    for o in leaves(r.ret):
        if o.op != "new":
            continue
        def g(n):
            t, old = E.get(BAL, n, o), None
            while t is not old:
                old, t = t, subst(ncanon(t), {T0: FALSE, T("eq", num(0), sym("timestamp")): FALSE, T("nonnull", sym("nonce")): TRUE})
            return t
        for n, w in (("getObjectId", E.get(PB, "getObjectId", b)), ("getStyleId", E.get(PB, "getStyleId", b)),
                     ("getManifestHash", E.get("InternalManifest", "getManifestHash", mf)), ("getBallotCodeSeed", sym(seed)),
                     ("getTimestamp", sym("timestamp")), ("getNonce", sym("nonce"))):
            got = subst(ncanon(g(n)), {T("nonnull", sym(seed)): TRUE})
            ctx.need(eqv(got, w), "encryptBallot: %s is as given" % n, ctx.loc(fn), show(got)[:200], about=[got])
        spec = H(sym(seed), sym("timestamp"), g("getCryptoHash"))
        got = subst(ncanon(g("getBallotCode")), {T("nonnull", sym(seed)): TRUE})
        ctx.need(eqv(got, subst(ncanon(spec), {T("nonnull", sym(seed)): TRUE})), "encryptBallot: the ballot code is H(seed, timestamp, ballot hash)", ctx.loc(fn),
                 show(got)[:300], about=[got])
    # the factory itself: whatever is given, the code is that of the ballot's own seed, timestamp and hash
    E = Engine(ctx)
    fn = find(p, BAL + "::make")
    names = pnames(fn)
    code = [n for n in names if n.lower().endswith("code")][0]
    for given in (num(0), sym("timestamp")):
        r = E.run(fn, args={code: NULL, "timestamp": given})
        for o in leaves(r.ret):
            if o.op != "new":
                continue
            g = lambda n: ncanon(E.get(BAL, n, o))
            want = ncanon(H(g("getBallotCodeSeed"), g("getTimestamp"), g("getCryptoHash")))
            got = g("getBallotCode")
            ctx.need(got is want, BAL + "::make: the ballot code is H(seed, timestamp, ballot hash)%s" % ("" if given.op == "sym" else " without a given timestamp"),
                     ctx.loc(fn), show(got)[:300], about=[got])



# ------------------------------------------------------------------ C12
@check("C12", "gated value numbering of compression and expansion; running index resolved from its loop recurrence",
       "compression keeps every vote and write-in in order plus the crypto parameters; expansion reads them back at a running "
       "index over the same traversal, re-encrypts with exactly those parameters and returns only when the ballot code matches.")
def c12(ctx):
    for n, f in (("compress", compact_compress), ("expand", compact_expand), ("expand ciphertext", compact_cipher), ("encrypt compact", compact_encrypt)):
        ctx.part(n, f, ctx)


CP, CC = "CompactPlaintextBallot", "CompactCiphertextBallot"


def compact_compress(ctx):
    p = ctx.p
    E = Engine(ctx)
    fn = find(p, "compressPlaintextBallot")
    pt = sym(pnames(fn)[0])
    o = E.run(fn).ret
    X = sym("X!")
    cons = unsorted(E.get(PB, "getContests", pt))
    inner = unsorted(subst(E.get(PBC, "getSelections", X), {X: T("bv", 2)}))

    def lst(g):
        x = subst(E.get(PBS, g, X), {X: T("bv", 1)})
        return T("seq", T("each", 2, cons, T("seq", T("each", 1, inner, T("seq", T("one", x)), FALSE)), FALSE))
    for g, w in (("getObjectId", E.get(PB, "getObjectId", pt)), ("getStyleId", E.get(PB, "getStyleId", pt)),
                 ("getSelections", lst("getVote")), ("getWriteIns", lst("getWriteIn"))):
        if not p.fn(EG + CP + "::" + g):
            continue
        got = E.get(CP, g, o)
        ctx.need(eqv(got, w), "compressPlaintextBallot keeps all of %s, in order" % g, ctx.loc(fn), show(ncanon(got))[:400], about=[ncanon(got)])
    fn = find(p, "compressCiphertextBallot")
    names = pnames(fn)
    r = E.run(fn)
    c = sym(names[1])
    for pc, o, s, ln in r.rets:
        for g in ("getBallotCodeSeed", "getBallotCode", "getTimestamp", "getNonce"):
            got, w = E.get(CC, g, o), E.get(BAL, g, c)
            ctx.need(eqv(got, w), "compressCiphertextBallot keeps %s" % g, ctx.loc(fn), show(ncanon(got))[:300], about=[ncanon(got)])
        pl = E.run(find(p, "compressPlaintextBallot"), args=[sym(names[0])]).ret
        got = E.get(CC, "getPlaintext", o)
        ctx.need(eqv(got, pl), "compressCiphertextBallot keeps the compressed plaintext", ctx.loc(fn), show(ncanon(got))[:300], about=[ncanon(got)])


def compact_expand(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=PRECOMP + FLOW)
    fn = find(p, "expandCompactPlaintextBallot")
    names = pnames(fn)
    cb, mf = sym(names[0]), sym(names[1])
    ip = E.ip()
    r = E.run(fn, ip=ip)
    for pc, o, s, ln in r.rets:
        if o.op != "new":
            ctx.undecide("expandCompactPlaintextBallot", ctx.loc(fn), show(o)[:200])
            continue
        for g in ("getObjectId", "getStyleId"):
            ctx.need(eqv(E.get(PB, g, o), E.get(CP, g, cb)), "expandCompactPlaintextBallot keeps %s" % g, ctx.loc(fn), show(E.get(PB, g, o))[:200])
        cons = ncanon(E.get(PB, "getContests", o))
        want = ncanon(app(EG + "InternalManifest::getContestsFor", mf, E.get(CP, "getStyleId", cb)))
        q = cons.a[0] if cons.op == "seq" and len(cons.a) == 1 else None
        if q is None or q.op != "each" or q.a[2].op != "seq" or len(q.a[2].a) != 1 or q.a[2].a[0].op != "one":
            ctx.undecide("expandCompactPlaintextBallot: contests", ctx.loc(fn), show(cons)[:300])
            continue
        ctx.need(strip(q.a[1]) is strip(want) and q.a[3] is FALSE, "expansion covers exactly the contests of the ballot style", ctx.loc(fn), show(q.a[1])[:200], about=[q.a[1]])
        d = _fresh("d")
        con = subst(q.a[2].a[0].a[0], {T("bv", q.a[0]): d})
        if con.op != "new":
            ctx.undecide("expandCompactPlaintextBallot: contest", ctx.loc(fn), show(con)[:300])
            continue
        ctx.need(eqv(E.get(PBC, "getObjectId", con), E.get("ContestDescription", "getObjectId", d)), "expanded contests carry their description's id", ctx.loc(fn), "")
        sels = ncanon(E.get(PBC, "getSelections", con))
        ds = unsorted(ncanon(E.get("ContestDescription", "getSelections", d)))
        q = sels.a[0] if sels.op == "seq" and len(sels.a) == 1 else None
        if q is None or q.op != "each" or q.a[2].op != "seq" or len(q.a[2].a) != 1 or q.a[2].a[0].op != "one":
            ctx.undecide("expandCompactPlaintextBallot: selections", ctx.loc(fn), show(sels)[:300])
            continue
        ctx.need(strip(q.a[1]) is strip(ds) and q.a[3] is FALSE, "expansion covers exactly the selections of each contest", ctx.loc(fn), show(q.a[1])[:200], about=[q.a[1]])
        e = _fresh("e")
        sel = subst(q.a[2].a[0].a[0], {T("bv", q.a[0]): e})
        ctx.need(eqv(E.get(PBS, "getObjectId", sel), E.get("SelectionDescription", "getObjectId", e)), "expanded selections carry their description's id", ctx.loc(fn), "")
        idxs = []
        for g, src in (("getVote", "getSelections"), ("getWriteIn", "getWriteIns")):
            v = ncanon(E.get(PBS, g, sel))
            coll = ncanon(E.get(CP, src, cb))
            if v.op != "app" or v.a[0] not in ("idx", "at"):
                ctx.need(False, "expanded %s is read from the compact ballot" % g, ctx.loc(fn), show(v)[:200], about=[v])
                continue
            base = v.a[1]
            while base.op == "val":
                base = base.a[0]
            while coll.op == "val":
                coll = coll.a[0]
            ctx.need(base is coll, "expanded %s is read from the compact ballot's own list" % g, ctx.loc(fn), show(v.a[1])[:200])
            idxs.append((g, v.a[2]))
        for g, i in idxs:
            if i.op == "lv" and i in ip.lvinfo:
                running_index(ctx, ip, fn, "the index of the expanded %s" % g, i)
            else:
                ctx.undecide("index of the expanded %s" % g, ctx.loc(fn), show(i)[:200])


def running_index(ctx, ip, fn, what, i, depth=0):
    """A loop-carried index advances by one per element, through the enclosing loop, from zero."""
    init, nxt, coll = ip.lvinfo[i][:3]
    step = lsub(lin(ncanon(nxt)), {i: 1})
    n = ncanon(nxt)
    if n.op == "ite" and i in (n.a[1], n.a[2]) and not unresolved(n.a[0]):
        ctx.bad(what + " advances by one per selection", ctx.loc(fn), "only when " + show(n.a[0] if n.a[2] is i else neg(n.a[0]))[:200])
        return
    if depth == 0:
        ctx.need(step == {None: 1}, what + " advances by one per selection", ctx.loc(fn), show(nxt)[:200], about=[x for x in [nxt] if nxt.op != "lv" and not lin(nxt).get(i)])
    init = ncanon(init)
    if init.op == "lv" and init in ip.lvinfo:
        o = ip.lvinfo[init]
        on = ncanon(o[1])
        # the enclosing loop continues where the inner one ended
        ok = on is not init and not (on.op == "int")
        ctx.need(ok, what + " continues across contests", ctx.loc(fn), show(on)[:200])
        oi = ncanon(o[0])
        ctx.need(oi is num(0), what + " starts at zero", ctx.loc(fn), show(oi)[:200], about=[oi])
    else:
        ctx.need(False, what + " continues across contests", ctx.loc(fn), "it restarts at %s for each contest" % show(init)[:100], about=[init])


def compact_cipher(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptBallot", EG + "expandCompactPlaintextBallot"])
    fn = find(p, "expandCompactCiphertextBallot")
    names = pnames(fn)
    cc, mf, cx = [sym(n) for n in names[:3]]
    en = pnames(find(p, "encryptBallot"))
    r = E.run(fn)
    seed = [n for n in en if "seed" in n.lower()][0]
    if not r.rets:
        ctx.undecide("expandCompactCiphertextBallot", ctx.loc(fn), "no return")
    for pc, v, s, ln in r.rets:
        v = ncanon(v)
        if v.op != "app" or v.a[0] != EG + "encryptBallot":
            ctx.undecide("expandCompactCiphertextBallot", ctx.loc(fn, ln), "returns " + show(v)[:200])
            continue
        a = dict(zip(en, v.a[1:]))
        pl = app(EG + "expandCompactPlaintextBallot", E.get(CC, "getPlaintext", cc), mf)
        for k, w in (("ballot", pl), ("manifest", mf), ("context", cx), (seed, E.get(CC, "getBallotCodeSeed", cc)),
                     ("nonce", E.get(CC, "getNonce", cc)), ("timestamp", E.get(CC, "getTimestamp", cc))):
            ctx.need(eqv(a[k], w), "expandCompactCiphertextBallot re-encrypts with the stored %s" % k, ctx.loc(fn), show(a[k])[:200], about=[a[k]])
        P = ncanon(pc)
        w = ncanon(T("eq", E.get(CC, "getBallotCode", cc), E.get(BAL, "getBallotCode", v)))
        ctx.need(implies(P, w), "expandCompactCiphertextBallot returns only a ballot with the recorded code", ctx.loc(fn), show(P)[-400:], about=[P])


def compact_encrypt(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=PRECOMP + FLOW + [EG + "encryptBallot", EG + CC + "::make", EG + "compressCiphertextBallot"])
    fn = find(p, "encryptCompactBallot")
    r = E.run(fn)
    en = pnames(find(p, "encryptBallot"))
    n = 0
    for q in set(calls_of(r, EG + "encryptBallot")):
        n += 1
        a = dict(zip(en, q.a[1:]))
        names = pnames(fn)
        for k in en:
            if k == "ballot":
                continue
            kk = k if k in names else [z for z in names if ("nonce" in z.lower()) == ("nonce" in k.lower()) and "seed" in z.lower()][0]
            ctx.need(eqv(a[k], sym(kk)), "encryptCompactBallot encrypts with the caller's %s" % k, ctx.loc(fn), show(a[k])[:200], about=[a[k]])
        # plaintext: the caller's ballot or its completed copy
        bal = a["ballot"]
        ctx.need(bal is sym("ballot") or eqv(E.get(PB, "getObjectId", bal), E.get(PB, "getObjectId", sym("ballot"))) and
                 eqv(E.get(PB, "getStyleId", bal), E.get(PB, "getStyleId", sym("ballot"))), "encryptCompactBallot encrypts the caller's ballot", ctx.loc(fn), show(bal)[:200], about=[bal])
        for pc, v, s, ln in r.rets:
            if v.op == "app" and v.a[0] in (EG + CC + "::make", EG + "compressCiphertextBallot"):
                ctx.need(eqv(v.a[1], bal) and v.a[2] is q, "encryptCompactBallot compresses the plaintext it encrypted together with that encryption",
                         ctx.loc(fn), show(v.a[1])[:200], about=[v.a[1]])
            elif v.op == "new":
                x = ncanon(E.get(CC, "getBallotCode", v))
                ctx.need(x is ncanon(E.get(BAL, "getBallotCode", q)), "encryptCompactBallot keeps the encryption's code", ctx.loc(fn), show(x)[:200], about=[x])
            else:
                ctx.undecide("encryptCompactBallot", ctx.loc(fn), show(v)[:200])
    if n != 1:
        ctx.undecide("encryptCompactBallot", ctx.loc(fn), "%d encryptions" % n)


# ------------------------------------------------------------------ C13
@check("C13", "gated value numbering: the submitted ballot compared getter by getter with its source",
       "a submitted ballot keeps every public field, contest, selection, ciphertext, hash and proof of the encrypted ballot and "
       "the given state, and carries no nonce at any level.")
def c13(ctx):
    p = ctx.p
    E = Engine(ctx, opaque=PRECOMP + [EG + BAL + "::make"])
    SB = "SubmittedBallot"
    for f in ("from", "make"):
        fn = find(p, SB + "::" + f)
        names = pnames(fn)
        r = E.run(fn)
        for pc, o, s, ln in r.rets:
            if o.op != "new":
                ctx.undecide("%s::%s" % (SB, f), ctx.loc(fn, ln), show(o)[:200])
                continue
            if f == "from":
                src = sym(names[0])
            else:
                mk = [q for q in subterms(o) if q.op == "app" and q.a[0] == EG + BAL + "::make"]
                if len(mk) != 1:
                    ctx.undecide(SB + "::make", ctx.loc(fn), "no single CiphertextBallot::make")
                    continue
                src = mk[0]
                mn = pnames(find(p, BAL + "::make"))
                for k, v in zip(mn, src.a[1:]):
                    w = sym(k if k in names else names[mn.index(k)])
                    ctx.need(eqv(v, w), "SubmittedBallot::make passes %s on" % k, ctx.loc(fn), show(v)[:200], about=[v])
            st = E.get(SB, "getState", o)
            ctx.need(st is sym("state"), "SubmittedBallot::%s keeps the state" % f, ctx.loc(fn), show(st)[:100])
            tag = "SubmittedBallot::%s: " % f
            keep(ctx, E, fn, tag + "ballot ", BAL, ["getObjectId", "getStyleId", "getManifestHash", "getBallotCodeSeed", "getBallotCode",
                                                     "getTimestamp", "getCryptoHash"], o, src)
            nested(ctx, E, fn, tag, BAL, "getContests", o, src, CON,
                   ["getObjectId", "getSequenceOrder", "getDescriptionHash", "getCiphertextAccumulation", "getCryptoHash", "getProof",
                    "getHashedElGamalCiphertext"],
                   lambda c, d, t: nested(ctx, E, fn, t, CON, "getSelections", c, d, SEL,
                                          ["getObjectId", "getSequenceOrder", "getDescriptionHash", "getCiphertext", "getIsPlaceholder",
                                           "getCryptoHash", "getProof"], None))
            nn = ncanon(E.get(BAL, "getNonce", o))
            ctx.need(nn is NULL, tag + "the ballot's nonce is removed", ctx.loc(fn), show(nn)[:200], about=[nn])


def nn_same(a, b):
    """Equal, also when one side spells out the null case."""
    a, b = ncanon(a), ncanon(b)
    if same(a, b) is None:
        return True
    if a.op == "ite" and a.a[0].op == "nonnull" and a.a[0].a[0] is a.a[1] and a.a[2] is NULL:
        return nn_same(a.a[1], b)
    if b.op == "ite" and b.a[0].op == "nonnull" and b.a[0].a[0] is b.a[1] and b.a[2] is NULL:
        return nn_same(a, b.a[1])
    return False


def keep(ctx, E, fn, tag, cls, getters, o, src):
    for g in getters:
        a, b = E.get(cls, g, o), E.get(cls, g, src)
        ctx.need(nn_same(a, b), tag + g + " is kept", ctx.loc(fn), "%s instead of %s" % (show(ncanon(a))[:200], show(ncanon(b))[:200]), about=[a])


def nested(ctx, E, fn, tag, cls, getter, o, src, ecls, getters, rec):
    """Every element of the list is an element of the source's list, rebuilt faithfully and without nonce."""
    lst = strip(ncanon(E.get(cls, getter, o)))
    want = strip(ncanon(E.get(cls, getter, src)))
    what = tag + getter
    if lst is want:
        ctx.bad(what + ": nonces are removed", ctx.loc(fn), "the elements are the encrypted ballot's own, with their nonces")
        return
    q = lst.a[0] if lst.op == "seq" and len(lst.a) == 1 else None
    if q is None or q.op != "each" or strip(q.a[1]) is not want or q.a[2].op != "seq" or len(q.a[2].a) != 1 or q.a[2].a[0].op != "one":
        ctx.need(False, what + " keeps every element", ctx.loc(fn), show(lst)[:300],
                 about=[lst] if q is not None and q.op == "each" and strip(q.a[1]) is want else [unk()])
        return
    ctx.need(q.a[3] is FALSE, what + " keeps every element", ctx.loc(fn), "stops at " + show(q.a[3])[:200])
    d = _fresh("d")
    x = subst(q.a[2].a[0].a[0], {T("bv", q.a[0]): d})
    if x.op != "new":
        ctx.undecide(what, ctx.loc(fn), show(x)[:200])
        return
    keep(ctx, E, fn, what + " ", ecls, getters, x, d)
    nn = ncanon(E.get(ecls, "getNonce", x))
    ctx.need(nn is NULL, what + ": nonces are removed", ctx.loc(fn), show(nn)[:200], about=[nn])
    if rec:
        rec(x, d, what + " ")
