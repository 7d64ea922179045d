"""What the hashes commit to."""
import itertools

from ..check import check
from ..api import *
from ..alg import *
from ..terms import *
from .r_proofs import H


def seqof(parts):
    return app(EG + "hash_elems", T("seq", *parts))


def one(x):
    return T("one", x)


def nonnull_atoms(*ts):
    out = []
    for t in ts:
        for s in subterms(t):
            if s.op == "nonnull" and s not in out:
                out.append(s)
    return out


def same(a, b, split=()):
    """Equal for every assignment of the given presence conditions; returns None or the failing assignment."""
    C = Canon()
    if C(a) is C(b):
        return None
    vs = list(split)
    for bits in itertools.product((True, False), repeat=len(vs)):
        m = {}
        for v, bit in zip(vs, bits):
            m[T("nonnull", v)] = TRUE if bit else FALSE
            if not bit:
                m[v] = NULL
        x, y = Canon()(subst(a, m)), Canon()(subst(b, m))
        if x is not y:
            return "%s: got %s, specified %s" % (
                ", ".join("%s %s" % (show(v), "present" if bit else "absent") for v, bit in zip(vs, bits)) or "always",
                show(x)[:400], show(y)[:400])
    return None


# class, public getters in the order they are hashed; "?" optional, "@f" the public name of the enum value, "*" spread
FIELDS = [
    ("AnnotatedString", ["getAnnotation", "getValue"]),
    ("Language", ["getValue", "getLanguage"]),
    ("InternationalizedText", ["*getText"]),
    ("ContactInformation", ["getName", "getAddressLine", "getEmail", "getPhone"]),
    ("GeopoliticalUnit", ["getObjectId", "getName", "@getReportingUnitTypeString getType", "?getContactInformation"]),
    ("BallotStyle", ["getObjectId", "getGeopoliticalUnitIds", "getPartyIds", "getImageUri"]),
    ("Party", ["getObjectId", "?getName", "getAbbreviation", "getColor", "getLogoUri"]),
    ("Candidate", ["getObjectId", "?getName", "getPartyId", "getImageUri"]),
    ("SelectionDescription", ["getObjectId", "getSequenceOrder", "getCandidateId"]),
    ("ContestDescription", ["getObjectId", "getSequenceOrder", "getElectoralDistrictId",
                            "@getVoteVariationTypeString getVoteVariation", "?getBallotTitle", "?getBallotSubtitle",
                            "getName", "getNumberElected", "getVotesAllowed", "~getSelections"]),
    ("Manifest", ["getElectionScopeId", "@getElectionTypeString getElectionType", "%getStartDate", "%getEndDate",
                  "?getName", "?getContactInformation", "getGeopoliticalUnits", "getParties", "~getContests",
                  "getBallotStyles"]),
    ("ElGamalCiphertext", ["getPad", "getData"]),
    ("HashedElGamalCiphertext", ["getPad", "getData", "getMac"]),
]


def unsorted(t):
    """The stored order of a collection its getter presents sorted."""
    while t.op == "app" and t.a[0] == "sorted":
        t = t.a[1]
    return t


@check("C03", "gated value numbering of every crypto_hash / factory, compared with the term built from the public getters",
       "the value of each hash must be hash_elems of exactly the fields the scheme binds, in its order, each optional "
       "field on its own; the hash an object is built with must be the one verification recomputes.")
def c03(ctx):
    p = ctx.p
    E = Engine(ctx)
    x = sym("x")
    for cls, fields in FIELDS:
        fn = find(p, cls + "::crypto_hash", n=0)
        got = E.run(fn, this=x).ret
        parts, split = [], []
        for f in fields:
            k, g = (f[0], f[1:]) if f[0] in "?@*~%" else ("", f)
            conv = None
            if k == "@":
                conv, g = g.split()
            v = E.get(cls, g, x)
            if k == "@":
                v = E.run(find(p, conv), args=[v]).ret
            if k == "%":
                v = app(EG + "timePointToIsoString", v)
            if k == "~":
                v = unsorted(v)
            if k == "?":
                split.append(v)
                v = ite(T("nonnull", v), v, NULL)
            parts.append(v if k == "*" else one(v))
        want = app(EG + "hash_elems", parts[0]) if fields[0][0] == "*" else seqof(parts)
        fail = same(got, want, split)
        ctx.need(fail is None, "%s::crypto_hash binds %s" % (cls, ", ".join(f.strip("?@*~%").split()[-1] for f in fields)),
                 ctx.loc(fn), fail or "")
    s = sym("s")
    # ciphertexts
    for cls, inner in (("CiphertextBallotSelection", None), ("CiphertextBallotContest", "getSelections"),
                       ("CiphertextBallot", "getContests")):
        fn = find(p, cls + "::crypto_hash_with", n=1)
        got = E.run(fn, args=[s], this=x).ret
        oid = E.get(cls, "getObjectId", x)
        if inner is None:
            ct = E.get(cls, "getCiphertext", x)
            want = seqof([one(oid), one(s), one(E.run(find(p, "ElGamalCiphertext::crypto_hash", n=0), this=ct).ret)])
        else:
            coll = E.get(cls, inner, x)
            sub = {"getSelections": "CiphertextBallotSelection", "getContests": "CiphertextBallotContest"}[inner]
            want = seqof([one(oid), one(s), each_of(E, coll, sub, "getCryptoHash")])
        fail = same(got, want)
        ctx.need(fail is None, "%s::crypto_hash_with binds id, seed and every component" % cls, ctx.loc(fn), fail or "")
    made_hash(ctx, E)
    # ballot code
    fn = find(p, "BallotCode::getBallotCode", n=3)
    a = [sym("prev"), sym("ts"), sym("h")]
    fail = same(E.run(fn, args=a).ret, seqof([one(v) for v in a]))
    ctx.need(fail is None, "ballot code = H(previous code, timestamp, ballot hash)", ctx.loc(fn), fail or "")
    fn = find(p, "BallotCode::getHashForDevice", n=4)
    a = [sym("dev"), sym("ses"), sym("lc"), sym("loc")]
    fail = same(E.run(fn, args=a).ret, seqof([one(v) for v in a]))
    ctx.need(fail is None, "device hash = H(device, session, launch code, location)", ctx.loc(fn), fail or "")
    fn = find(p, "EncryptionDevice::getHash", n=0)
    g = [E.get("EncryptionDevice", n, x) for n in ("getDeviceUuid", "getSessionUuid", "getLaunchCode", "getLocation")]
    fail = same(E.run(fn, this=x).ret, seqof([one(v) for v in g]))
    ctx.need(fail is None, "EncryptionDevice::getHash binds every device field", ctx.loc(fn), fail or "")
    # election context
    for fn in finds(p, "CiphertextElectionContext::make"):
        r = E.run(fn)
        if r.ret is None or r.ret.op != "new":
            ctx.undecide("CiphertextElectionContext::make/%d" % len(fn["ps"]), ctx.loc(fn), "result is not a fresh context")
            continue
        c = r.ret
        G = lambda n: E.get("CiphertextElectionContext", n, c)
        man, com = G("getManifestHash"), G("getCommitmentHash")
        base = seqof([one(app(EG + "P")), one(app(EG + "Q")), one(app(EG + "G")), one(G("getNumberOfGuardians")),
                      one(G("getQuorum")), one(man)])
        sig = "CiphertextElectionContext::make(%s)" % ",".join(pnames(fn))
        fail = same(G("getCryptoBaseHash"), base)
        ctx.need(fail is None, sig + ": base hash = H(P, Q, G, guardians, quorum, manifest hash)", ctx.loc(fn), fail or "")
        fail = same(G("getCryptoExtendedBaseHash"), seqof([one(base), one(com)]))
        ctx.need(fail is None, sig + ": extended hash = H(base hash, commitment hash)", ctx.loc(fn), fail or "")
        ps = {q: sym(q) for q in pnames(fn)}
        for pn, gn in (("numberOfGuardians", "getNumberOfGuardians"), ("quorum", "getQuorum"),
                       ("elGamalPublicKey", "getElGamalPublicKey"), ("commitmentHash", "getCommitmentHash"),
                       ("manifestHash", "getManifestHash")):
            got = G(gn)
            if pn in ps:
                w = ps[pn]
            elif pn + "InHex" in ps:
                w = None
                ok = got.op == "app" and got.a[0].endswith("::fromHex") and ps[pn + "InHex"] in got.a
            else:
                continue
            if pn in ps:
                ok = same(got, w) is None
            ctx.need(ok, sig + ": %s is the caller's" % gn, ctx.loc(fn), show(got)[:200])
    E2 = Engine(ctx, opaque=[EG + "Manifest::crypto_hash"])
    ctor = find(p, "InternalManifest::InternalManifest", ["const electionguard::Manifest &"])
    ip = E2.ip()
    o = ip.newobj("InternalManifest")
    r = ip.run(ctor, args=[x], this=o)
    got = E2.get("InternalManifest", "getManifestHash", ip.reify(o, r.st))
    ctx.saw(ip)
    ok = got.op == "app" and got.a[0] == EG + "Manifest::crypto_hash" and got.a[1] is x
    ctx.need(ok, "InternalManifest's manifest hash is the hash of the manifest it was built from", ctx.loc(ctor), show(got)[:200])


def each_of(E, coll, cls, getter):
    X = sym("X!")
    return T("each", 1, coll, T("seq", one(subst(E.get(cls, getter, X), {X: T("bv", 1)}))), FALSE)


def made_hash(ctx, E):
    """What make() stores as crypto hash is what crypto_hash_with(description hash) recomputes on the result."""
    p = ctx.p
    for cls, seed, fixed in (("CiphertextBallotSelection", "descriptionHash", {"cryptoHash": NULL}),
                             ("CiphertextBallotContest", "descriptionHash", {"cryptoHash": NULL}),
                             ("CiphertextBallot", "manifestHash", {})):
        fw = find(p, cls + "::crypto_hash_with", n=1)
        fs = finds(p, cls + "::make")
        if cls == "CiphertextBallotSelection":
            fs += finds(p, cls + "::make_with_precomputed")
        for fn in fs:
            names = pnames(fn)
            args = {k: v for k, v in fixed.items() if k in names}
            r = E.run(fn, args=args)
            sig = "%s(%d parameters)" % (fn["n"].replace(EG, ""), len(names))
            objs = [v for v in leaves(r.ret) if v.op == "new"]
            if not objs:
                ctx.undecide(sig + " hash", ctx.loc(fn), "result is not a fresh object")
                continue
            for o in objs:
                ch = E.get(cls, "getCryptoHash", o)
                hs = E.get(cls, "getDescriptionHash" if seed == "descriptionHash" else "getManifestHash", o)
                w = E.run(fw, args=[hs], this=o).ret
                fail = same(ch, w)
                ctx.need(fail is None, sig + ": stored crypto hash = crypto_hash_with(%s)" % seed, ctx.loc(fn), fail or "")


def leaves(t):
    if t is None:
        return []
    if t.op == "ite":
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


# ---------------------------------------------------------------- the hash function's own encoding
BY = "Sha::bytes"
DIGEST = app("sha256")


def targs(t):
    """Top-level template arguments of a type."""
    i = t.index("<")
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def sha_models(out):
    def arg(ip, e, st, i):
        v = ip.eval(e["a"][i], st)
        return ip.read(v.a[0], st) if v.op == "addr" else v

    def create(ip, e, st):
        o = ip.newobj("Sha")
        st.S[T("fld", o, BY)] = EMPTY
        return o

    def update(ip, e, st):
        o, d, n = (arg(ip, e, st, i) for i in range(3))
        k = T("fld", o, BY)
        st.S[k] = append(st.S.get(k, unk("stream")), T("one", app("bytes", d, n)))
        return num(0)

    def finish(ip, e, st):
        o = arg(ip, e, st, 0)
        out.append(st.S.get(T("fld", o, BY)))
        d = e["a"][1]
        while d.get("k") in ("cast", "paren"):
            d = d["e"]
        if d.get("k") == "un" and d.get("op") == "&":
            d = d["e"]
            if d.get("k") == "idx":
                d = d["b"] if "b" in d else d
        l = ip.lval(d, st) if d.get("k") in ("ref", "mem") else None
        if l is not None:
            ip.write(ip.resolve(l), DIGEST, st)
        return unk("void")

    def frombe(ip, e, st):
        n, b = (ip.reify(arg(ip, e, st, i), st) for i in range(2))
        return app("frombe", strip_trunc(n), b)
    return {"Hacl_Bignum256_new_bn_from_bytes_be": frombe,"Hacl_Streaming_SHA2_create_in_256": create, "Hacl_Streaming_SHA2_update_256": update,
            "Hacl_Streaming_SHA2_finish_256": finish}


def strip_trunc(t):
    while t.op == "app" and str(t.a[0]).startswith("trunc"):
        t = t.a[1]
    return t


def enc_want(ty, v):
    """Encoding the scheme prescribes for one element of the variant's alternative ty."""
    b = ty.replace("std::reference_wrapper<", "").replace("const ", "").replace("electionguard::", "").strip("> *")
    if ty.startswith("std::nullptr_t") or ty == "nullptr_t":
        return [None]
    if ty.startswith("std::vector<"):
        el = targs(ty)[0]
        if el == "unsigned char":
            return [app(EG + "vector_uint8_t_to_hex", v), app(EG + "bytes_to_hex", v)]
        return [("vec", app(EG + "ElementModQ::toHex", app(EG + "hash_elems", v)))]
    if b == "CryptoHashable":
        return [app(EG + "ElementModQ::toHex", app(EG + "CryptoHashable::crypto_hash", v))]
    if b in ("ElementModP", "ElementModQ"):
        return [app(EG + b + "::toHex", v)]
    if ty == "unsigned long":
        return [("zero", app("to_string", v)), ("zero", app("std::to_string", v))]
    if ty == "std::string":
        return [("vec", v)]
    return []


@check("C10", "gated value numbering of hash_elems with SHA-256 as a byte stream; per-alternative case split",
       "the stream hashed is: for every element of the input, in order, the full text of that element (by the type the "
       "variant holds) followed by a constant delimiter.")
def c10(ctx):
    p = ctx.p
    names = [EG + x for x in ("hash_open", "push_hash_update", "hash_close", "get_hash_string", "hash_inner_vector")]
    for vec in (True, False):
        fs = [f for f in finds(p, "hash_elems") if ("std::vector<std::variant" in f["ps"][0]["t"]) == vec]
        if not fs:
            raise AnalysisBroken("hash_elems overload missing")
        fn = fs[0]
        out = []
        from .. import domain
        ip = domain.make(p, reveal=names, models=sha_models(out), opaque=[EG + "CryptoHashable::crypto_hash"])
        a = sym("a")
        res = ip.run(fn, args=[a])
        ctx.saw(ip)
        sig = "hash_elems(%s)" % ("vector" if vec else "element")
        ctx.part(sig + " result", digest, ctx, ip, fn, sig, res)
        out = [o for o in out if o is not None]
        if len(out) != 1 or out[0].op not in ("seq", "ite"):
            ctx.undecide(sig, ctx.loc(fn), "the hashed stream is not a single sequence")
            continue
        st = out[0]
        if vec:
            st = Canon()(subst(st, {app("empty", a): FALSE}))
            ea = [q for q in flatpieces(st) if q.op == "each"]
            ok = len(ea) == 1 and ea[0].a[1] is a and ea[0].a[3] is FALSE
            if not ctx.need(ok, sig + ": every element of the input is hashed, in order", ctx.loc(fn), show(st)[:400]):
                continue
            body = [q for q in flatpieces(ea[0].a[2])]
            el = T("bv", ea[0].a[0])
            head = [q for q in flatpieces(st) if q.op != "each"]
            tail_ok = all(not has(q, a) for q in head)
            ctx.need(tail_ok, sig + ": only constants surround the elements", ctx.loc(fn), show(st)[:400])
        else:
            body = [q for q in flatpieces(st) if True]
            while body and not has(body[0], a):
                body = body[1:]
            el = a
        if body and body[-1].op == "when" and all(q.op == "one" and not has(q.a[0], el) for q in flatpieces(body[-1].a[1])) \
                and any(has(q, el) for q in body[:-1]):
            ctx.bad(sig + ": each element is followed by a constant delimiter", ctx.loc(fn),
                    "only when %s" % show(body[-1].a[0])[:200])
            continue
        pieces_ = [q.a[0] for q in body if q.op == "one"]
        if len(pieces_) != len(body) or not pieces_:
            ctx.undecide(sig + " element", ctx.loc(fn), "conditional pieces")
            continue
        ctx.need(not has(pieces_[-1], el), sig + ": each element is followed by a constant delimiter", ctx.loc(fn),
                 show(pieces_[-1])[:200])
        d = pieces_[0]
        dat, ln = d.a[1], strip_trunc(d.a[2])
        ctx.need(len(pieces_) == 2 and ln is app("size", dat), sig + ": the whole text of the element is hashed",
                 ctx.loc(fn), "hashes %s of length %s" % (show(dat)[:150], show(ln)[:150]))
        vt = fn["ps"][0]["t"]
        vt = vt[vt.index("std::variant<"):]
        alts = targs(vt)
        idx = app("std::variant::index", el)
        null = None
        for i, ty in enumerate(alts):
            got = Canon()(subst(dat, {idx: num(i)}))
            if i == 0:
                null = got
                ctx.need(not has(got, el), sig + ": nullptr hashes as a constant", ctx.loc(fn), show(got)[:200])
                continue
            what = sig + ": alternative %d (%s)" % (i, ty.replace("electionguard::", "").split(",")[0][:60])
            gs = [s for s in subterms(got) if s.op == "app" and s.a[0] in ("std::get", "std::get_if") and s.a[1] is el]
            if got.op == "unk" or any(s.op == "unk" for s in subterms(got)):
                ctx.undecide(what, ctx.loc(fn), show(got)[:100])
                continue
            if not ctx.need(bool(gs), what + " contributes its value", ctx.loc(fn), "hashed text is %s" % show(got)[:200]):
                continue
            v = gs[0]
            ty2 = v.a[2].a[0] if v.a[2].op == "str" else None
            if ty2 is not None and not (v.a[2].a[0] == ty):
                ctx.bad(what + " reads its own alternative", ctx.loc(fn), "std::get<%s> where the variant holds %s" % (ty2, ty))
                continue
            ok = False
            for w in enc_want(ty, v):
                if isinstance(w, tuple):
                    z = app("empty", v) if w[0] == "vec" else T("eq", num(0), v)
                    nz = Canon()(subst(got, {Canon()(z): FALSE, z: FALSE}))
                    ze = Canon()(subst(got, {Canon()(z): TRUE, z: TRUE}))
                    ok = ok or nz is Canon()(w[1]) and ze in (null, Canon()(w[1]))
                else:
                    ok = ok or w is not None and got is Canon()(w)
            ctx.need(ok, what + " is hashed by its own text", ctx.loc(fn), "hashed text is %s" % show(got)[:300])


WHOLE = app("frombe", num(32), DIGEST)
REDUCERS = {"add_mod_q": 2, "sub_mod_q": 2, "mul_mod_q": 2}


def digest(ctx, ip, fn, sig, res):
    """What is returned is the whole digest, read big endian, reduced into [0, Q)."""
    w = sig + ": the result is the whole SHA-256 digest reduced modulo Q"
    for pc, o, s, ln in res.rets:
        for o in leaves(o):
            t, reduced = ip.reify(o, s) if s is not None else o, False
            while t.op == "app" and str(t.a[0]).replace(EG, "") in REDUCERS:
                n = str(t.a[0]).replace(EG, "")
                unit = app(EG + ("ONE_MOD_Q" if n == "mul_mod_q" else "ZERO_MOD_Q"))
                rest = [x for x in t.a[1:] if x is not unit]
                if len(rest) != 1 or n == "sub_mod_q" and t.a[2] is not unit:
                    break
                t, reduced = rest[0], True
            dd = [q for q in subterms(t) if q.op == "app" and q.a[0] == "frombe"]
            cp = [q for q in subterms(t) if q.op == "app" and q.a[0] == "memcpy"]
            if not dd or contains(t, lambda q: q.op in ("unk", "lv")):
                ctx.undecide(w, ctx.loc(fn, ln), show(t)[:200])
                continue
            if any(q.a[2] is DIGEST and q.a[1].op == "int" and q is not WHOLE for q in dd):
                ctx.bad(w, ctx.loc(fn, ln), "only %s bytes of the digest are read" % show(dd[0].a[1]))
            elif any(q is not WHOLE for q in dd):
                ctx.undecide(w, ctx.loc(fn, ln), show(t)[:200])
            elif any(q.a[3].op == "int" and q.a[3].a[0] < 32 for q in cp):
                ctx.bad(w, ctx.loc(fn, ln), "only %s bytes of the digest are kept" % show(cp[0].a[3]))
            elif not reduced:
                ctx.bad(w, ctx.loc(fn, ln), "the digest is returned as it is: %s" % show(t)[:200])
            else:
                ctx.ok(w, ctx.loc(fn, ln))


def flatpieces(t):
    """Pieces of a sequence with the conditionals decided."""
    out = []
    for q in pieces(t):
        if q.op == "when" and q.a[0] is TRUE:
            out += flatpieces(q.a[1])
        elif q.op == "when" and q.a[0] is FALSE:
            continue
        else:
            out.append(q)
    return out
