"""C28: what makes a contest description and a manifest valid."""
from ..alg import *
from ..api import *
from ..check import check, unresolved
from ..terms import *
from .. import finite
from .r_ballot import *
from .r_hash import unsorted, same
from ..prog import AnalysisBroken

MAN, CON, SEL = "Manifest", "ContestDescription", "SelectionDescription"
_n = [0]


def fresh():
    _n[0] += 1
    return T("elem", -100000 - _n[0], NULL)


def each_of(t):
    """(collection, element, conditions, value) of a list built by one loop over a collection."""
    if t.op != "seq" or len(t.a) != 1:
        return None
    q = t.a[0]
    if q.op == "splice":
        x = fresh()
        return unsorted(q.a[0]), x, [], x, FALSE
    if q.op != "each":
        return None
    x = fresh()
    m = {T("bv", q.a[0]): x}
    body, brk = subst(q.a[2], m), subst(q.a[3], m)
    cs = []
    while body.op == "seq" and len(body.a) == 1 and body.a[0].op == "when":
        cs.append(body.a[0].a[0])
        body = body.a[0].a[1]
    if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "one":
        return unsorted(q.a[1]), x, cs, body.a[0].a[0], brk
    return None


def image(x, coll, v):
    h, (w,) = bind(x, v)
    return app("distinct", T("each", h, coll, w, FALSE))


class Norm:
    """Sets of ids as what they say of the elements they were built from."""

    def __init__(self, facts):
        self.facts = facts
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def holds(self, x, coll, c):
        """Every element of the collection satisfies c."""
        return self.never(x, coll, neg(c))

    def never(self, x, coll, c):
        """No element of the collection satisfies c."""
        if neg(exists(x, coll, c)) in self.facts or ncanon(neg(exists(x, coll, c))) in self.facts:
            return True
        if c.op == "not" and c.a[0].op == "and":
            c = disj(*[neg(y) for y in c.a[0].a])
        if c.op == "or":
            return all(self.never(x, coll, y) for y in c.a)
        return c.op == "and" and any(self.never(x, coll, y) for y in c.a)

    def go(self, t):
        if t.op == "exists":
            h, coll, c = t.a
            x = fresh()
            c = self(subst(c, {T("bv", h): x}))
            coll = unsorted(coll)
            cs = [y for y in conjuncts(c) if not self.holds(x, coll, y)]
            return exists(x, coll, conj(*cs))
        if t.op == "eq":
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if b.op == "app" and b.a[0] == "distinct" and a.op == "app" and a.a[0] == "size":
                    e = each_of(b.a[1])
                    if e is None:
                        continue
                    coll, x, cs, v, brk = e
                    if coll is unsorted(a.a[1]) and (brk is FALSE or self.never(x, coll, brk)):
                        return conj(*([neg(exists(x, coll, neg(self(c)))) for c in cs] + [T("eq", app("size", coll), image(x, coll, v))]))
        if t.op == "app" and t.a[0] == "contains" and len(t.a) == 3:
            e = each_of(t.a[1])
            if e is not None:
                coll, x, cs, v, brk = e
                if brk is FALSE or self.never(x, coll, brk):
                    k = self(t.a[2])
                    cs = [y for c in cs for y in conjuncts(c) if not self.holds(x, coll, y)]
                    return exists(x, coll, conj(*(cs + [ncanon(T("eq", v, k))])))
        if t.op == "app" and t.a[0] == "upto":
            x = fresh()
            brk, c = (self(subst(y, {T("bv", t.a[1].a[0]): x})) for y in t.a[3:5])
            coll = unsorted(t.a[2])
            if self.never(x, coll, brk):
                return exists(x, coll, c)
            h, (k2, c2) = bind(x, brk, c)
            return T("app", "upto", num(h), coll, k2, c2)
        if t.op in ("and", "or", "not"):
            xs = [self(x) for x in t.a]
            return conj(*xs) if t.op == "and" else disj(*xs) if t.op == "or" else neg(xs[0])
        return t


def normal(A):
    A = ncanon(A)
    for _ in range(3):
        B = ncanon(Norm(set(conjuncts(A)))(A))
        if B is A:
            break
        A = B
    return exact(A)


def exact(t):
    """Conditions over the iterations before a break are known exactly."""
    if not contains(t, lambda q: q.op == "app" and q.a[0] == "upto"):
        return t
    xs = [exact(x) if isinstance(x, T) else x for x in t.a]
    return T(t.op, *(["reached"] + xs[1:] if t.op == "app" and t.a[0] == "upto" else xs))


def distinct(E, coll, cls, getter):
    x = fresh()
    coll = unsorted(coll)
    return T("eq", app("size", coll), image(x, coll, E.get(cls, getter, x)))


def nonempty(E, coll, cls, getter):
    x = fresh()
    return forall(x, unsorted(coll), neg(is_empty(E.get(cls, getter, x))))


def is_empty(t):
    return ncanon(app("empty", t))


def contest_spec(E, c):
    sels = unsorted(E.get(CON, "getSelections", c))
    ne, va = E.get(CON, "getNumberElected", c), E.get(CON, "getVotesAllowed", c)
    return [
        ("no more are elected than there are selections", neg(T("lt", app("size", sels), ne))),
        ("as many votes are allowed as are elected (0: not given)", disj(T("eq", num(0), va), neg(T("lt", va, ne)))),
        ("every selection has an id", nonempty(E, sels, SEL, "getObjectId")),
        ("no two selections have the same id", distinct(E, sels, SEL, "getObjectId")),
        ("every selection has a candidate", nonempty(E, sels, SEL, "getCandidateId")),
        ("no two selections have the same candidate", distinct(E, sels, SEL, "getCandidateId")),
        ("no two selections have the same sequence order", distinct(E, sels, SEL, "getSequenceOrder")),
    ]


def manifest_spec(E, m):
    g = {n: unsorted(E.get(MAN, n, m)) for n in ("getGeopoliticalUnits", "getBallotStyles", "getParties", "getCandidates", "getContests")}
    cls = {"getGeopoliticalUnits": "GeopoliticalUnit", "getBallotStyles": "BallotStyle", "getParties": "Party", "getCandidates": "Candidate", "getContests": CON}
    word = {"getGeopoliticalUnits": "geopolitical unit", "getBallotStyles": "ballot style", "getParties": "party", "getCandidates": "candidate", "getContests": "contest"}
    out = []
    for n in g:
        out.append(("every %s has an id" % word[n], nonempty(E, g[n], cls[n], "getObjectId")))
        out.append(("the ids of all %s entries differ" % word[n], distinct(E, g[n], cls[n], "getObjectId")))

    def known(coll, c, k):
        y = fresh()
        return exists(y, coll, ncanon(T("eq", E.get(c, "getObjectId", y), k)))
    b = fresh()
    units = unsorted(E.get("BallotStyle", "getGeopoliticalUnitIds", b))
    out.append(("every ballot style has a geopolitical unit", forall(b, g["getBallotStyles"], neg(is_empty(units)))))
    u = fresh()
    out.append(("every geopolitical unit of a ballot style is in the manifest",
                forall(b, g["getBallotStyles"], forall(u, units, known(g["getGeopoliticalUnits"], "GeopoliticalUnit", u)))))
    c = fresh()
    party = E.get("Candidate", "getPartyId", c)
    out.append(("the party of a candidate, where given, is in the manifest", forall(c, g["getCandidates"], disj(is_empty(party), known(g["getParties"], "Party", party)))))
    c = fresh()
    d = E.get(CON, "getElectoralDistrictId", c)
    out.append(("every contest has an electoral district", forall(c, g["getContests"], neg(is_empty(d)))))
    out.append(("the electoral district of every contest is in the manifest", forall(c, g["getContests"], known(g["getGeopoliticalUnits"], "GeopoliticalUnit", d))))
    out.append(("no two contests have the same sequence order", distinct(E, g["getContests"], CON, "getSequenceOrder")))
    for what, s in contest_spec(E, c):
        out.append(("in every contest " + what, forall(c, g["getContests"], s)))
    return out


@check("C28", "gated value numbering of the validation functions, sets of ids as facts about the elements they are built from",
       "the function returns true exactly when every listed condition holds of every part.")
def c28(ctx):
    for n, f, spec in (("contest", CON + "::isValid", contest_spec), ("manifest", MAN + "::isValid", manifest_spec)):
        ctx.part(n, validity, ctx, f, spec)


def validity(ctx, name, spec):
    E = Engine(ctx)
    c = sym("c")
    fn = find(ctx.p, name)
    ip = E.ip()
    r = E.run(fn, this=c, ip=ip)
    raw = cond_true(r)
    A = normal(raw)
    S = [(what, normal(s)) for what, s in spec(E, c)]
    models = (finite.contests if name.startswith(CON) else finite.manifests)(c, ip.lvinfo)
    odd = [inputs(ip, y) for y in conjuncts(A) if unresolved(y)]
    for what, s in S:
        about = [A]
        if not implies(A, s) and odd and all(i is not None and not inputs(ip, s) <= i for i in odd):
            about = []      # no condition the function checks sees all that this one is about
        judge(ctx, models, implies(A, s), raw, s, "%s only if %s" % (name, what), ctx.loc(fn), "accepts when: " + show(A)[:1200], about)
    full = conj(*[s for _, s in S])
    judge(ctx, models, implies(full, A), full, raw, "%s whenever all of this holds" % name, ctx.loc(fn), "accepts when: " + show(A)[:1200], [A])


def judge(ctx, models, ok, a, s, what, where, detail, about):
    """a implies s: shown, or refuted by a small model."""
    if ok:
        ctx.ok(what, where)
        return
    m, known = finite.counterexample(models, a, s)
    if m is not None:
        ctx.bad(what, where, "not so for %r; %s" % (list(m.env.values())[0], detail))
    elif known:
        ctx.undecide(what, where, "no small counterexample; " + detail)
    else:
        ctx.need(False, what, where, detail, about=about)


def inputs(ip, t):
    """The fields a condition can depend on; None when that is not known."""
    out, seen, todo = set(), set(), [t]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        if q.op == "unk" or q.op == "app" and str(q.a[0]).startswith("after:"):
            return None
        if q.op == "lv":
            i = ip.lvinfo.get(q)
            if i is None:
                return None
            todo += i
        if q.op == "fld":
            out.add(q.a[1])
        todo += [x for x in q.a if isinstance(x, T)]
    return out


# ------------------------------------------------------------------ C30
IM, CWP = "InternalManifest", "ContestDescriptionWithPlaceholders"


@check("C30", "gated value numbering of InternalManifest: its constructor, getters and look-ups",
       "the internal manifest holds the manifest's own parts and hash, each contest with exactly numberElected placeholders whose ids "
       "and sequence orders nothing else in the contest has; look-ups return exactly what carries the id or district asked for.")
def c30(ctx):
    ctx.part("construction", internal, ctx)
    ctx.part("placeholders", placeholders, ctx)
    ctx.part("getters", getters, ctx)
    ctx.part("getBallotStyle", style_of, ctx)
    ctx.part("getContestsFor", contests_for, ctx)
    ctx.part("selectionFor", selection_for, ctx)
    ctx.part("IsPlaceholder", is_placeholder, ctx)


def built(ctx, E, m):
    fn = [f for f in finds(ctx.p, IM + "::" + IM) if len(f["ps"]) == 1 and "electionguard::Manifest &" in f["ps"][0]["t"]]
    if not fn:
        raise AnalysisBroken("no constructor of InternalManifest from a Manifest")
    ip = E.ip()
    o = ip.newobj(IM)
    r = E.run(fn[0], args=[m], this=o, ip=ip)
    return fn[0], ip.reify(o, r.st)


def internal(ctx):
    E = Engine(ctx)
    m = sym("m")
    fn, im = built(ctx, E, m)
    for g in ("getGeopoliticalUnits", "getCandidates", "getBallotStyles"):
        a, b = unsorted(ncanon(E.get(IM, g, im))), unsorted(ncanon(E.get(MAN, g, m)))
        ctx.need(a is b or same(a, b) is None, "InternalManifest: %s gives all of the manifest's, in their order" % g, ctx.loc(fn), show(a)[:300], about=[a])
    h = E.run(find(ctx.p, MAN + "::crypto_hash", n=0), this=m).ret
    a = E.get(IM, "getManifestHash", im)
    ctx.need(same(a, h) is None, "InternalManifest: the manifest hash is that of the manifest", ctx.loc(fn), show(ncanon(a))[:300], about=[a])
    cs = contests_of(ctx, E, fn, im, m)
    if cs is None:
        return
    x, c = cs
    n = 0
    for g in contest_getters(ctx):
        if g in ("getPlaceholders",):
            continue
        a, b = ncanon(E.get(CON, g, c)), ncanon(E.get(CON, g, x))
        n += 1
        ctx.need(a is b or same(a, b) is None, "InternalManifest: a contest keeps its %s" % g[3:], ctx.loc(fn), show(a)[:300], about=[a])
    ctx.tally("contest getters compared", n)


def contest_getters(ctx):
    out = set()
    for n, fs in ctx.p.by_name.items():
        if n.startswith(EG + CON + "::get") and n.count("::") == 2:
            for f in fs:
                if f.get("b") is not None and not f["ps"]:
                    out.add(n.split("::")[-1])
    return sorted(out)


def contests_of(ctx, E, fn, im, m):
    """(contest of the manifest, contest of the internal manifest)."""
    w = "InternalManifest: there is one contest for every contest of the manifest"
    t = unsorted(ncanon(E.get(IM, "getContests", im)))
    e = each_of(t)
    if e is None:
        ctx.undecide(w, ctx.loc(fn), show(t)[:200])
        return None
    coll, x, cs, v, brk = e
    want = unsorted(ncanon(E.get(MAN, "getContests", m)))
    ctx.need(unsorted(coll) is want and not cs and brk is FALSE, w, ctx.loc(fn), show(t)[:300], about=[coll] + cs)
    return x, v


def placeholders(ctx):
    E = Engine(ctx)
    m = sym("m")
    fn, im = built(ctx, E, m)
    cs = contests_of(ctx, E, fn, im, m)
    if cs is None:
        return
    x, c = cs
    t = unsorted(ncanon(E.get(CWP, "getPlaceholders", c)))
    w = "InternalManifest: every contest has exactly numberElected placeholders"
    wrong = by_models(E, x, t)

    def open_(w, why):
        if wrong.get(w):
            ctx.bad(w, ctx.loc(fn), wrong[w])
        else:
            ctx.undecide(w, ctx.loc(fn), why)

    def rest_():
        for w2 in wrong:
            if wrong[w2] and w2 != w:
                ctx.bad(w2, ctx.loc(fn), wrong[w2])
    ps = list(pieces(t)) if t.op == "seq" else []
    ne = ncanon(E.get(CON, "getNumberElected", x))
    if not ps and t.op == "seq":
        ctx.bad(w, ctx.loc(fn), "none")
        return
    if len(ps) != 1 or ps[0].op != "each":
        open_(w, show(t)[:300])
        rest_()
        return
    h, coll, body, brk = ps[0].a
    i = fresh()
    first = coll.a[1] if coll.op == "app" and coll.a[0] == "range2" else num(0)
    body = ncanon(subst(body, {T("bv", h): i if first is num(0) else app("+", first, i)}))
    bp = list(pieces(body))
    n = span(coll)
    if n is None or brk is not FALSE or len(bp) != 1 or bp[0].op != "one":
        if brk is FALSE and n is not None and len(bp) == 1 and bp[0].op == "when" and not unresolved(bp[0].a[0]):
            ctx.bad(w, ctx.loc(fn), "only when %s" % show(bp[0].a[0])[:200])
        else:
            open_(w, show(t)[:300])
            rest_()
        return
    ctx.need(same(n, ne) is None, w, ctx.loc(fn), "as many as %s" % show(n)[:300], about=[n])
    p = bp[0].a[0]
    so = ncanon(E.get(SEL, "getSequenceOrder", p))
    l = lin(so)
    w = "InternalManifest: the placeholders of a contest have sequence orders of their own"
    if i not in free_elems(so):
        ctx.need(False, w, ctx.loc(fn), "all have %s" % show(so)[:200], about=[q for q in subterms(so) if q.op in ("lv", "unk")][:1])
    elif l.get(i) in (1, -1) or all(k is None or k is i or i not in free_elems(k) for k in l) and l.get(i):
        ctx.ok(w, ctx.loc(fn))
    else:
        open_(w, show(so)[:200])
    w = "InternalManifest: placeholders come after every selection of their contest"
    sels = unsorted(ncanon(E.get(CON, "getSelections", x)))
    rest = {k: v for k, v in l.items() if k is not i}
    ms = [k for k in rest if k is not None]
    if l.get(i) == 1 and len(ms) == 1 and rest[ms[0]] == 1 and is_max(E, ms[0], sels):
        k = rest.get(None, 0)
        ctx.need(k >= 1, w, ctx.loc(fn), "the first has the highest order of the selections plus %d" % k)
    elif len(ms) == 1 and is_max(E, ms[0], sels) is None:
        ctx.bad(w, ctx.loc(fn), "not every selection's order counts: %s" % show(so)[:300])
    elif not mentions_orders(E, so, sels) and not unresolved(so):
        ctx.bad(w, ctx.loc(fn), "their order %s does not depend on the orders of the selections" % show(so)[:200])
    else:
        open_(w, show(so)[:300])
    for g in ("getObjectId", "getCandidateId"):
        v = ncanon(E.get(SEL, g, p))
        w = "InternalManifest: the placeholders of a contest differ in %s" % g[3:]
        if i not in free_elems(v):
            ctx.need(False, w, ctx.loc(fn), "all have %s" % show(v)[:200], about=[q for q in subterms(v) if q.op in ("lv", "unk")][:1])
        elif v.op == "app" and v.a[0] == "concat" and [y for y in v.a[1:] if i in free_elems(y)] and all(distinct_text(y, i) for y in v.a[1:] if i in free_elems(y)):
            ctx.ok(w, ctx.loc(fn))
        elif any(q.op == "app" and q.a[0] in ("%", "/", ">>", "&") and i in free_elems(q) for q in subterms(v)):
            ctx.bad(w, ctx.loc(fn), "several can have %s" % show(v)[:200])
        else:
            open_(w, show(v)[:200])


def by_models(E, x, t):
    """What is wrong with the placeholders of a contest, in small models."""
    W = "InternalManifest: "
    ws = {k: None for k in (W + "every contest has exactly numberElected placeholders", W + "the placeholders of a contest have sequence orders of their own",
                            W + "placeholders come after every selection of their contest", W + "the placeholders of a contest differ in ObjectId",
                            W + "the placeholders of a contest differ in CandidateId")}
    n, o, a, d, c = ws
    y = sym("y")
    name = {g: E.get(SEL, g, y) for g in ("getSequenceOrder", "getObjectId", "getCandidateId")}
    if any(q.op != "fld" or q.a[0] is not y for q in name.values()):
        return ws
    try:
        for m in finite.contests(x):
            k = m.env[x]
            ps = m(t)
            f = {g: [m.get(q, name[g].a[1]) for q in ps] for g in name}
            so = f["getSequenceOrder"]
            top = max([q.f["sequenceOrder"] for q in k.f["selections"]] or [-1])
            for w, ok in ((n, len(ps) == k.f["numberElected"]), (o, len(set(so)) == len(so)), (a, not so or not k.f["selections"] or min(so) > top),
                          (d, len(set(f["getObjectId"])) == len(ps)), (c, len(set(f["getCandidateId"])) == len(ps))):
                if not ok and not ws[w]:
                    ws[w] = "not so for the contest %r: orders %s, ids %s" % (k, so, f["getObjectId"])
    except finite.Unknown:
        pass
    return ws


def distinct_text(y, i):
    if y.op == "app" and y.a[0] in ("to_string", "std::to_string"):
        y = y.a[1]
    l = lin(y)
    return bool(l.get(i)) and all(k is None or k is i or i not in free_elems(k) for k in l)


def lin(t):
    """Linear form over atoms: {atom or None: coefficient}."""
    if t.op == "int":
        return {None: t.a[0]}
    if t.op == "app" and t.a[0] == "+":
        out = {}
        for x in t.a[1:]:
            for k, v in lin(x).items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    if t.op == "app" and t.a[0] == "-" and len(t.a) == 3:
        out = dict(lin(t.a[1]))
        for k, v in lin(t.a[2]).items():
            out[k] = out.get(k, 0) - v
        return {k: v for k, v in out.items() if v}
    if t.op == "app" and t.a[0] == "*" and len(t.a) == 3 and any(x.op == "int" for x in t.a[1:]):
        a, b = t.a[1:]
        if b.op == "int":
            a, b = b, a
        return {k: v * a.a[0] for k, v in lin(b).items()}
    return {t: 1}


def span(coll):
    """Number of values of an index range."""
    if coll.op == "app" and coll.a[0] == "range":
        return coll.a[1]
    if coll.op == "app" and coll.a[0] == "range2":
        a, b = coll.a[1:3]
        if a.op == "int" and a.a[0] == 0:
            return b
        l = lin(b)
        for k, v in lin(a).items():
            l[k] = l.get(k, 0) - v
        l = {k: v for k, v in l.items() if v}
        ks = [k for k in l if k is not None]
        if len(ks) == 1 and l[ks[0]] == 1 and not l.get(None):
            return ks[0]
        if len(ks) == 1 and l[ks[0]] == 1:
            return app("+", num(l[None]), ks[0])
    return None


def is_max(E, t, sels):
    """The largest sequence order among the selections; None: the largest among some of them."""
    if t.op != "app" or t.a[0] != "loop":
        return False
    _, hT, coll, v0, b, brk = t.a
    if brk is not FALSE or unsorted(coll) is not sels or v0 is not num(0):
        return False
    h = hT.a[0]
    x, acc = fresh(), fresh()
    b = subst(b, {T("bv", h): x, T("bv", h + 1): acc})
    so = ncanon(E.get(SEL, "getSequenceOrder", x))
    if b.op == "app" and b.a[0] in ("max", "std::max"):
        return set(b.a[1:]) == {so, acc}
    if b.op != "ite":
        return False
    c, y, n = b.a
    if c.op == "not":
        c, y, n = c.a[0], n, y
    if c.op == "and" and y is so and n is acc and T("lt", acc, so) in c.a and not unresolved(c):
        return None
    if c.op != "lt":
        return False
    return c.a == (acc, so) and y is so and n is acc or c.a == (so, acc) and y is acc and n is so


def mentions_orders(E, t, sels):
    x = fresh()
    so = ncanon(E.get(SEL, "getSequenceOrder", x))
    f = so.a[1] if so.op == "fld" else None
    return contains(t, lambda q: q.op == "fld" and q.a[1] == f)


def by_order(E, t, cls):
    """Sorted by sequence order, smallest first."""
    if t.op != "app" or t.a[0] != "sorted" or len(t.a) != 3:
        return False
    x, y = sym("$x"), sym("$y")
    a, b = (ncanon(E.get(cls, "getSequenceOrder", z)) for z in (x, y))
    return ncanon(t.a[2]) is T("lt", a, b)


def getters(ctx):
    E = Engine(ctx)
    x = sym("im")
    raw = {}
    for cls, g, el in ((IM, "getContests", CON), (CWP, "getPlaceholders", SEL), (CON, "getSelections", SEL), (MAN, "getContests", CON)):
        f = find(ctx.p, cls + "::" + g, n=0)
        t = ncanon(E.get(cls, g, x))
        w = "%s::%s gives all of them in sequence order" % (cls, g)
        u = unsorted(t)
        if u.op == "fld":
            ctx.need(by_order(E, t, el), w, ctx.loc(f), show(t)[:300])
        else:
            ctx.need(False, w, ctx.loc(f), show(t)[:300], about=[t])
    for g in ("getGeopoliticalUnits", "getCandidates", "getBallotStyles"):
        f = find(ctx.p, IM + "::" + g, n=0)
        t = ncanon(E.get(IM, g, x))
        ctx.need(unsorted(t).op == "fld", "%s::%s gives all of them" % (IM, g), ctx.loc(f), show(t)[:300], about=[t])


def lookup(E, coll, cls, key):
    """(some element has that id, the first element that has it)."""
    y = fresh()
    c = ncanon(T("eq", E.get(cls, "getObjectId", y), key))
    return exists(y, coll, c), y, c


def picked(t, coll, y, c):
    """t is an element of coll satisfying c."""
    if t.op != "app" or t.a[0] not in ("pick", "first", "last", "find"):
        return False
    if unsorted(t.a[2]) is not unsorted(coll):
        return False
    h = t.a[1].a[0]
    z = T("bv", h)
    cc = [ncanon(subst(q, {z: y})) for q in t.a[3:4]]
    val = subst(t.a[4], {z: y}) if len(t.a) > 4 else y
    return val is y and cc and implies(cc[0], c) is True


def style_of(ctx):
    E = Engine(ctx)
    x, k = sym("im"), sym("id")
    fn = find(ctx.p, IM + "::getBallotStyle", n=1)
    r = E.run(fn, args=[k], this=x)
    styles = unsorted(ncanon(E.get(IM, "getBallotStyles", x)))
    found(ctx, E, fn, "InternalManifest::getBallotStyle", r, [(styles, "BallotStyle")], k, NULL)


def found(ctx, E, fn, what, r, where, key, otherwise):
    """Returns an element with that id whenever there is one, and only then."""
    some = FALSE
    for coll, cls in where:
        some = disj(some, lookup(E, coll, cls, key)[0])
    some = Norm2(some)
    for pc, v, s, ln in r.rets:
        for g, t in cases(ncanon(v)):
            g = conj(ncanon(pc), g)
            if t.op == "null" or t is NULL:
                ctx.need(otherwise is NULL and implies(Norm2(g), neg(some)) is True, what + ": nothing is returned only when nothing has that id", ctx.loc(fn, ln),
                         "when " + show(Norm2(g))[:300], about=[g])
                continue
            ok = any(picked(t, coll, *lookup(E, coll, cls, key)[1:]) for coll, cls in where)
            ctx.need(ok, what + ": what is returned has that id", ctx.loc(fn, ln), show(t)[:300], about=[t])
    th = FALSE
    for q in r.throws:
        th = disj(th, q[0])
    th = Norm2(th)
    if otherwise is NULL:
        ctx.need(th is FALSE or implies(th, FALSE) is True, what + ": it does not throw", ctx.loc(fn), show(th)[:200], about=[th])
    else:
        ctx.need(implies(conj(th, some), FALSE) is True, what + ": it throws only when nothing has that id", ctx.loc(fn), show(th)[:300], about=[th])


def Norm2(t):
    t = ncanon(t)
    m = {}
    for q in subterms(t):
        if q.op == "exists" and q.a[1].op == "app" and q.a[1].a[0] == "sorted":
            m[q] = T("exists", q.a[0], unsorted(q.a[1]), q.a[2])
        if q.op == "nonnull" and q.a[0].op == "app" and q.a[0].a[0] in ("pick", "first", "last", "find"):
            m[q] = TRUE
    return ncanon(subst(t, m)) if m else t


def cases(t):
    if t.op == "ite":
        for g, v in cases(t.a[1]):
            yield conj(t.a[0], g), v
        for g, v in cases(t.a[2]):
            yield conj(neg(t.a[0]), g), v
    else:
        yield TRUE, t


def selection_for(ctx):
    E = Engine(ctx)
    x, k = sym("c"), sym("id")
    fn = find(ctx.p, CWP + "::selectionFor", n=1)
    r = E.run(fn, args=[k], this=x)
    cs = [(unsorted(ncanon(E.get(CON, "getSelections", x))), SEL), (unsorted(ncanon(E.get(CWP, "getPlaceholders", x))), SEL)]
    found(ctx, E, fn, CWP + "::selectionFor", r, cs, k, None)


def is_placeholder(ctx):
    E = Engine(ctx)
    x, s = sym("c"), sym("s")
    fn = find(ctx.p, CWP + "::IsPlaceholder", n=1)
    A = Norm2(cond_true(E.run(fn, args=[s], this=x)))
    want = Norm2(lookup(E, unsorted(ncanon(E.get(CWP, "getPlaceholders", x))), SEL, E.get(SEL, "getObjectId", s))[0])
    ctx.need(A is want or implies(A, want) is True and implies(want, A) is True, CWP + "::IsPlaceholder is true exactly for the ids of its placeholders", ctx.loc(fn), show(A)[:300], about=[A])


def contests_for(ctx):
    E = Engine(ctx)
    x, k = sym("im"), sym("id")
    fn = find(ctx.p, IM + "::getContestsFor", n=1)
    r = E.run(fn, args=[k], this=x)
    styles = unsorted(ncanon(E.get(IM, "getBallotStyles", x)))
    some, y, c = lookup(E, styles, "BallotStyle", k)
    th = FALSE
    for q in r.throws:
        th = disj(th, q[0])
    ctx.need(implies(neg(Norm2(some)), Norm2(th)) is True, "getContestsFor: an unknown ballot style is refused", ctx.loc(fn), "throws when " + show(th)[:300], about=[th])
    all_contests = unsorted(ncanon(E.get(IM, "getContests", x)))
    for pc, v, s, ln in r.rets:
        for g, t in cases(ncanon(v)):
            if implies(conj(Norm2(pc), Norm2(g), neg(Norm2(some))), FALSE) is not True:
                ctx.need(False, "getContestsFor: an unknown ballot style is refused", ctx.loc(fn, ln), "returns %s" % show(t)[:200], about=[pc, g])
            ctx.need(by_order(E, t, CON), "getContestsFor: the contests are in sequence order", ctx.loc(fn, ln), show(t)[:300], about=[t])
            exact_filter(ctx, E, fn, ln, unsorted(t), all_contests, styles, y, c)


def exact_filter(ctx, E, fn, ln, t, contests, styles, y, c):
    w = "getContestsFor: exactly the contests whose district is among the style's units"
    loops, conds, brks = [], [], []
    while t.op == "seq" and len(t.a) == 1 and t.a[0].op in ("each", "when"):
        q = t.a[0]
        if q.op == "when":
            conds += list(conjuncts(q.a[0]))
            t = q.a[1]
            continue
        v = fresh()
        m = {T("bv", q.a[0]): v}
        loops.append((v, unsorted(q.a[1])))
        brks.append(subst(q.a[3], m))
        t = subst(q.a[2], m)
    if t.op != "seq" or len(t.a) != 1 or t.a[0].op != "one" or not loops:
        ctx.undecide(w, ctx.loc(fn, ln), show(t)[:200])
        return
    el = t.a[0].a[0]
    cl = [(v, q) for v, q in loops if q is contests]
    ul = [(v, q) for v, q in loops if q is not contests]
    if len(cl) != 1 or len(ul) > 1:
        ctx.need(False, w, ctx.loc(fn, ln), "built from %s" % "; ".join(show(q)[:100] for v, q in loops), about=[q for v, q in loops] if not cl else [unk("loops")])
        return
    v = cl[0][0]
    ctx.need(el is v, w, ctx.loc(fn, ln), "adds %s" % show(el)[:200], about=[el])
    d = ncanon(E.get(CON, "getElectoralDistrictId", v))

    def units(q):
        return [z for _, z in cases(q) if not (z.op == "fld" and z.a[0] is NULL or z is NULL)]

    def style_units(q):
        us = units(q)
        if len(us) != 1:
            return False
        u = us[0]
        st = [p for p in subterms(u) if p.op == "app" and p.a[0] in ("pick", "first", "last", "find")]
        return bool(st) and picked(st[0], styles, y, c) and same(u, E.get("BallotStyle", "getGeopoliticalUnitIds", st[0])) is None
    if ul:
        u, q = ul[0]
        want = ncanon(T("eq", u, d))
        ok = style_units(q)
        extra = [z for z in conds if z is not want]
        bad = [b for b in brks if b is not FALSE and b is not want]
        if want in conds and brks[0] is not FALSE:
            bad.append(brks[0])
        ctx.need(ok, w + " (units)", ctx.loc(fn, ln), "units %s" % show(q)[:300], about=[q])
        ctx.need(want in conds and not extra and not bad, w, ctx.loc(fn, ln),
                 "when %s%s" % (show(conj(*conds))[:300], "" if not bad else "; stops when " + show(bad[0])[:200]), about=extra + bad)
        return
    # one loop over the contests with a membership condition
    good = [z for z in conds if z.op == "exists" and style_units(z.a[1]) and ncanon(T("eq", T("bv", z.a[0]), d)) is z.a[2]
            or z.op == "app" and z.a[0] == "contains" and style_units(z.a[1]) and z.a[2] is d]
    extra = [z for z in conds if z not in good]
    bad = [b for b in brks if b is not FALSE]
    ctx.need(bool(good) and not extra and not bad, w, ctx.loc(fn, ln), "when %s" % show(conj(*conds))[:300], about=extra + bad if good else conds)
