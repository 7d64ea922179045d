"""Values of extracted terms in small abstract models.

A condition read out of the source (a term over fields and lists of fields) is compared with the condition a rule asks for
by giving both a value in small models: records whose fields are texts, numbers and short lists.  A model in which they
differ is a counterexample; where a term has a part whose value is not known, there is no answer (Unknown).
"""
import functools
import random

from .terms import T, FALSE, subterms

M64 = (1 << 64) - 1


class Unknown(Exception):
    pass


class Rec:
    """A record of a model; identity is its own."""

    def __init__(self, cls, **f):
        self.cls = cls
        self.f = f

    def __repr__(self):
        return "{" + ", ".join("%s: %r" % (k, v) for k, v in self.f.items() if not k.startswith("_")) + "}"


def default(cls, name, rnd):
    raise Unknown("field " + name)


class Model:
    def __init__(self, env, lvinfo=None):
        self.env = env          # T -> value
        self.lvinfo = lvinfo or {}

    def turns(self, coll, h, bv, *body):
        """The iterations of a loop, its loop-carried variables kept in step."""
        lvs, todo = {}, list(body)
        while todo:
            for q in subterms(todo.pop()):
                if q.op == "lv" and q not in lvs and q not in self.env:
                    i = self.lvinfo.get(q)
                    if i is None or i[2] is not coll or i[3] is not FALSE:
                        raise Unknown("lv")
                    lvs[q] = i[:2]
                    todo.append(i[1])
        if not lvs:
            for x in self.items(coll, bv):
                yield {**bv, h: x}
            return
        if len({q.a[0] for q in lvs}) != 1:
            raise Unknown("lv of two loops")
        now = {q: self(i[0], bv) for q, i in lvs.items()}
        els = {q for i in lvs.values() for q in subterms(i[1]) if q.op == "elem" and q.a[0] == list(lvs)[0].a[0]}
        try:
            for x in self.items(coll, bv):
                self.env.update(now)
                yield {**bv, h: x}
                for e in els:
                    self.env[e] = x
                self.env.update(now)
                nxt = {q: self(i[1], bv) for q, i in lvs.items()}
                for e in els:
                    del self.env[e]
                now = nxt
        finally:
            for q in list(lvs) + list(els):
                self.env.pop(q, None)

    def get(self, b, name):
        n = name.split("::")[-1]
        if n == "pimpl":
            return b
        if isinstance(b, tuple) and n in ("first", "second") and len(b) == 2:
            return b[n == "second"]
        if not isinstance(b, Rec) or n not in b.f:
            raise Unknown("field " + n)
        return b.f[n]

    def __call__(self, t, bv=None):
        bv = bv or {}
        ev = lambda x: self(x, bv)
        o, a = t.op, t.a
        if t in self.env:
            return self.env[t]
        if o == "bv":
            if a[0] not in bv:
                raise Unknown("bv")
            return bv[a[0]]
        if o in ("int", "str", "b"):
            return a[0]
        if o == "null":
            return None
        if o == "fld":
            return self.get(ev(a[0]), a[1])
        if o == "not":
            return not ev(a[0])
        if o == "and":
            return self.fold(a, bv, False)
        if o == "or":
            return self.fold(a, bv, True)
        if o == "eq":
            return self.same(ev(a[0]), ev(a[1]))
        if o == "lt":
            x, y = ev(a[0]), ev(a[1])
            if type(x) is not type(y) or isinstance(x, (Rec, list)) or x is None:
                raise Unknown("lt")
            return x < y
        if o == "ite":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if o == "nonnull":
            return ev(a[0]) is not None
        if o == "exists":
            return any([bool(self(a[2], e)) for e in self.turns(a[1], a[0], bv, a[2])])
        if o == "seq" or o == "each":
            return self.seq(t, bv)
        if o == "new":
            return Rec(a[0], **{a[i].split("::")[-1]: ev(a[i + 1]) for i in range(1, len(a), 2)})
        if o == "app":
            return self.app(t, bv)
        raise Unknown(o)

    def fold(self, xs, bv, stop):
        late = None
        for x in xs:
            try:
                if bool(self(x, bv)) == stop:
                    return stop
            except Unknown as e:
                late = e
        if late:
            raise late
        return not stop

    def same(self, x, y):
        if isinstance(x, Rec) or isinstance(y, Rec):
            if x is None or y is None:
                return False
            if isinstance(x, Rec) and isinstance(y, Rec):
                if x is y:
                    return True
                raise Unknown("record ==")
            raise Unknown("==")
        if type(x) is not type(y) and not (isinstance(x, int) and isinstance(y, int)):
            if x is None or y is None:
                return x is y
            raise Unknown("== of different kinds")
        return x == y

    def items(self, coll, bv):
        if coll.op == "app" and coll.a[0] == "range":
            return list(range(self.count(coll.a[1], bv)))
        if coll.op == "app" and coll.a[0] == "range2":
            return list(range(self.count(coll.a[1], bv), self.count(coll.a[2], bv)))
        v = self(coll, bv)
        if not isinstance(v, list):
            raise Unknown("items")
        return v

    def count(self, t, bv):
        v = self(t, bv)
        if not isinstance(v, int) or v > 64:
            raise Unknown("count")
        return v

    def seq(self, t, bv):
        out = []
        if t.op == "each":
            h, coll, body, brk = t.a
            for b in self.turns(coll, h, bv, body, brk):
                if body.op in ("seq", "each"):
                    out += self.seq(body, b)
                else:
                    out.append(self(body, b))
                if self(brk, b):
                    break
            return out
        for p in t.a:
            if p.op == "one":
                out.append(self(p.a[0], bv))
            elif p.op == "splice":
                v = self(p.a[0], bv)
                if not isinstance(v, list):
                    raise Unknown("splice")
                out += v
            elif p.op == "when":
                if self(p.a[0], bv):
                    out += self.seq(p.a[1], bv)
            elif p.op == "each":
                out += self.seq(p, bv)
            elif p.op == "kv":
                out.append((self(p.a[0], bv), self(p.a[1], bv)))
            else:
                raise Unknown(p.op)
        return out

    def app(self, t, bv):
        f, a = t.a[0], t.a[1:]
        ev = lambda x: self(x, bv)
        f = f.replace("electionguard::", "")
        if f in ("size", "length"):
            v = ev(a[0])
            if not isinstance(v, (list, str)):
                raise Unknown("size")
            return len(v)
        if f == "empty":
            v = ev(a[0])
            if not isinstance(v, (list, str)):
                raise Unknown("empty")
            return not v
        if f == "distinct":
            return len({self.key(x) for x in self.items(a[0], bv)})
        if f in ("contains", "count"):
            v, k = self.items(a[0], bv), ev(a[1])
            n = self.key(k) in {self.key(x) for x in v}
            return n if f == "contains" else int(n)
        if f in ("loop", "latest"):
            h, coll, v0, b, brk = a
            acc = ev(v0)
            for e in self.turns(coll, h.a[0], bv, b, brk):
                e[h.a[0] + 1] = acc
                stop = self(brk, e)
                acc = self(b, e)
                if stop:
                    break
            return acc
        if f == "fold" and a[0] == "+" and len(a) == 3:
            vs = [ev(a[1])] + self.seq(a[2], bv)
            if not all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
                raise Unknown("fold")
            return sum(vs) & M64
        if f in ("last", "first", "pick"):
            if len(a) != 4:
                raise Unknown(f)
            h, coll, c, v = a
            r = [self(v, e) for e in self.turns(coll, h.a[0], bv, c, v) if self(c, e)]
            if not r:
                raise Unknown("no such element")
            return r[-1 if f == "last" else 0]
        if f in ("upto", "reached"):
            h, coll, brk, c = a
            for e in self.turns(coll, h.a[0], bv, brk, c):
                if self(c, e):
                    return True
                if self(brk, e):
                    return False
            return False
        if f == "concat":
            vs = [ev(x) for x in a]
            if not all(isinstance(v, str) for v in vs):
                raise Unknown("concat")
            return "".join(vs)
        if f in ("to_string", "std::to_string") and len(a) == 1:
            v = ev(a[0])
            if isinstance(v, bool) or not isinstance(v, int):
                raise Unknown(f)
            return str(v)
        if f in ("+", "-", "*", "%", "/"):
            vs = [ev(x) for x in a]
            if not all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
                raise Unknown(f)
            r = vs[0]
            for v in vs[1:]:
                if f in "%/" and v == 0:
                    raise Unknown("zero")
                r = r + v if f == "+" else r - v if f == "-" else r * v if f == "*" else r % v if f == "%" else r // v
            if r < 0:
                raise Unknown("wraps")
            return r & M64
        if f in ("min", "std::min", "max", "std::max") and len(a) == 2:
            return (min if "min" in f else max)(ev(a[0]), ev(a[1]))
        if f.startswith("trunc") or f in ("uint64_to_size", "move", "std::move"):
            return ev(a[0])
        if f == "reversed":
            return self.items(a[0], bv)[::-1]
        if f == "sorted":
            v = list(self.items(a[0], bv))
            k = a[1]
            x, y = T("sym", "$x"), T("sym", "$y")

            def less(p, q):
                old = {z: self.env.get(z) for z in (x, y)}
                self.env[x], self.env[y] = p, q
                try:
                    return bool(self(k, bv))
                finally:
                    for z, w in old.items():
                        if w is None:
                            self.env.pop(z, None)
                        else:
                            self.env[z] = w
            if k.op == "str":
                return sorted(v)
            return sorted(v, key=functools.cmp_to_key(lambda p, q: -1 if less(p, q) else 1 if less(q, p) else 0))
        if f in ("idx", "at"):
            v, i = ev(a[0]), ev(a[1])
            if isinstance(v, list) and isinstance(i, int) and 0 <= i < len(v):
                return v[i]
            raise Unknown("idx")
        if f == "front" or f == "back":
            v = ev(a[0])
            if isinstance(v, list) and v:
                return v[0 if f == "front" else -1]
        raise Unknown(f)

    def key(self, x):
        if isinstance(x, Rec):
            return id(x)
        if isinstance(x, list):
            raise Unknown("list in a set")
        return x


def counterexample(models, a, s):
    """(model, reason) with a true and s false; (None, True) if there is none among the models; (None, False) without an answer."""
    for m in models:
        try:
            if m(a) and not m(s):
                return m, True
        except Unknown as e:
            return None, False
        except RecursionError:
            return None, False
    return None, True


# ---------------------------------------------------------------- models of manifests
def contest(rnd, ids, units, n=0):
    k = rnd.choice((0, 1, 2, 2, 3))
    sels = []
    cands = rnd.sample(ids, min(k, len(ids))) if ids else []
    for i in range(len(cands)):
        sels.append(Rec("SelectionDescription", object_id="s%d%d" % (n, i), candidateId=cands[i], sequenceOrder=i + rnd.choice((0, 0, 4))))
    so = set()
    for s in sels:
        while s.f["sequenceOrder"] in so:
            s.f["sequenceOrder"] += 1
        so.add(s.f["sequenceOrder"])
    rnd.shuffle(sels)
    ne = rnd.randint(0, len(sels))
    return Rec("ContestDescription", object_id="k%d" % n, electoralDistrictId=rnd.choice(units) if units else "u", sequenceOrder=n + 1, voteVariation=rnd.randint(0, 3),
               numberElected=ne, votesAllowed=rnd.choice((0, ne, ne + 1)), name=rnd.choice(("", "n")), ballotTitle=None, ballotSubtitle=None,
               selections=sels, primaryPartyIds=[])


def twist(rnd, rec, depth=0):
    """Change one field somewhere."""
    rs = []

    def walk(r):
        rs.append(r)
        for v in r.f.values():
            for x in v if isinstance(v, list) else (v,):
                if isinstance(x, Rec):
                    walk(x)
    walk(rec)
    r = rnd.choice(rs)
    k = rnd.choice(sorted(r.f))
    peers = [q.f[k] for q in rs if q.cls == r.cls and k in q.f and q is not r]
    v = r.f[k]
    if isinstance(v, bool):
        r.f[k] = not v
    elif isinstance(v, int):
        r.f[k] = rnd.choice(peers + [0, 1, v + 1, max(v - 1, 0), len(r.f.get("selections", [])) + 1])
    elif isinstance(v, str):
        r.f[k] = rnd.choice(peers + ["", "z", v + "x"])
    elif isinstance(v, list):
        if v and rnd.random() < .7:
            i = rnd.randrange(len(v))
            if rnd.random() < .5:
                v.pop(i)
            elif isinstance(v[i], str):
                v[i] = rnd.choice(("", "z", v[0]))
            else:
                v.append(Rec(v[i].cls, **{a: list(b) if isinstance(b, list) else b for a, b in v[i].f.items()}))
        elif not v and k in ("geopoliticalUnitIds", "partyIds", "primaryPartyIds"):
            v.append(rnd.choice(("", "z")))


def contests(sym, lvinfo=None, n=600, seed=1):
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        c = contest(rnd, ["c1", "c2", "c3", "c4"], ["u1", "u2"])
        for _ in range(rnd.choice((0, 0, 1, 1, 1, 2))):
            twist(rnd, c)
        out.append(Model({sym: c}, lvinfo))
    return out


def manifest(rnd):
    units = ["u%d" % i for i in range(rnd.randint(1, 3))]
    parties = ["p%d" % i for i in range(rnd.randint(0, 2))]
    cands = ["c%d" % i for i in range(rnd.randint(0, 3))]
    R = Rec
    return R("Manifest", electionScopeId=rnd.choice(("", "e")), type=rnd.randint(0, 3), startDate=rnd.randint(0, 2), endDate=rnd.randint(0, 2),
             geopoliticalUnits=[R("GeopoliticalUnit", object_id=u, name="n", type=1, contactInformation=None) for u in units],
             parties=[R("Party", object_id=p, name=None, abbreviation="", color="", logoUri="") for p in parties],
             candidates=[R("Candidate", object_id=c, name=None, partyId=rnd.choice([""] + parties), imageUri="", isWriteIn=rnd.random() < .2) for c in cands],
             contests=[contest(rnd, cands, units, i) for i in range(rnd.randint(0, 3))],
             ballotStyles=[R("BallotStyle", object_id="b%d" % i, geopoliticalUnitIds=rnd.sample(units, rnd.randint(1, len(units))), partyIds=[], imageUri="")
                           for i in range(rnd.randint(0, 2))],
             name=None, contactInformation=None)


def manifests(sym, lvinfo=None, n=2500, seed=1):
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        m = manifest(rnd)
        for _ in range(rnd.choice((0, 0, 1, 1, 1, 2))):
            part = [c for c in m.f["contests"] if c.f["selections"]]
            twist(rnd, rnd.choice(part) if part and rnd.random() < .5 else m)
        out.append(Model({sym: m}, lvinfo))
    return out
