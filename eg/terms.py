"""Hash-consed Herbrand terms with light normalisation.

T(op, *args): args are T or python scalars.  Equality is identity.
"""
_tab = {}


class T:
    __slots__ = ("op", "a", "h", "id", "_fe")
    _n = 0

    def __new__(cls, op, *a):
        key = (op,) + tuple((x.id if isinstance(x, T) else ("#", type(x).__name__, x)) for x in a)
        t = _tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            T._n += 1
            t.id = T._n
            t._fe = None
            h = 0
            for x in a:
                if isinstance(x, T) and x.h > h:
                    h = x.h
            if op == "bv":
                h = max(h, a[0])
            t.h = h     # highest bound-variable index inside
            _tab[key] = t
        return t

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


def sym(n):
    return T("sym", n)


def num(v):
    return T("int", int(v))


def string(s):
    return T("str", s)


NULL = T("null")
TRUE = T("b", True)
FALSE = T("b", False)
_unk = [0]


def unk(why=""):
    _unk[0] += 1
    return T("unk", why, _unk[0])


def app(f, *a):
    return T("app", f, *a)


def boolean(v):
    return TRUE if v else FALSE


def is_bool(t):
    return t is TRUE or t is FALSE


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "and":
        return disj(*[neg(x) for x in c.a])
    if c.op == "or":
        return conj(*[neg(x) for x in c.a])
    if c.op == "ite":
        return ite(c.a[0], neg(c.a[1]), neg(c.a[2]))
    return T("not", c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.a)
        else:
            out.append(c)
    return out


def conj(*cs):
    seen = []
    s = set()
    for c in _flat("and", cs):
        if c is TRUE or c in s:
            continue
        if c is FALSE or neg1(c) in s:
            return FALSE
        s.add(c)
        seen.append(c)
    # absorb: (a or b) and not a -> b and not a
    changed = True
    while changed:
        changed = False
        for i, c in enumerate(seen):
            if c.op == "or":
                keep = []
                sat = False
                for d in c.a:
                    if d in s and d is not c:
                        sat = True
                    if neg1(d) in s:
                        continue
                    keep.append(d)
                if sat:
                    seen.pop(i)
                    s.discard(c)
                    changed = True
                    break
                if len(keep) != len(c.a):
                    n = disj(*keep)
                    seen.pop(i)
                    s.discard(c)
                    for x in _flat("and", [n]):
                        if x is FALSE or neg1(x) in s:
                            return FALSE
                        if x is not TRUE and x not in s:
                            s.add(x)
                            seen.append(x)
                    changed = True
                    break
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    seen.sort(key=lambda t: t.id)
    return T("and", *seen)


def disj(*cs):
    seen = []
    s = set()
    for c in _flat("or", cs):
        if c is FALSE or c in s:
            continue
        if c is TRUE or neg1(c) in s:
            return TRUE
        s.add(c)
        seen.append(c)
    changed = True
    while changed:
        changed = False
        for i, c in enumerate(seen):
            if c.op == "and":
                keep = []
                sub = False
                for d in c.a:
                    if d in s and d is not c:
                        sub = True
                    if neg1(d) in s:
                        continue
                    keep.append(d)
                if sub:
                    seen.pop(i)
                    s.discard(c)
                    changed = True
                    break
                if len(keep) != len(c.a):
                    n = conj(*keep)
                    seen.pop(i)
                    s.discard(c)
                    for x in _flat("or", [n]):
                        if x is TRUE or neg1(x) in s:
                            return TRUE
                        if x is not FALSE and x not in s:
                            s.add(x)
                            seen.append(x)
                    changed = True
                    break
    # (A and x) or (A and not x) -> A
    if 2 <= len(seen) <= 12:
        for i in range(len(seen)):
            for j in range(i + 1, len(seen)):
                A = set(conjuncts(seen[i]))
                B = set(conjuncts(seen[j]))
                d1 = A - B
                d2 = B - A
                if len(d1) == 1 and len(d2) == 1 and neg1(next(iter(d1))) is next(iter(d2)):
                    rest = [x for k, x in enumerate(seen) if k not in (i, j)]
                    return disj(conj(*(A & B)), *rest)
    if not seen:
        return FALSE
    if len(seen) == 1:
        return seen[0]
    seen.sort(key=lambda t: t.id)
    return T("or", *seen)


def neg1(c):
    """Negation without rewriting into and/or (for complement lookup)."""
    if c.op == "not":
        return c.a[0]
    if c.op in ("and", "or"):
        return neg(c)
    return T("not", c)


def conjuncts(c):
    if c is TRUE:
        return ()
    return c.a if c.op == "and" else (c,)


BOOLAPPS = {"empty", "contains", "jis_null", "upto"}     # functions returning bool
BOOLFLDS = set()                                 # fields of type bool


def found(v):
    """An element of a collection (looked up under the condition that there is one)."""
    return v.op == "app" and v.a[0] in ("first", "last", "pick") and len(v.a) == 5 and v.a[4].op == "bv"


def isboolean(t):
    return t.op in ("b", "not", "and", "or", "eq", "lt", "nonnull", "exists", "exc", "geq1", "q0") \
        or t.op == "app" and t.a[0] in BOOLAPPS or t.op == "fld" and t.a[1] in BOOLFLDS


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if c.op == "nonnull" and b is NULL and a is c.a[0]:
        return a
    if a is FALSE and b is TRUE:
        return neg(c)
    if a is FALSE and isboolean(b):
        return conj(neg(c), b)
    if a is TRUE and isboolean(b):
        return disj(c, b)
    if b is FALSE and isboolean(a):
        return conj(c, a)
    if b is TRUE and isboolean(a):
        return disj(neg(c), a)
    if isboolean(a) and isboolean(b):
        return disj(conj(c, a), conj(neg(c), b))
    if a.op == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if b.op == "ite" and b.a[1] is a:
        return ite(disj(c, b.a[0]), a, b.a[2])
    if a.op == "ite" and a.a[2] is b:
        return ite(conj(c, a.a[0]), a.a[1], b)
    if a.op == "ite" and a.a[1] is b:
        return ite(conj(c, neg(a.a[0])), a.a[2], b)
    if a.op == "seq" or b.op == "seq":
        r = _seq_ite(c, a, b)
        if r is not None:
            return r
    return T("ite", c, a, b)


# ------------------------------------------------------------------ sequences
# seq(p1, p2, ...): pieces: one(t) | each(h, coll, pieces-as-seq, brk) | when(c, seq) | splice(t) | kv(k, v)

EMPTY = T("seq")


def pieces(t):
    if t.op == "seq":
        return t.a
    return (T("splice", t),)


def mkseq(ps):
    out = []
    for p in ps:
        if p.op == "splice" and p.a[0].op == "seq":
            out.extend(p.a[0].a)
        elif p.op == "when" and p.a[0] is FALSE:
            continue
        elif p.op == "when" and p.a[0] is TRUE:
            out.extend(p.a[1].a)
        elif p.op == "when" and not p.a[1].a:
            continue
        elif p.op == "each" and not p.a[2].a:
            continue
        else:
            out.append(p)
    if len(out) == 1 and out[0].op == "splice":
        return out[0].a[0]
    # kv pieces: later write to the same key wins
    if any(p.op == "kv" for p in out):
        seen = set()
        res = []
        for p in reversed(out):
            if p.op == "kv":
                if p.a[0] in seen and p.a[0].op == "str":
                    continue
                seen.add(p.a[0])
            res.append(p)
        res.reverse()
        if all(p.op == "kv" and p.a[0].op == "str" for p in res):
            res.sort(key=lambda p: p.a[0].a[0])
        out = res
    return T("seq", *out)


def append(s, *ps):
    return mkseq(list(pieces(s)) + list(ps))


def _seq_ite(c, a, b):
    pa, pb = list(pieces(a)), list(pieces(b))
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    if i == 0 and pa and pb and (a.op != "seq" or b.op != "seq"):
        return None
    res = pa[:i]
    ra, rb = pa[i:], pb[i:]
    j = 0
    while j < len(ra) and j < len(rb) and ra[-1 - j] is rb[-1 - j]:
        j += 1
    tail = ra[len(ra) - j:] if j else []
    ra = ra[:len(ra) - j] if j else ra
    rb = rb[:len(rb) - j] if j else rb
    # pairwise merge of single elements
    if len(ra) == 1 and len(rb) == 1 and ra[0].op == "one" and rb[0].op == "one":
        return mkseq(res + [T("one", ite(c, ra[0].a[0], rb[0].a[0]))] + tail)
    if ra:
        res.append(T("when", c, T("seq", *ra)))
    if rb:
        res.append(T("when", neg(c), T("seq", *rb)))
    return mkseq(res + tail)


# ------------------------------------------------------------------ traversal

def subst(t, m, memo=None):
    """Replace terms by identity map m (T -> T), rebuilding with normalisation."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, memo)
            ch = ch or (y is not x)
            na.append(y)
        else:
            na.append(x)
    r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


_rebuilders = {}


def rebuild(op, na):
    if op == "not":
        return neg(na[0])
    if op == "and":
        return conj(*na)
    if op == "or":
        return disj(*na)
    if op == "ite":
        return ite(*na)
    if op == "seq":
        return mkseq(na)
    f = _rebuilders.get(op)
    if f:
        return f(*na)
    return T(op, *na)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def has(t, u):
    for x in subterms(t):
        if x is u:
            return True
    return False


def free_elems(t):
    r = t._fe
    if r is None:
        if t.op in ("elem", "lv"):
            r = frozenset([t])
            for x in t.a:
                if isinstance(x, T):
                    r = r | free_elems(x)
        else:
            r = frozenset()
            for x in t.a:
                if isinstance(x, T):
                    f = free_elems(x)
                    if f:
                        r = r | f
        t._fe = r
    return r


def bind(elem, *ts):
    """Close a binder over elem in terms ts: returns (bv index, new terms)."""
    h = 0
    for t in ts:
        if t.h > h:
            h = t.h
    h += 1
    m = {elem: T("bv", h)}
    memo = {}
    return h, [subst(t, m, memo) for t in ts]


def exists(elem, coll, c):
    """Some element of coll satisfies c(elem)."""
    if c is FALSE:
        return FALSE
    if elem not in free_elems(c):
        if c is TRUE:
            return neg(T("app", "empty", coll))
        return conj(neg(T("app", "empty", coll)), c)
    # pull loop-invariant conjuncts out
    if c.op == "and":
        inv = [x for x in c.a if elem not in free_elems(x)]
        if inv:
            dep = [x for x in c.a if elem in free_elems(x)]
            return conj(*(inv + [exists(elem, coll, conj(*dep))]))
    if c.op == "or":
        return disj(*[exists(elem, coll, x) for x in c.a])
    h, (c2,) = bind(elem, c)
    return T("exists", h, coll, c2)


def forall(elem, coll, c):
    return neg(exists(elem, coll, neg(c)))


# ------------------------------------------------------------------ printing

def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 60:
        return "..."
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "sym":
        return a[0]
    if o == "int":
        return str(a[0])
    if o == "b":
        return "true" if a[0] else "false"
    if o == "str":
        return '"%s"' % a[0]
    if o == "null":
        return "null"
    if o == "fld":
        return "%s.%s" % (s(a[0]), a[1].split("::")[-1] if isinstance(a[1], str) else s(a[1]))
    if o == "app":
        return "%s(%s)" % (a[0].replace("electionguard::", ""), ", ".join(s(x) for x in a[1:]))
    if o == "not":
        return "!" + s(a[0])
    if o == "and":
        return "(" + " && ".join(s(x) for x in a) + ")"
    if o == "or":
        return "(" + " || ".join(s(x) for x in a) + ")"
    if o == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "lt":
        return "(%s < %s)" % (s(a[0]), s(a[1]))
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "elem":
        return "elem#%s" % a[0]
    if o == "bv":
        return "$%d" % a[0]
    if o == "exists":
        return "exists $%d in %s: %s" % (a[0], s(a[1]), s(a[2]))
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "one":
        return s(a[0])
    if o == "kv":
        return "%s: %s" % (s(a[0]), s(a[1]))
    if o == "when":
        return "when %s: %s" % (s(a[0]), s(a[1]))
    if o == "each":
        return "for $%d in %s%s: %s" % (a[0], s(a[1]), (" until " + s(a[3])) if len(a) > 3 and a[3] is not FALSE else "", s(a[2]))
    if o == "splice":
        return "..." + s(a[0])
    if o == "new":
        return "%s{%s}" % (a[0].split("::")[-1], ", ".join("%s=%s" % (a[i].split("::")[-1], s(a[i + 1])) for i in range(1, len(a), 2)))
    if o == "unk":
        return "?%s" % (a[0],)
    if o == "nonnull":
        return "nonnull(%s)" % s(a[0])
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))


# ------------------------------------------------------------- boolean equivalence

def atoms(c, out=None):
    if out is None:
        out = []
    if c.op in ("and", "or", "not"):
        for x in c.a:
            atoms(x, out)
    elif c.op == "ite" and not is_bool(c):
        for x in c.a:
            atoms(x, out)
    elif not is_bool(c) and c not in out:
        out.append(c)
    return out


def evalb(c, env):
    o = c.op
    if o == "b":
        return c.a[0]
    if o == "not":
        return not evalb(c.a[0], env)
    if o == "and":
        return all(evalb(x, env) for x in c.a)
    if o == "or":
        return any(evalb(x, env) for x in c.a)
    if o == "ite" and c not in env:
        return evalb(c.a[1], env) if evalb(c.a[0], env) else evalb(c.a[2], env)
    return env[c]


def implies(a, b, limit=18):
    """a => b propositionally (atoms uninterpreted). None when undecided."""
    if b is TRUE or a is FALSE or a is b:
        return True
    if all(x in conjuncts(a) for x in conjuncts(b)):
        return True
    # only the conjuncts of a that share atoms (transitively) with b matter
    ats = set(atoms(a if b is FALSE else b))
    cs = list(conjuncts(a))
    use = []
    ch = True
    while ch:
        ch = False
        for c in list(cs):
            ca = set(atoms(c))
            if ca & ats:
                use.append(c)
                cs.remove(c)
                ats |= ca
                ch = True
    al = list(ats)
    if len(al) > limit:
        return None
    for m in range(1 << len(al)):
        env = {x: bool(m >> i & 1) for i, x in enumerate(al)}
        if all(evalb(c, env) for c in use) and not evalb(b, env):
            return False
    return True


def equivalent(a, b):
    if a is b:
        return True
    return implies(a, b) and implies(b, a)
