"""Integer polynomials over bounded atoms: the value domain of the big-number analysis (eg/bn.py).

An atom is a named quantity with a range: a parameter, a slice of the bytes of another value (part), its byte reversal (rev),
a residue (mod), a Montgomery image (mont) or something the analysis knows nothing about (unk)."""

_ATOMS = {}


class Atom:
    __slots__ = ("kind", "a", "lo", "hi", "n")

    def __repr__(self):
        if self.kind == "sym":
            return str(self.a[0])
        return "%s(%s)" % (self.kind, ",".join(hexs(y) if isinstance(y, int) and y > 1 << 32 else str(y) for y in self.a))

    def __lt__(self, o):
        return self.n < o.n


def atom(kind, a, lo, hi):
    k = (kind, a, lo, hi) if kind == "sym" else (kind, a)
    x = _ATOMS.get(k)
    if x is None:
        x = Atom()
        x.kind, x.a, x.lo, x.hi, x.n = kind, a, lo, hi, len(_ATOMS)
        _ATOMS[k] = x
    return x


class Poly:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __add__(self, o):
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            c += d.get(m, 0)
            if c:
                d[m] = c
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()}) if k else ZERO

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        a, b = self.const(), o.const()
        if a is not None:
            return o.scale(a)
        if b is not None:
            return self.scale(b)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                c = d.get(m, 0) + c1 * c2
                if c:
                    d[m] = c
                else:
                    d.pop(m, None)
        return Poly(d)

    def single(self):
        """The atom x when the value is just x."""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] is ONE_E:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for x, e in m:
                s.add(x)
                if isinstance(e, Poly):
                    s |= e.atoms()
        return s

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=lambda i: repr(i[0])):
            t = "*".join(repr(x) + ("" if e is ONE_E else "^(%r)" % e) for x, e in m)
            k = hexs(c)
            out.append(k if not t else t if c == 1 else k + "*" + t)
        return " + ".join(out)


def hexs(c):
    if abs(c) < 1 << 20:
        return str(c)
    for b in (64, 128, 256, 512, 4096):
        if c == 1 << b:
            return "2^%d" % b
    s = hex(c)
    return s if len(s) < 24 else s[:10] + ".." + s[-8:]


ONE_E = 1


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        if x in d:
            a = d[x]
            if isinstance(a, int) and isinstance(e, int):
                d[x] = a + e
            else:
                s = _p(a) + _p(e)
                k = s.const()
                d[x] = s if k is None else k
        else:
            d[x] = e
    return tuple(sorted(((x, e) for x, e in d.items() if not (isinstance(e, int) and e == 0)), key=lambda i: i[0].n))


def _p(x):
    return x if isinstance(x, Poly) else num(x)


_NUM = {}


def num(c):
    c = int(c)
    p = _NUM.get(c)
    if p is None:
        p = Poly({(): c} if c else {})
        if -2 < c < 5000:
            _NUM[c] = p
    return p


ZERO = num(0)
ONE = num(1)


def pa(x):
    return Poly({((x, ONE_E),): 1})


def sym(n, lo, hi):
    return pa(atom("sym", (n,), lo, hi))


_unk = [0]


def unk(why, lo=0, hi=(1 << 64) - 1):
    _unk[0] += 1
    return pa(atom("unk", (why, _unk[0]), lo, hi))


def known(p):
    return not any(x.kind == "unk" or x.kind in ("part", "rev", "mod", "mont") and not all(known(y) for y in x.a if isinstance(y, Poly)) for x in p.atoms())


def subst(p, f):
    """f: atom -> Poly or None, applied inside nested values too."""
    memo = {}

    def go(q):
        if q in memo:
            return memo[q]
        out = ZERO
        for m, c in q.d.items():
            t = num(c)
            for x, e in m:
                y = one(x)
                e2 = go(e) if isinstance(e, Poly) else e
                t = t * power(y, e2)
            out = out + t
        memo[q] = out
        return out

    def one(x):
        r = f(x)
        if r is not None:
            return r
        if x.kind == "sel":
            i = go(x.a[0])
            c = i.const()
            vs = x.a[2]
            if c is not None and 0 <= c - x.a[1] < len(vs):
                return go(vs[c - x.a[1]])
            return pa(x)
        if x.kind in ("part", "rev", "mod", "mont"):
            return REB[x.kind](*[go(y) if isinstance(y, Poly) else y for y in x.a])
        return pa(x)
    return go(p)


def power(b, e):
    if isinstance(e, Poly):
        k = e.const()
        if k is not None:
            e = k
    if isinstance(e, int):
        if e == 0:
            return ONE
        if e == 1:
            return b
        x = b.single()
        if x is not None:
            return Poly({((x, e),): 1})
        if len(b.d) == 1 and e > 4:
            (m, c), = b.d.items()
            if c == 1:
                return Poly({tuple((x, k * e if isinstance(k, int) else k.scale(e)) for x, k in m): 1})
        if b.const() is not None and e < 1024:
            return num(b.const() ** e)
        if e <= 4:
            r = b
            for _ in range(e - 1):
                r = r * b
            return r
        return pa(atom("unk", ("pow", b, e), 0, 1 << 4096))
    # symbolic exponent
    if len(b.d) == 1:
        (m, c), = b.d.items()
        if c == 1:
            return Poly({tuple((x, (e * _p(k))) for x, k in m): 1}) if m else ONE
    return Poly({((atom("sum", (b,), 0, 1 << 8192), e),): 1})


# ------------------------------------------------------------------ byte slices
def rawbounds(p):
    lo = hi = 0
    for m, c in p.d.items():
        l = h = 1
        for x, e in m:
            if not isinstance(e, int):
                l, h = 0, max(x.hi, 1) if False else 1 << 20000
                break
            l, h = l * x.lo ** e, h * (x.hi ** e if e < 64 else 1 << 20000)
        if c > 0:
            lo, hi = lo + c * l, hi + c * h
        else:
            lo, hi = lo + c * h, hi + c * l
    return lo, hi


def part(v, k, n):
    """Bytes k .. k+n-1 (from the least significant) of v."""
    c = v.const()
    if c is not None:
        return num((c >> (8 * k)) & ((1 << (8 * n)) - 1))
    lo, hi = rawbounds(v)
    if lo >= 0:
        if hi >> (8 * k) == 0:
            return ZERO
        if k == 0 and hi >> (8 * n) == 0:
            return v
    x = v.single()
    if x is not None:
        if x.kind == "part":
            if k >= x.a[2]:
                return ZERO
            return part(x.a[0], x.a[1] + k, min(n, x.a[2] - k))
        if x.kind == "rev":
            w = x.a[1]
            if k >= w:
                return ZERO
            n = min(n, w - k)
            return rev(part(x.a[0], w - k - n, n), n)
    # a composition  a + 2^(8j) b  with a < 2^(8j): slice the pieces
    ps = split(v)
    if ps and len(ps) > 1:
        out = ZERO
        for off, q in ps:
            h = rawbounds(q)[1]
            w = (h.bit_length() + 7) // 8
            a, b = max(off, k), min(off + w, k + n)
            if a < b:
                out = out + part(q, a - off, b - a).scale(1 << (8 * (a - k)))
        return out
    return pa(atom("part", (v, k, n), 0, (1 << (8 * n)) - 1))


def split(v):
    """v = sum 2^(8 off) * q with disjoint byte ranges, or None."""
    byc = {}
    for m, c in v.d.items():
        if c <= 0:
            return None
        if m == ():
            continue
        z = (c & -c).bit_length() - 1
        if c != 1 << z or z % 8:
            return None
        byc.setdefault(z // 8, []).append(m)
    k = v.d.get((), 0)
    out = []
    for off, ms in sorted(byc.items()):
        if len(ms) > 1:
            return None
        out.append((off, Poly({ms[0]: 1})))
    # constant bytes in the gaps
    ranges = []
    for off, q in out:
        lo, hi = rawbounds(q)
        ranges.append((off, off + (hi.bit_length() + 7) // 8))
    for a, b in zip(ranges, ranges[1:]):
        if a[1] > b[0]:
            return None
    if k:
        i = 0
        kk = k
        while kk:
            if kk & 255:
                for a, b in ranges:
                    if a <= i < b:
                        return None
                out.append((i, num(kk & 255)))
            kk >>= 8
            i += 1
    return sorted(out, key=lambda i: i[0])


def rev(v, n):
    """v, of n bytes, with its bytes in the opposite order."""
    c = v.const()
    if c is not None:
        return num(int.from_bytes((c & ((1 << (8 * n)) - 1)).to_bytes(n, "little"), "big"))
    if n == 1:
        return v
    x = v.single()
    if x is not None and x.kind == "rev":
        if x.a[1] == n:
            return x.a[0]
        if x.a[1] < n:      # upper bytes zero
            return x.a[0].scale(1 << (8 * (n - x.a[1])))
    h = rawbounds(v)[1]
    w = (h.bit_length() + 7) // 8
    if w < n:
        return rev(v, w).scale(1 << (8 * (n - w)))
    ps = split(v)
    if ps and len(ps) > 1:
        out = ZERO
        for off, q in ps:
            w = (rawbounds(q)[1].bit_length() + 7) // 8
            out = out + rev(q, w).scale(1 << (8 * (n - off - w)))
        return out
    return pa(atom("rev", (v, n), 0, (1 << (8 * n)) - 1))


def join(v):
    """Recombines adjacent slices of the same value."""
    parts = {}
    for m, c in v.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "part" and c > 0:
            x = m[0][0]
            z = (c & -c).bit_length() - 1
            if c == 1 << z:
                # key: value, offset difference
                parts.setdefault((x.a[0], z - 8 * x.a[1]), []).append((x.a[1], x.a[2], m, c))
    for (val, sh), ps in parts.items():
        ps.sort(key=lambda i: i[0])
        i = 0
        while i < len(ps):
            j = i
            end = ps[i][0] + ps[i][1]
            while j + 1 < len(ps) and ps[j + 1][0] == end:
                j += 1
                end = ps[j][0] + ps[j][1]
            if j > i:
                d = dict(v.d)
                for q in ps[i:j + 1]:
                    d.pop(q[2])
                new = part(val, ps[i][0], end - ps[i][0]).scale(ps[i][3])
                return join(Poly(d) + new)
            i = j + 1
    # reversed slices: rev(part(V,k,n),n) pieces in descending order make rev of the union
    revs = {}
    for m, c in v.d.items():
        if len(m) == 1 and m[0][1] == 1 and c > 0:
            x = m[0][0]
            z = (c & -c).bit_length() - 1
            if c != 1 << z or z % 8:
                continue
            if x.kind == "rev" and x.a[0].single() is not None and x.a[0].single().kind == "part":
                y = x.a[0].single()
                revs.setdefault(y.a[0], []).append((y.a[1], y.a[2], z // 8, m))
            elif x.kind == "part" and x.a[2] == 1:
                revs.setdefault(x.a[0], []).append((x.a[1], 1, z // 8, m))
    for val, ps in revs.items():
        ps.sort(key=lambda i: i[0])
        for i in range(len(ps)):
            j = i
            while j + 1 < len(ps) and ps[j + 1][0] == ps[j][0] + ps[j][1] and ps[j + 1][2] + ps[j + 1][1] == ps[j][2]:
                j += 1
            if j > i:
                d = dict(v.d)
                for q in ps[i:j + 1]:
                    d.pop(q[3])
                lo, n = ps[i][0], ps[j][0] + ps[j][1] - ps[i][0]
                return join(Poly(d) + rev(part(val, lo, n), n).scale(1 << (8 * ps[j][2])))
    return v


def mod(m, v):
    c = v.const()
    if c is not None:
        return num(c % m)
    lo, hi = rawbounds(v)
    if lo >= 0 and hi < m:
        return v
    return pa(atom("mod", (m, resid(v, m)), 0, m - 1))


def resid(v, m):
    """v modulo m: residues modulo m opened, coefficients reduced."""
    def f(x):
        if x.kind == "mod" and x.a[0] == m:
            return resid(x.a[1], m)
        return None
    out = ZERO
    for mo, c in v.d.items():
        t = num(c % m)
        for x, e in mo:
            y = f(x)
            t = t * power(y if y is not None else pa(x), e)
        out = out + t
    return Poly({k: c % m for k, c in out.d.items() if c % m})


def mont(m, v):
    v = resid(v, m)
    return pa(atom("mont", (m, v), 0, m - 1)) if v.d else ZERO


REB = {"part": part, "rev": rev, "mod": mod, "mont": mont}


def expand_bytes(p, names):
    """Every value in `names` (atoms) written as the sum of its bytes."""
    def f(x):
        if x in names:
            n = names[x]
            out = ZERO
            for i in range(n):
                out = out + pa(atom("part", (pa(x), i, 1), 0, 255)).scale(1 << (8 * i))
            return out
        if x.kind == "part" and x.a[0].single() in names and x.a[2] > 1:
            b, k, n = x.a
            w = names[b.single()]
            out = ZERO
            for i in range(k, min(k + n, w)):
                out = out + pa(atom("part", (b, i, 1), 0, 255)).scale(1 << (8 * (i - k)))
            return out
        if x.kind == "part" and x.a[0].single() in names:
            return pa(x)
        return None
    return subst(p, f)
