"""Abstract interpretation of fixed-size number and byte code over integer polynomials.

Memory is a set of regions (arrays of bytes holding slices of polynomial values, or objects); control over known integers is
followed exactly, a comparison the ranges cannot decide splits the state and adds the range it implies, and states that agree
again (or agree once the split value is put in) are merged. Nothing is executed: HACL* primitives are the vocabulary.
"""
import bisect
import re
import time

from .poly import *
from .prog import AnalysisBroken, strip_targs

WID = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
       "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "wchar_t": 4}
SIGNED = {"char", "signed char", "short", "int", "long", "long long"}


def cv(t):
    t = t.replace("volatile ", "")
    while t.startswith("const "):
        t = t[6:]
    t = t.strip()
    while t.endswith(" const") or t.endswith("*const"):
        t = t[:-5].strip()
    return t


def isref(t):
    return t.endswith("&") or "(&)" in t or "(&&)" in t


def unref(t):
    return t.replace(" (&)", "").replace(" (&&)", "").rstrip("& ")


def targ(t):
    """Template arguments of a type."""
    i = t.index("<")
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


class Types:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def elem(self, t):
        """(element type, count) of an array type, or None."""
        t = cv(t)
        if t.endswith("]") and not t.startswith("std::"):
            i = t.index("[")
            j = t.index("]", i)
            n = t[i + 1:j]
            base = (t[:i].strip() + t[j + 1:])
            return base, int(n) if n.isdigit() else None
        if t.startswith("std::array<") and t.endswith(">"):
            a = targ(t)
            n = a[1].rstrip("UL")
            return a[0], int(n) if n.isdigit() else None
        if t.endswith("]") and t.startswith("std::array<"):
            m = re.match(r"(.*)\[(\d+)\]$", t)
            if m:
                return m.group(1).strip(), int(m.group(2))
        return None

    def width(self, t):
        """Bytes of a type made of integers only, or None."""
        t = cv(t)
        if t in self.memo:
            return self.memo[t]
        r = WID.get(t)
        if r is None and t in self.p.enums:
            r = WID.get(cv(self.p.enums[t].get("ut", "unsigned int") or "unsigned int"), 4)
        if r is None:
            e = self.elem(t)
            if e and e[1] is not None:
                w = self.width(e[0])
                r = w * e[1] if w else None
        self.memo[t] = r
        return r


class Ptr:
    __slots__ = ("rid", "off")

    def __init__(self, rid, off=ZERO):
        self.rid = rid
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.rid == o.rid and self.off == o.off

    def __hash__(self):
        return hash((self.rid, self.off))

    def __repr__(self):
        return "&%s+%r" % (self.rid, self.off)


NULLP = Ptr(None)


class Unk:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "unk(%s)" % self.why


class Str:
    """A text given by the bytes it was made from: kind, value, number of bytes."""
    def __init__(self, kind, v=None, n=None):
        self.kind, self.v, self.n = kind, v, n

    def key(self):
        return (self.kind, self.v, self.n)

    def __eq__(self, o):
        return isinstance(o, Str) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s[%r:%s]" % (self.kind, self.v, self.n)


class Bytes:
    __slots__ = ("size", "offs", "segs", "owner", "zero")

    def __init__(self, size, zero=True):
        self.size = size
        self.offs = []
        self.segs = {}
        self.owner = None
        self.zero = zero        # unwritten bytes are zero (else indeterminate)

    def copy(self):
        b = Bytes(self.size, self.zero)
        b.offs = list(self.offs)
        b.segs = dict(self.segs)
        return b

    def same(self, o):
        return isinstance(o, Bytes) and self.size == o.size and self.segs == o.segs and self.zero == o.zero

    def overlap(self, off, n):
        i = bisect.bisect_right(self.offs, off) - 1
        out = []
        if i >= 0 and self.offs[i] + self.segs[self.offs[i]][0] > off:
            out.append(self.offs[i])
        i += 1
        while i < len(self.offs) and self.offs[i] < off + n:
            out.append(self.offs[i])
            i += 1
        return out

    def read(self, off, n):
        s = self.segs.get(off)
        if s is not None and s[0] == n:
            return s[1]
        v = ZERO
        cov = 0
        for o in self.overlap(off, n):
            w, x = self.segs[o]
            a, b = max(o, off), min(o + w, off + n)
            cov += b - a
            piece = x if a == o and b == o + w else part(x, a - o, b - a)
            v = v + piece.scale(1 << (8 * (a - off)))
        if cov < n and not self.zero:
            return unk("indeterminate", 0, (1 << (8 * n)) - 1)
        return join(v)

    def write(self, off, n, v):
        s = self.segs.get(off)
        if s is not None and s[0] == n:
            self.segs[off] = (n, v)
            return
        for o in self.overlap(off, n):
            w, x = self.segs.pop(o)
            self.offs.remove(o)
            if o < off:
                self._put(o, off - o, part(x, 0, off - o))
            if o + w > off + n:
                self._put(off + n, o + w - off - n, part(x, off + n - o, o + w - off - n))
        self._put(off, n, v)

    def _put(self, o, w, v):
        bisect.insort(self.offs, o)
        self.segs[o] = (w, v)


class Val:
    __slots__ = ("v", "owner")

    def __init__(self, v):
        self.v = v
        self.owner = None

    def copy(self):
        return Val(self.v)

    def same(self, o):
        return isinstance(o, Val) and (self.v is o.v or self.v == o.v)


class Obj:
    __slots__ = ("cls", "f", "owner")

    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.owner = None

    def copy(self):
        o = Obj(self.cls)
        o.f = dict(self.f)
        return o

    def same(self, o):
        return isinstance(o, Obj) and self.cls == o.cls and self.f == o.f


class Vec:
    """std::vector: integers in a byte region (data), others in a list."""
    __slots__ = ("et", "w", "data", "n", "items", "owner")

    def __init__(self, et, w):
        self.et, self.w, self.data, self.n, self.items, self.owner = et, w, None, 0, [], None

    def copy(self):
        v = Vec(self.et, self.w)
        v.data, v.n, v.items = self.data, self.n, list(self.items)
        return v

    def same(self, o):
        return isinstance(o, Vec) and (self.et, self.w, self.data, self.n, self.items) == (o.et, o.w, o.data, o.n, o.items)


class St:
    def __init__(self):
        self.mem = {}
        self.vars = {}
        self.cons = []
        self.dis = []           # each entry: alternatives (constraints, nested alternatives), one of which holds
        self.vague = False      # a branch on something unknown was taken
        self.next = 1
        self.tok = object()

    def fork(self):
        s = St()
        s.mem = dict(self.mem)
        s.vars = dict(self.vars)
        s.cons = list(self.cons)
        s.dis = list(self.dis)
        s.vague = self.vague
        s.next = self.next
        self.tok = object()
        return s

    def new(self, r):
        i = self.next
        self.next += 1
        r.owner = self.tok
        self.mem[i] = r
        return i

    def w(self, rid):
        r = self.mem[rid]
        if r.owner is not self.tok:
            r = r.copy()
            r.owner = self.tok
            self.mem[rid] = r
        return r

    # ---- ranges
    def bounds(self, p):
        c = p.const()
        if c is not None:
            return c, c
        lo, hi = self._b(p)
        for K, l, h in self.cons:
            # p = c*K + rest
            m = next(iter(K.d))
            for m in K.d:
                if m == ():
                    continue
                ck = K.d[m]
                cp = p.d.get(m)
                if cp is None or cp % ck:
                    continue
                q = cp // ck
                rest = p - K.scale(q)
                rl, rh = self._b(rest)
                a, b = (q * l, q * h) if q > 0 else (q * h, q * l)
                lo, hi = max(lo, rl + a), min(hi, rh + b)
                break
        return lo, hi

    def _b(self, p):
        lo = hi = 0
        for m, c in p.d.items():
            l = h = 1
            for x, e in m:
                xl, xh = self.ab(x)
                if not isinstance(e, int):
                    l, h = 0, 1 << 20000
                    break
                if e > 64:
                    l, h = 0, 1 << 20000
                    break
                l, h = l * xl ** e, h * xh ** e
            if c > 0:
                lo, hi = lo + c * l, hi + c * h
            else:
                lo, hi = lo + c * h, hi + c * l
        return lo, hi

    def ab(self, x):
        lo, hi = x.lo, x.hi
        for K, l, h in self.cons:
            if len(K.d) <= 2:
                for m, c in K.d.items():
                    if len(m) == 1 and m[0] == (x, 1) and abs(c) == 1 and (len(K.d) == 1 or () in K.d):
                        k = K.d.get((), 0)
                        a, b = (l - k, h - k) if c == 1 else (k - h, k - l)
                        lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    def add(self, K, lo, hi):
        """Adds lo <= K <= hi; False if impossible."""
        l, h = self.bounds(K)
        lo, hi = max(lo, l), min(hi, h)
        if lo > hi:
            return False
        if K.const() is not None:
            return True
        self.cons.append((K, lo, hi))
        if lo == hi:
            return self._pins(K)
        return True

    def _pins(self, K):
        for x in K.atoms():
            if x.kind != "part":
                continue
            v = x.a[0]
            w = (self.bounds(v)[1].bit_length() + 7) // 8
            known, i, val = True, 0, 0
            pieces = {}
            for L, l, h in self.cons:
                if l != h:
                    continue
                for y in L.atoms():
                    if y.kind == "part" and y.a[0] == v:
                        a, b = self.ab(y)
                        if a == b:
                            pieces[y.a[1]] = (y.a[2], a)
            while i < w:
                if i not in pieces:
                    known = False
                    break
                val |= pieces[i][1] << (8 * i)
                i += pieces[i][0]
            if known and not any(L == v and l == h for L, l, h in self.cons):
                if not self.add(v, val, val):
                    return False
        return True

    def pinned(self, p):
        l, h = self.bounds(p)
        return l if l == h else None


class BN:
    def __init__(self, p, models=None, budget=3000000):
        self.p = p
        self.ty = Types(p)
        self.models = dict(MODELS)
        self.models.update(models or {})
        self.fid = 0
        self.frames = []
        self.steps = 0
        self.budget = budget
        self.until = time.time() + 120
        self.oob = {}           # (fn, line, what) -> text
        self.access = 0
        self.notes = set()
        self.throws = []
        self.events = []
        self.analysed = set()
        self.incomplete = set()

    # ---------------------------------------------------------------- memory
    def cur(self):
        return self.frames[-1] if self.frames else None

    def where(self, e=None):
        f = self.cur()
        return (f["fn"] if f else None, (e or {}).get("l") or (f or {}).get("line"))

    def note(self, why):
        self.notes.add(why)

    def alloc(self, t, st, init=True):
        """A region for a variable of type t."""
        t = cv(t)
        w = self.ty.width(t)
        if w is not None:
            return st.new(Bytes(w, zero=init))
        if t.startswith("std::vector<"):
            et = targ(t)[0]
            ew = self.ty.width(et)
            v = Vec(et, ew)
            rid = st.new(v)
            if ew:
                v.data = st.new(Bytes(0))
            return rid
        rec = self.p.records.get(t) or self.p.records.get(strip_targs(t))
        if rec is not None and not t.startswith("std::"):
            o = Obj(t)
            rid = st.new(o)
            for f in self.fields(rec):
                o.f[f["n"]] = self.alloc(f["t"], st, init=False)
            return rid
        return st.new(Val(NULLP if t.endswith("*") or "_ptr<" in t else Unk("uninitialised " + t)))

    def fields(self, rec):
        out = list(rec.get("fields", ()))
        for b in rec.get("bases", ()):
            r = self.p.records.get(b if isinstance(b, str) else b.get("n"))
            if r:
                out = self.fields(r) + out
        return out

    def bound(self, p, n, st, e, what):
        """The region bytes [p, p+n) must exist. n: int or Poly."""
        self.access += 1
        if not isinstance(p, Ptr) or p.rid is None:
            return None
        r = st.mem.get(p.rid)
        if not isinstance(r, Bytes) or r.size is None:
            return r
        n = n if isinstance(n, Poly) else num(n)
        lo = st.bounds(p.off)[0]
        hi = st.bounds(p.off + n)[1]
        if lo < 0 or hi > r.size:
            fn, line = self.where(e)
            exact = known(p.off) and known(n)
            self.oob.setdefault((fn["n"] if fn else "?", what, exact), (fn, line, "%s of %s bytes at offset %r of an array of %d bytes" % (what, n, p.off, r.size)))
            return None
        return r

    def rd(self, p, n, st, e=None, what="read"):
        """n bytes at p as a little-endian number."""
        if not isinstance(p, Ptr) or p.rid is None:
            return unk("read of unknown memory", 0, (1 << (8 * n)) - 1)
        r = self.bound(p, n, st, e, what)
        if not isinstance(r, Bytes):
            return unk("read of unknown memory", 0, (1 << (8 * n)) - 1)
        o = p.off.const()
        if o is not None:
            return r.read(o, n)
        return self.rdsym(r, p.off, n, st)

    def rdsym(self, r, off, n, st):
        """A read at c*x + d for a bounded x: the entries must be one power family in x."""
        ms = [(m, c) for m, c in off.d.items() if m != ()]
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
            x, c = ms[0][0][0][0], ms[0][1]
            d = off.d.get((), 0)
            lo, hi = st.ab(x)
            if 0 <= hi - lo <= 4096:
                vals = [r.read(d + c * i, n) for i in range(lo, hi + 1)]
                f = family(vals, lo, pa(x))
                if f is not None:
                    return f
                if all(known(v) for v in vals):
                    return pa(atom("sel", (pa(x), lo, tuple(vals)), 0, (1 << (8 * n)) - 1))
        return unk("read at a computed index", 0, (1 << (8 * n)) - 1)

    def wr(self, p, n, v, st, e=None, what="write"):
        if not isinstance(p, Ptr) or p.rid is None or p.rid not in st.mem:
            return
        r = self.bound(p, n, st, e, what)
        if not isinstance(r, Bytes):
            return
        o = p.off.const()
        r = st.w(p.rid)
        if o is None:
            # an unknown place: everything becomes unknown
            r.offs, r.segs, r.zero = [], {}, False
            return
        r.write(o, n, v)

    def copybytes(self, dst, src, n, st, e):
        """memcpy of n (known) bytes."""
        if n == 0:
            return
        rs = self.bound(src, n, st, e, "read") if isinstance(src, Ptr) else None
        self.bound(dst, n, st, e, "write")
        so = src.off.const() if isinstance(src, Ptr) else None
        if not isinstance(rs, Bytes) or so is None:
            self.wr(dst, n, self.rd(src, n, st, e), st, e)
            return
        do = dst.off.const() if isinstance(dst, Ptr) else None
        rd = st.mem.get(dst.rid) if isinstance(dst, Ptr) else None
        if do is None or not isinstance(rd, Bytes) or do < 0 or rd.size is not None and do + n > rd.size:
            self.wr(dst, n, unk("copy", 0, (1 << (8 * n)) - 1), st, e)
            return
        segs = []
        for o in rs.overlap(so, n):
            w, x = rs.segs[o]
            a, b = max(o, so), min(o + w, so + n)
            segs.append((a - so, b - a, x if a == o and b == o + w else part(x, a - o, b - a)))
        cov = sum(s[1] for s in segs)
        d = st.w(dst.rid)
        if do == 0 and n == d.size and rs.zero:
            d.offs, d.segs, d.zero, cov = [], {}, True, n
        if cov < n:
            d.write(do, n, ZERO if rs.zero else unk("indeterminate", 0, (1 << (8 * n)) - 1))
        for o, w, x in segs:
            d.write(do + o, w, x)

    # ---------------------------------------------------------------- values
    def load(self, p, t, st, e=None):
        t = cv(t)
        if isinstance(p, Unk):
            w = WID.get(t)
            return unk(p.why, *rng(t)) if w else p
        if self.ty.elem(t) or t in self.p.records and not t.startswith("std::") or t.startswith("std::vector<"):
            return p
        w = self.ty.width(t)
        if w is not None:
            r = st.mem.get(p.rid) if isinstance(p, Ptr) else None
            if isinstance(r, Val):
                return r.v if isinstance(r.v, Poly) else unk("mixed access", *rng(t))
            return self.rd(p, w, st, e)
        r = st.mem.get(p.rid) if isinstance(p, Ptr) else None
        if isinstance(r, Val):
            return r.v
        if isinstance(r, (Obj, Vec)):
            return p
        return Unk("load " + t)

    def store(self, p, t, v, st, e=None):
        if not isinstance(p, Ptr) or p.rid is None:
            return
        r = st.mem.get(p.rid)
        t = cv(t)
        w = self.ty.width(t)
        if isinstance(r, Bytes) and w is not None and not self.ty.elem(t):
            if not isinstance(v, Poly):
                v = unk("value", *rng(t))
            self.wr(p, w, v, st, e)
        elif isinstance(r, Bytes) and self.ty.elem(t):
            if isinstance(v, Ptr):
                self.copybytes(p, v, w, st, e)
            else:
                self.wr(p, w, unk("array", 0, (1 << (8 * w)) - 1), st, e)
        elif isinstance(r, Val):
            st.w(p.rid).v = v
        elif isinstance(r, (Obj, Vec)) and isinstance(v, Ptr) and v.rid in st.mem:
            self.copyobj(p.rid, v.rid, st)
        else:
            self.note("store to " + t)

    def copyobj(self, d, s, st):
        if d == s:
            return
        a, b = st.mem[d], st.mem[s]
        if isinstance(b, Obj) and isinstance(a, Obj):
            for n, rid in b.f.items():
                if n in a.f:
                    self.copyreg(a.f[n], rid, st)
        else:
            self.copyreg(d, s, st)

    def copyreg(self, d, s, st):
        b = st.mem.get(s)
        if isinstance(b, Obj):
            return self.copyobj(d, s, st)
        if isinstance(b, Vec):
            n = b.copy()
            if n.data is not None:
                x = st.mem[b.data].copy()
                n.data = st.new(x)
            n.owner = st.tok
            st.mem[d] = n
            return
        c = b.copy()
        c.owner = st.tok
        st.mem[d] = c

    def wrap(self, v, t):
        """An integer result reduced to its type, where the ranges allow."""
        return v

    # ---------------------------------------------------------------- branching
    def decide(self, K, lo, hi, st):
        """Yields (state, truth) for lo <= K <= hi (None = unbounded)."""
        l, h = st.bounds(K)
        lo = l if lo is None else lo
        hi = h if hi is None else hi
        if l >= lo and h <= hi:
            yield st, True
            return
        if h < lo or l > hi:
            yield st, False
            return
        a = st.fork()
        if a.add(K, lo, hi):
            yield a, True
        # complement
        if hi >= h and lo > l:
            b = st.fork()
            if b.add(K, l, lo - 1):
                yield b, False
        elif lo <= l and hi < h:
            b = st.fork()
            if b.add(K, hi + 1, h):
                yield b, False
        else:
            b = st.fork()
            b.dis.append((([(K, l, lo - 1)], []), ([(K, hi + 1, h)], [])))
            yield b, False

    def truth(self, v, st):
        """Yields (state, bool) of a value in a condition."""
        if isinstance(v, bool):
            yield st, v
        elif isinstance(v, Poly):
            for s, z in self.decide(v, 0, 0, st):
                yield s, not z
        elif isinstance(v, Ptr):
            yield st, v.rid is not None
        elif isinstance(v, Cmp):
            yield from v.go(self, st)
        else:
            a, b = st.fork(), st.fork()
            a.vague = b.vague = True
            yield a, True
            yield b, False

    def cond(self, e, st):
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            for s, a in self.cond(e["a"], st):
                if a == (e["op"] == "&&"):
                    yield from self.cond(e["b"], s)
                else:
                    yield s, a
            return
        if k == "un" and e["op"] == "!":
            for s, a in self.cond(e["e"], st):
                yield s, not a
            return
        if k == "cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "NoOp", "LValueToRValue") and e["ck"] != "NoOp":
            for s, v in self.ev(e["e"], st):
                yield from self.truth(v, s)
            return
        for s, v in self.ev(e, st):
            yield from self.truth(v, s)

    # ---------------------------------------------------------------- merging
    def merge(self, outs):
        """outs: [(kind, state, value)]; states that agree become one."""
        if len(outs) < 2:
            return outs
        res = []
        for o in outs:
            for i, q in enumerate(res):
                m = self.joinst(q, o)
                if m is not None:
                    res[i] = m
                    break
            else:
                res.append(o)
        return res

    def joinst(self, x, y):
        if x[0] != y[0] or not veq(x[2], y[2]):
            return None
        a, b = x[1], y[1]
        if a.vars != b.vars:
            return None
        ka, kb = set(a.mem), set(b.mem)
        if ka != kb:
            ra, rb = self.reach(a, [x[2]]), self.reach(b, [y[2]])
            if ra != rb:
                return None
            for s, r in ((a, ra), (b, rb)):
                for k in list(s.mem):
                    if k not in r:
                        del s.mem[k]
        diff = [k for k in a.mem if a.mem[k] is not b.mem[k] and not a.mem[k].same(b.mem[k])]
        common = [c for c in a.cons if c in b.cons]
        if diff:
            # one side fixed a value the other left open: it must be the other side's state at that value
            for s, o in ((a, b), (b, a)):
                extra = [c for c in s.cons if c not in common]
                pins = {}
                for K, l, h in extra:
                    for at in K.atoms():
                        p, q = s.ab(at)
                        if p == q:
                            pins[at] = num(p)
                if pins and all(self.at(o.mem[k], s.mem[k], pins) for k in diff):
                    self.either(o, a, b, common)
                    o.next = max(a.next, b.next)
                    return (x[0], o, x[2])
            return None
        self.either(a, a, b, common)
        a.next = max(a.next, b.next)
        return (x[0], a, x[2])

    def either(self, o, a, b, common):
        """o becomes the state of which a and b are the alternatives."""
        dc = [d for d in a.dis if any(d is q for q in b.dis)]
        ra = ([c for c in a.cons if c not in common], [d for d in a.dis if not any(d is q for q in dc)])
        rb = ([c for c in b.cons if c not in common], [d for d in b.dis if not any(d is q for q in dc)])
        o.cons = common
        o.dis = dc + ([(ra, rb)] if (ra[0] or ra[1]) and (rb[0] or rb[1]) else [])
        o.vague = a.vague or b.vague

    def at(self, general, special, pins):
        if not isinstance(general, Bytes) or not isinstance(special, Bytes) or general.size != special.size:
            return False
        if set(general.segs) != set(special.segs):
            return False
        f = lambda x: pins.get(x)
        for o, (w, v) in general.segs.items():
            w2, v2 = special.segs[o]
            if w != w2:
                return False
            if v == v2:
                continue
            if subst(v, f) != subst(v2, f):
                return False
        return True

    def reach(self, st, vals, mark=None):
        """Regions still in use: what existed before the current call, its variables and vals."""
        seen = set()
        if mark is None:
            mark = self.cur()["mark"] if self.frames else 0
        stack = [v.rid for v in st.vars.values() if isinstance(v, Ptr)] + [v.rid for v in vals if isinstance(v, Ptr)]
        stack += [r for r in st.mem if r < mark]
        while stack:
            r = stack.pop()
            if r is None or r in seen or r not in st.mem:
                continue
            seen.add(r)
            m = st.mem[r]
            if isinstance(m, Val) and isinstance(m.v, Ptr):
                stack.append(m.v.rid)
            elif isinstance(m, Obj):
                stack.extend(m.f.values())
            elif isinstance(m, Vec):
                if m.data is not None:
                    stack.append(m.data)
                stack.extend(x.rid for x in m.items if isinstance(x, Ptr))
        return seen

    # ---------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken("step budget exhausted")
        if self.steps % 1000 == 0 and time.time() > self.until:
            raise AnalysisBroken("time limit")

    def ex(self, s, st):
        """Yields (kind, state, value): n(ext), ret, brk, cont."""
        if s is None:
            yield "n", st, None
            return
        self.tick()
        m = getattr(self, "s_" + s["k"], None)
        if m is not None:
            yield from m(s, st)
            return
        for x, v in self.ev(s, st):
            yield "n", x, None

    def s_block(self, s, st):
        states = [st]
        for c in s["c"]:
            nxt = []
            for x in states:
                for k, y, v in self.ex(c, x):
                    if k == "n":
                        nxt.append(("n", y, None))
                    else:
                        yield k, y, v
            states = [o[1] for o in self.merge(nxt)]
            if not states:
                return
        for x in states:
            yield "n", x, None

    def s_nop(self, s, st):
        yield "n", st, None

    def s_ret(self, s, st):
        e = s.get("e")
        if e is None:
            yield "ret", st, None
            return
        ref = isref(self.cur()["fn"].get("rt", ""))
        if ref:
            for x, p in self.lv(e, st):
                yield "ret", x, p
        else:
            for x, v in self.ev(e, st):
                yield "ret", x, v

    def s_break(self, s, st):
        yield "brk", st, None

    def s_continue(self, s, st):
        yield "cont", st, None

    def s_decl(self, s, st):
        states = [st]
        for v in s["vars"]:
            nxt = []
            for x in states:
                nxt += list(self.declvar(v, x))
            states = nxt
        for x in states:
            yield "n", x, None

    def declvar(self, v, st):
        key = (self.cur()["id"], v["id"])
        t = v["t"]
        i = v.get("i")
        if v.get("static"):
            key = ("static", v.get("u") or v["id"])
            if key in st.vars:
                st.vars[(self.cur()["id"], v["id"])] = st.vars[key]
                yield st
                return
            for x in self._decl(key, t, i, st):
                x.vars[(self.cur()["id"], v["id"])] = x.vars[key]
                yield x
            return
        yield from self._decl(key, t, i, st)

    def _decl(self, key, t, i, st):
        if t.endswith("&"):
            for x, p in self.lv(i, st):
                x.vars[key] = p
                yield x
            return
        if i is None:
            st.vars[key] = Ptr(self.alloc(t, st, init=False))
            yield st
            return
        ct = cv(t)
        for x, v in self.ev(i, st):
            if i["k"] in ("ctor", "call", "init") and isinstance(v, Ptr) and v.rid in x.mem and isinstance(x.mem[v.rid], (Obj, Vec)) and v.off == ZERO and not ct.endswith("*") and "_ptr<" not in ct:
                x.vars[key] = v          # a fresh object becomes the variable
                yield x
                continue
            rid = self.alloc(t, x, init=False)
            x.vars[key] = Ptr(rid)
            self.store(Ptr(rid), t, v, x, i)
            yield x

    def s_if(self, s, st):
        sts = [st]
        if s.get("init"):
            sts = [x for k, x, v in self.ex(s["init"], st)]
        if s.get("cv"):
            sts = [y for x in sts for y in self.declvar(s["cv"], x)]
        outs = []
        for x in sts:
            for y, c in self.cond(s["c"], x):
                outs += list(self.ex(s["a"] if c else s["b"], y))
        yield from self.merge(outs)

    def s_for(self, s, st):
        sts = [st]
        if s.get("init"):
            sts = [x for k, x, v in self.ex(s["init"], st)]
        yield from self.loop(s, sts, s.get("c"), s.get("inc"), False)

    def s_while(self, s, st):
        yield from self.loop(s, [st], s.get("c"), None, False)

    def s_do(self, s, st):
        yield from self.loop(s, [st], s.get("c"), None, True)

    def loop(self, s, sts, c, inc, post):
        done = []
        n = 0
        first = post
        while sts:
            n += 1
            if n > 5000:
                raise AnalysisBroken("loop bound not found at line %s" % s.get("l"))
            nxt = []
            for x in sts:
                tests = [(x, True)] if first or c is None else list(self.cond(c, x))
                for y, ok in tests:
                    if not ok:
                        done.append(("n", y, None))
                        continue
                    for k, z, v in self.ex(s["b"], y):
                        if k in ("n", "cont"):
                            if inc is not None:
                                for z2, _ in self.ev(inc, z):
                                    nxt.append(("n", z2, None))
                            else:
                                nxt.append(("n", z, None))
                        elif k == "brk":
                            done.append(("n", z, None))
                        else:
                            done.append((k, z, v))
            first = False
            sts = [o[1] for o in self.merge(nxt)]
            sts = self.thin(sts, s)
        yield from self.merge(done)

    def thin(self, sts, s):
        """Too many states: some are followed further, and the analysis is no longer complete."""
        if len(sts) <= 96:
            return sts
        self.incomplete.add("too many states in the loop at line %s" % s.get("l"))
        return [sts[i * (len(sts) - 1) // 31] for i in range(32)]

    def s_rfor(self, s, st):
        for x, c in self.lv(s["r"], st) if s["r"]["k"] in ("ref", "mem", "un") else self.ev(s["r"], st):
            items = self.elements(c, s["r"].get("t", ""), x)
            if items is None:
                self.note("range loop over unknown")
                raise AnalysisBroken("range loop over an unknown collection at line %s" % s.get("l"))
            sts = [x]
            done = []
            v = s["v"]
            key = (self.cur()["id"], v["id"])
            for it in items:
                nxt = []
                for y in sts:
                    p = it
                    if isref(v["t"]):
                        y.vars[key] = p
                    else:
                        rid = self.alloc(v["t"], y, init=False)
                        y.vars[key] = Ptr(rid)
                        self.store(Ptr(rid), v["t"], self.load(p, v["t"], y) if isinstance(p, Ptr) else p, y)
                    for k, z, r in self.ex(s["b"], y):
                        if k in ("n", "cont"):
                            nxt.append(("n", z, None))
                        elif k == "brk":
                            done.append(("n", z, None))
                        else:
                            done.append((k, z, r))
                sts = [o[1] for o in self.merge(nxt)]
                sts = self.thin(sts, s)
            done += [("n", y, None) for y in sts]
            yield from self.merge(done)

    def elements(self, p, t, st):
        """Locations of the elements of an array or vector."""
        if not isinstance(p, Ptr) or p.rid not in st.mem:
            return None
        r = st.mem[p.rid]
        if isinstance(r, Vec):
            if r.w and r.n is not None:
                return [Ptr(r.data, num(i * r.w)) for i in range(r.n)]
            return list(r.items)
        el = self.ty.elem(unref(t))
        if el and el[1] is not None:
            w = self.ty.width(el[0])
            return [Ptr(p.rid, p.off + num(i * w)) for i in range(el[1])]
        return None

    def s_try(self, s, st):
        yield from self.ex(s["b"], st)

    def s_switch(self, s, st):
        raise AnalysisBroken("switch")

    # ---------------------------------------------------------------- lvalues
    def lv(self, e, st):
        """Yields (state, pointer to the location)."""
        k = e["k"]
        if k == "ref" and e.get("dk") in ("local", "param", "binding"):
            yield st, self.varptr(e, st)
        elif k == "ref" and e.get("dk") in ("global", "static"):
            yield from self.globptr(e, st)
        elif k == "mem":
            if e.get("static"):
                yield from self.globptr(e, st)
                return
            for x, b in self.ev(e["b"], st):
                r = x.mem.get(b.rid) if isinstance(b, Ptr) else None
                if isinstance(r, Val) and isinstance(b, Ptr) and e.get("m") in ("second", "first"):
                    yield x, b
                    continue
                if isinstance(r, Val):
                    b = r.v
                    r = x.mem.get(b.rid) if isinstance(b, Ptr) else None
                if isinstance(r, Obj) and e["n"] in r.f:
                    yield x, Ptr(r.f[e["n"]])
                else:
                    yield x, Unk("member " + e["n"])
        elif k == "un" and e["op"] == "*":
            for x, p in self.ev(e["e"], st):
                yield x, p
        elif k == "sub":
            w = self.ty.width(e["t"])
            for x, b in self.ev(e["a"], st):
                for y, i in self.ev(e["b"], x):
                    if isinstance(b, Ptr) and isinstance(i, Poly) and w:
                        yield y, Ptr(b.rid, b.off + i.scale(w))
                    else:
                        yield y, Unk("subscript")
        elif k == "cast":
            yield from self.lv(e["e"], st)
        elif k == "defarg":
            yield from self.lv(e["e"], st)
        elif k == "asg":
            for x, _ in self.ev(e, st):
                yield from self.lv(e["a"], x)
        elif k == "un" and e["op"] in ("++", "--"):
            for x, _ in self.ev(e, st):
                yield from self.lv(e["e"], x)
        elif k == "call":
            n = strip_targs(e.get("n", "") or "")
            if n in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
                yield from self.lv(e["a"][0], st)
                return
            for x, v in self.ev(e, st, lv=True):
                yield x, v
        elif k == "this":
            yield st, self.cur()["this"]
        elif k == "cond":
            for x, c in self.cond(e["c"], st):
                yield from self.lv(e["a"] if c else e["b"], x)
        else:
            # a temporary
            for x, v in self.ev(e, st):
                if isinstance(v, Ptr) and (cv(e.get("t", "")) in self.p.records or v.rid in x.mem and isinstance(x.mem[v.rid], (Obj, Vec))):
                    yield x, v
                    continue
                t = e.get("t", "") or "void *"
                rid = self.alloc(t, x, init=False)
                self.store(Ptr(rid), t, v, x, e)
                yield x, Ptr(rid)

    def varptr(self, e, st):
        fr = self.cur()
        f = fr
        while f is not None:
            p = st.vars.get((f["id"], e["id"]))
            if p is not None:
                return p
            f = f.get("up")
        return Unk("variable " + e["n"])

    def globptr(self, e, st):
        key = ("static", e.get("u") or e["n"])
        if key in st.vars:
            yield st, st.vars[key]
            return
        g = self.p.globals.get(e.get("u"))
        if g is None or g.get("i") is None or "const" not in g["t"]:
            w = self.ty.width(e.get("t", ""))
            rid = st.new(Bytes(w, zero=False)) if w else st.new(Val(Unk("global " + e["n"])))
            st.vars[key] = Ptr(rid)
            yield st, Ptr(rid)
            return
        yield from ((x, x.vars[key]) for x in self._decl(key, g["t"], g["i"], st))

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, lv=False):
        self.tick()
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.note("expr " + e["k"])
            yield st, Unk(e["k"])
            return
        if e["k"] == "call":
            yield from m(e, st, lv)
        else:
            yield from m(e, st)

    def evs(self, es, st):
        """Yields (state, [values])."""
        if not es:
            yield st, []
            return
        if len(es) == 1:
            for x, v in self.ev(es[0], st):
                yield x, [v]
            return
        for x, v in self.ev(es[0], st):
            for y, vs in self.evs(es[1:], x):
                yield y, [v] + vs

    def same_bytes(self, c, st):
        """memcmp as a test for equality: yields (state, equal), None if it cannot be told."""
        for x, (p, q, n) in self.evs([a for a in c["a"] if a["k"] != "defarg"][:3], st):
            w = x.pinned(n) if isinstance(n, Poly) else None
            if w is None or not isinstance(p, Ptr) or not isinstance(q, Ptr):
                yield x, None
                continue
            yield from self.decide(self.rd(p, w, x, c) - self.rd(q, w, x, c), 0, 0, x)

    def e_int(self, e, st):
        yield st, num(int(e["v"]))

    def e_bool(self, e, st):
        yield st, num(1 if e.get("v") else 0)

    def e_null(self, e, st):
        yield st, NULLP

    def e_str(self, e, st):
        yield st, Str("lit", e["v"])

    def e_float(self, e, st):
        yield st, Unk("float")

    def e_zero(self, e, st):
        t = cv(e.get("t", ""))
        if WID.get(t):
            yield st, ZERO
        elif t.endswith("*"):
            yield st, NULLP
        else:
            yield st, Ptr(self.alloc(t, st))

    def e_defarg(self, e, st):
        yield from self.ev(e["e"], st)

    def e_sizeof(self, e, st):
        yield st, num(int(e["v"])) if "v" in e else unk("sizeof")

    def e_this(self, e, st):
        yield st, self.cur()["this"]

    def e_ref(self, e, st):
        dk = e.get("dk")
        if dk == "enum":
            yield st, num(int(e["v"]))
            return
        if dk == "func":
            yield st, Unk("function")
            return
        for x, p in self.lv(e, st):
            yield x, self.load(p, e["t"], x, e)

    def e_mem(self, e, st):
        for x, p in self.lv(e, st):
            yield x, self.load(p, e["t"], x, e)

    e_sub = e_mem

    def e_other(self, e, st):
        yield st, Unk("other")

    def e_lambda(self, e, st):
        yield st, Unk("lambda")

    def e_un(self, e, st):
        op = e["op"]
        if op == "*":
            for x, p in self.lv(e, st):
                yield x, self.load(p, e["t"], x, e)
        elif op == "&":
            for x, p in self.lv(e["e"], st):
                yield x, p
        elif op in ("++", "--", "p++", "p--"):
            t = e["e"]["t"]
            for x, p in self.lv(e["e"], st):
                old = self.load(p, t, x, e)
                d = 1 if "+" in op else -1
                new = self.plus(old, num(d), t, x)
                self.store(p, t, new, x, e)
                yield x, old if op[0] == "p" else new
        elif op == "!":
            for x, b in self.cond(e, st):
                yield x, num(1 if b else 0)
        elif op == "-":
            for x, v in self.ev(e["e"], st):
                yield x, -v if isinstance(v, Poly) else Unk("-")
        elif op == "~":
            for x, v in self.ev(e["e"], st):
                w = WID.get(cv(e["t"]))
                if isinstance(v, Poly) and w and cv(e["t"]) not in SIGNED:
                    yield x, num((1 << (8 * w)) - 1) - v
                elif isinstance(v, Poly):
                    yield x, num(-1) - v
                else:
                    yield x, Unk("~")
        else:
            for x, v in self.ev(e["e"], st):
                yield x, v if op == "+" else Unk(op)

    def plus(self, a, b, t, st):
        if isinstance(a, Ptr) and isinstance(b, Poly):
            w = self.ty.width(cv(t)[:-1]) if cv(t).endswith("*") else 1
            return Ptr(a.rid, a.off + b.scale(w or 1))
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.fit(a + b, t, st)
        return Unk("+")

    def fit(self, v, t, st):
        t = cv(t)
        w = WID.get(t)
        if w is None or v.const() is None and t in SIGNED:
            lo, hi = st.bounds(v)
            if w is None or -(1 << (8 * w - 1)) <= lo and hi < 1 << (8 * w - 1):
                return v
            return unk("signed overflow", *rng(t))
        c = v.const()
        if c is not None:
            c &= (1 << (8 * w)) - 1
            if t in SIGNED and c >= 1 << (8 * w - 1):
                c -= 1 << (8 * w)
            return num(c)
        lo, hi = st.bounds(v)
        if lo >= 0 and hi < 1 << (8 * w):
            return v
        if lo >= 0:
            return part(v, 0, w)
        # one wrap
        if lo >= -(1 << (8 * w)) and hi < 0:
            return v + num(1 << (8 * w))
        return unk("wrap of %s" % t, 0, (1 << (8 * w)) - 1)

    def e_bin(self, e, st):
        if e["op"] in ("==", "!="):
            c = compared(e["a"], e["b"]) or compared(e["b"], e["a"])
            if c is not None:
                for x, v in self.same_bytes(c, st):
                    yield x, num(int(v == (e["op"] == "=="))) if v is not None else Unk("memcmp")
                return
        op = e["op"]
        if op in ("&&", "||"):
            for x, b in self.cond(e, st):
                yield x, num(1 if b else 0)
            return
        if op == ",":
            for x, _ in self.ev(e["a"], st):
                yield from self.ev(e["b"], x)
            return
        for x, (a, b) in self.evs([e["a"], e["b"]], st):
            if op in ("<", ">", "<=", ">=", "==", "!="):
                yield x, self.cmp(op, a, b)
            else:
                yield x, self.arith(op, a, b, e["t"], x, e)

    def cmp(self, op, a, b):
        if isinstance(a, Cmp):
            a = Unk("bool")
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                a, b = a.off, b.off
            elif op in ("==", "!="):
                return num(1 if (op == "!=") else 0)
            else:
                return Unk("pointer comparison")
        if isinstance(a, Poly) and isinstance(b, Poly):
            return Cmp(op, a, b)
        if isinstance(a, Str) and isinstance(b, Str) and a == b and op in ("==", "!="):
            return num(1 if op == "==" else 0)
        return Unk("comparison")

    def arith(self, op, a, b, t, st, e=None):
        if op == "+":
            if isinstance(b, Ptr):
                a, b = b, a
            return self.plus(a, b, t, st)
        if op == "-":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid:
                    w = self.ty.width(cv((e or {}).get("a", {}).get("t", "")).rstrip("* ")) or 1
                    el = self.ty.elem(cv((e or {}).get("a", {}).get("t", "")))
                    if el:
                        w = self.ty.width(el[0]) or 1
                    d = (a.off - b.off)
                    c = d.const()
                    return num(c // w) if c is not None else Unk("pointer difference")
                return Unk("pointer difference")
            if isinstance(a, Ptr) and isinstance(b, Poly):
                return self.plus(a, -b, t, st)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return self.fit(a - b, t, st)
            return Unk("-")
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return unk("operator " + op, *rng(t)) if WID.get(cv(t)) else Unk(op)
        ca, cb = a.const(), b.const()
        if op == "*":
            return self.fit(a * b, t, st)
        if ca is not None and cb is not None:
            try:
                if op == "/":
                    return num(int(abs(ca) // abs(cb)) * (1 if (ca < 0) == (cb < 0) else -1))
                if op == "%":
                    return num(abs(ca) % abs(cb) * (1 if ca >= 0 else -1))
                r = {"&": ca & cb, "|": ca | cb, "^": ca ^ cb, "<<": ca << cb if 0 <= cb < 64 else 0, ">>": ca >> cb if cb >= 0 else 0}[op]
                return self.fit(num(r), t, st)
            except (KeyError, ZeroDivisionError):
                return unk(op)
        lo, hi = st.bounds(a)
        if op == "<<" and cb is not None and lo >= 0:
            return self.fit(a.scale(1 << cb), t, st)
        if op == ">>" and cb is not None and lo >= 0 and cb % 8 == 0:
            w = WID.get(cv((e or {}).get("a", {}).get("t", "")), 8)
            return part(a, cb // 8, max(w - cb // 8, 1)) if cb // 8 < w else ZERO
        if op == "&" and (cb is not None or ca is not None) and lo >= 0:
            if cb is None:
                a, ca, cb = b, cb, ca
                lo, hi = st.bounds(a)
            if lo >= 0 and cb >= 0:
                if cb == (1 << cb.bit_length()) - 1 and hi <= cb:
                    return a
                n = cb.bit_length()
                if cb == (1 << n) - 1 and n % 8 == 0:
                    return part(a, 0, n // 8)
                return pa(atom("unk", ("mask", a, cb), 0, min(hi, cb)))
        if op == "%" and cb and lo >= 0:
            return mod(cb, a) if hi >= cb else a
        if op == "/" and cb and lo >= 0:
            return pa(atom("unk", ("div", a, cb), lo // cb, hi // cb))
        if op in ("|", "+") and lo >= 0:
            pass
        return unk("operator " + op, *rng(t))

    def e_asg(self, e, st):
        op = e["op"]
        for x, v in self.ev(e["b"], st):
            for y, p in self.lv(e["a"], x):
                t = e["a"]["t"]
                if op != "=":
                    old = self.load(p, t, y, e)
                    if isinstance(v, Cmp):
                        v = Unk("bool")
                    v2 = self.arith(op[:-1], old, v, t, y, e)
                    self.store(p, t, v2, y, e)
                    yield y, v2
                    continue
                if isinstance(v, Cmp):
                    for z, b in v.go(self, y):
                        self.store(p, t, num(1 if b else 0), z, e)
                        yield z, num(1 if b else 0)
                    continue
                self.store(p, t, v, y, e)
                yield y, v

    def e_cond(self, e, st):
        for x, c in self.cond(e["c"], st):
            yield from self.ev(e["a"] if c else e["b"], x)

    def e_cast(self, e, st):
        ck = e["ck"]
        for x, v in self.ev(e["e"], st):
            if ck in ("IntegralToBoolean", "PointerToBoolean"):
                for y, b in self.truth(v, x):
                    yield y, num(1 if b else 0)
            elif ck == "NullToPointer":
                yield x, NULLP
            elif isinstance(v, Cmp):
                for y, b in v.go(self, x):
                    yield y, num(1 if b else 0)
            elif ck in ("IntegralCast", "NoOp") and isinstance(v, Poly) and WID.get(cv(e.get("t", ""))):
                yield x, self.fit(v, e["t"], x)
            elif ck == "ToVoid":
                yield x, None
            else:
                yield x, v

    def e_throw(self, e, st):
        t = (e.get("e") or {}).get("t", "rethrow")
        self.throws.append((st, cv(t), self.where(e)))
        return
        yield

    def e_init(self, e, st):
        t = cv(e.get("t", ""))
        el = self.ty.elem(t)
        if el:
            w = self.ty.width(t)
            if w is None:
                yield st, Unk("init " + t)
                return
            ew = self.ty.width(el[0])
            for x, vs in self.evs(e["a"], st):
                rid = x.new(Bytes(w))
                if len(e["a"]) == 1 and el[1] != 1 and isinstance(vs[0], Ptr) and self.ty.width(e["a"][0].get("t", "")) == w:
                    self.copybytes(Ptr(rid), vs[0], w, x, e)
                    yield x, Ptr(rid)
                    continue
                for i, v in enumerate(vs):
                    self.store(Ptr(rid, num(i * ew)), el[0], v, x, e)
                yield x, Ptr(rid)
            return
        if WID.get(t):
            if not e["a"]:
                yield st, ZERO
            else:
                yield from self.ev(e["a"][0], st)
            return
        rec = self.p.records.get(t)
        for x, vs in self.evs(e["a"], st):
            if rec is not None:
                rid = self.alloc(t, x)
                o = x.mem[rid]
                for f, v in zip(self.fields(rec), vs):
                    self.store(Ptr(o.f[f["n"]]), f["t"], v, x, e)
                yield x, Ptr(rid)
            elif t.endswith("*") and not vs:
                yield x, NULLP
            elif len(vs) == 1:
                yield x, vs[0]
            else:
                yield x, Unk("init " + t)

    def e_new(self, e, st):
        if e.get("arr"):
            t = cv(e.get("t", "")).rstrip("* ").strip()
            w = self.ty.width(t)
            for x, (n,) in self.evs([e["n"]], st) if e.get("n") else [(st, (ZERO,))]:
                c = x.pinned(n) if isinstance(n, Poly) else None
                yield x, Ptr(x.new(Bytes(c * w if c is not None and w else None, zero=e.get("e") is not None)))
            return
        if e.get("e") is None:
            yield st, Ptr(self.alloc(cv(e.get("t", "")).rstrip("* ").strip(), st, init=False))
            return
        yield from self.ev(e["e"], st)

    def e_delete(self, e, st):
        for x, v in self.ev(e["e"], st):
            yield x, None

    def e_ctor(self, e, st):
        cls = e["cls"]
        n = strip_targs(cls)
        h = self.models.get("ctor:" + n)
        if h is not None:
            yield from h(self, e, st)
            return
        if cls.startswith("std::"):
            for x, vs in self.evs([a for a in e["a"] if a["k"] != "defarg"], st):
                if n in ("std::unique_ptr", "std::shared_ptr"):
                    yield x, vs[0] if vs else NULLP
                elif len(vs) == 1:
                    yield x, vs[0]
                else:
                    yield x, Unk("new " + n)
            return
        fn = self.p.lookup(e["f"])
        if e.get("cp") == "copy" and (fn is None or fn.get("implicit") or fn.get("defaulted")) and len(e["a"]) == 1:
            for x, v in self.lv(e["a"][0], st):
                if isinstance(v, Ptr) and v.rid in x.mem:
                    rid = self.alloc(cls, x)
                    self.copyobj(rid, v.rid, x)
                    yield x, Ptr(rid)
                else:
                    yield x, Unk("copy")
            return
        if e.get("cp") == "move" and len(e["a"]) == 1:
            yield from self.lv(e["a"][0], st)
            return
        yield from self.construct(cls, fn, e["a"], st, e)

    def construct(self, cls, fn, args, st, e):
        if fn is None:
            if args:
                self.note("constructor of " + cls)
            yield st, Ptr(self.alloc(cls, st))
            return
        for x, vals in self.argvals(args, fn, st):
            rid = self.alloc(cls, x, init=False)
            for y, _ in self.call(fn, Ptr(rid), vals, x, e):
                yield y, Ptr(rid)

    def argvals(self, es, fn, st):
        es = list(es)
        if not es:
            yield st, []
            return

        def go(i, x):
            if i == len(es):
                yield x, []
                return
            pt = fn["ps"][i]["t"] if fn and i < len(fn["ps"]) else ""
            src = self.lv(es[i], x) if pt.endswith("&") else self.ev(es[i], x)
            for y, v in src:
                if isinstance(v, Cmp):
                    for y2, b in v.go(self, y):
                        for z, vs in go(i + 1, y2):
                            yield z, [num(1 if b else 0)] + vs
                    continue
                for z, vs in go(i + 1, y):
                    yield z, [v] + vs
        yield from go(0, st)

    # ---------------------------------------------------------------- calls
    def e_call(self, e, st, lv=False):
        name = strip_targs(e.get("n", "") or "")
        h = self.models.get(name)
        if h is None and name.startswith(("std::", "nlohmann::")):
            h = self.models.get("*::" + name.split("::")[-1])
        if h is not None:
            for x, v in h(self, e, st):
                yield x, (v if not isinstance(v, Loc) else v.p if lv else self.load(v.p, e["t"], x, e))
            return
        fn = self.p.lookup(e.get("f", ""), self.cur()["fn"].get("file") if self.frames else None) or self.p.lookup(e.get("f", ""))
        if e.get("mk"):
            yield from self.make(e, st)
            return
        if fn is None or not fn.get("b"):
            self.note("call " + name)
            for x, vs in self.evs(([e["o"]] if e.get("o") else []) + e["a"], st):
                t = cv(e.get("t", ""))
                yield x, unk("call " + name, *rng(t)) if WID.get(t) else Unk("call " + name)
            return
        if e.get("o") is not None and not fn.get("static"):
            for x, o in self.obj(e["o"], st):
                for y, vals in self.argvals(e["a"], fn, x):
                    yield from self.result(fn, self.call(fn, o, vals, y, e), e, lv)
        else:
            for y, vals in self.argvals(e["a"], fn, st):
                yield from self.result(fn, self.call(fn, None, vals, y, e), e, lv)

    def obj(self, o, st):
        """The object a member is called on."""
        t = cv(o.get("t", ""))
        if t.endswith("*"):
            yield from self.ev(o, st)
        else:
            for x, p in self.lv(o, st):
                r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
                if isinstance(r, Val) and isinstance(r.v, Ptr):
                    p = r.v
                yield x, p

    def result(self, fn, outs, e, lv):
        ref = isref(fn.get("rt", ""))
        for x, v in outs:
            yield x, self.load(v, e["t"], x, e) if ref and not lv else v

    def make(self, e, st):
        cls = e["mk"]
        if cls.endswith("[]"):
            w = self.ty.width(cv(cls[:-2].strip()))
            for x, vs in self.evs(e["a"][:1], st):
                c = x.pinned(vs[0]) if vs and isinstance(vs[0], Poly) else None
                yield x, Ptr(x.new(Bytes(c * w if c is not None and w else None)))
            return
        fn = self.p.lookup(e.get("ctor", "")) if e.get("ctor") else None
        if fn is None and len(e["a"]) == 1:
            for x, v in self.lv(e["a"][0], st):
                rid = self.alloc(cls, x)
                if isinstance(v, Ptr) and v.rid in x.mem:
                    self.copyobj(rid, v.rid, x)
                yield x, Ptr(rid)
            return
        if fn is not None and not fn.get("b") and (fn.get("implicit") or fn.get("defaulted")) and len(e["a"]) == 1:
            for x, v in self.lv(e["a"][0], st):
                rid = self.alloc(cls, x)
                if isinstance(v, Ptr) and v.rid in x.mem:
                    self.copyobj(rid, v.rid, x)
                yield x, Ptr(rid)
            return
        yield from self.construct(cls, fn, e["a"], st, e)

    def call(self, fn, this, vals, st, e):
        """Yields (state, value)."""
        if len(self.frames) > 40 or sum(1 for f in self.frames if f["fn"] is fn) > 2:
            raise AnalysisBroken("recursion in " + fn["n"])
        self.analysed.add(fn["n"])
        self.fid += 1
        fr = {"id": self.fid, "this": this, "fn": fn, "line": (e or {}).get("l"), "mark": st.next}
        self.frames.append(fr)
        outs = []
        try:
            sts = [st]
            for i, p in enumerate(fn["ps"]):
                nxt = []
                for x in sts:
                    if i < len(vals):
                        vv = [(x, vals[i])]
                    elif p.get("d"):
                        vv = list(self.lv(p["d"], x) if isref(p["t"]) else self.ev(p["d"], x))
                    else:
                        vv = [(x, Unk("missing argument"))]
                    for y, v in vv:
                        if isref(p["t"]):
                            if isinstance(v, (Poly, Str)):
                                rid = self.alloc(unref(p["t"]), y)
                                self.store(Ptr(rid), unref(p["t"]), v, y)
                                v = Ptr(rid)
                            y.vars[(fr["id"], p["id"])] = v
                        elif isinstance(v, Ptr) and v.rid in y.mem and isinstance(y.mem[v.rid], (Obj, Vec)) and not cv(p["t"]).endswith("*") and "_ptr<" not in p["t"]:
                            y.vars[(fr["id"], p["id"])] = v
                        else:
                            rid = self.alloc(p["t"], y)
                            self.store(Ptr(rid), p["t"], v, y)
                            y.vars[(fr["id"], p["id"])] = Ptr(rid)
                        nxt.append(y)
                sts = nxt
            if fn.get("ctor"):
                sts = [y for x in sts for y in self.inits(fn, this, x)]
            for x in sts:
                for k, y, v in self.ex(fn.get("b"), x):
                    if isinstance(v, Cmp):
                        for z, b in v.go(self, y):
                            outs.append(("ret", z, num(1 if b else 0)))
                        continue
                    outs.append(("ret", y, v))
        finally:
            self.frames.pop()
        for k, y, v in outs:
            for key in [q for q in y.vars if q[0] == fr["id"]]:
                p = y.vars.pop(key)
        if len(outs) > 1:
            for k, y, v in outs:
                live = self.reach(y, [v, this], fr["mark"])
                for r in [r for r in y.mem if r >= fr["mark"] and r not in live]:
                    del y.mem[r]
        for k, y, v in self.merge(outs):
            yield y, v

    def inits(self, fn, this, st):
        sts = [st]
        done = set()
        rec = self.p.records.get(fn.get("cls")) or {}
        ft = {f["n"]: f["t"] for f in self.fields(rec)} if rec else {}
        for i in fn.get("inits", ()):
            nxt = []
            for x in sts:
                e = i.get("e")
                if "field" in i:
                    done.add(i["field"])
                    if e is None:
                        nxt.append(x)
                        continue
                    t = ft.get(i["field"], e.get("t", ""))
                    o = x.mem.get(this.rid) if isinstance(this, Ptr) else None
                    for y, v in (self.lv(e, x) if t.endswith("&") else self.ev(e, x)):
                        o = y.mem.get(this.rid)
                        rid = o.f.get(i["field"])
                        if rid is not None:
                            if t.endswith("&"):
                                y.w(this.rid).f[i["field"]] = v.rid if isinstance(v, Ptr) else rid
                            elif isinstance(v, Ptr) and v.rid in y.mem and isinstance(y.mem[v.rid], (Obj, Vec)) and not t.endswith("*") and "_ptr<" not in t:
                                y.w(this.rid).f[i["field"]] = v.rid
                            else:
                                self.store(Ptr(rid), t, v, y, e)
                        nxt.append(y)
                else:
                    c = e
                    while c and c["k"] == "cast":
                        c = c["e"]
                    if c and c["k"] == "ctor":
                        bf = self.p.lookup(c["f"])
                        if bf is not None and bf.get("b"):
                            for y, vals in self.argvals(c["a"], bf, x):
                                for z, _ in self.call(bf, this, vals, y, c):
                                    nxt.append(z)
                            continue
                    nxt.append(x)
            sts = nxt
        return sts

    # ---------------------------------------------------------------- entry
    def run(self, fn, this, vals, st=None):
        st = st or St()
        self.frames = []
        return list(self.call(fn, this, vals, st, None))


class Loc:
    """Result of a model that is a reference."""
    def __init__(self, p):
        self.p = p


class Cmp:
    """A comparison not decided yet."""
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def go(self, ip, st):
        op, d = self.op, self.b - self.a
        if op in ("==", "!="):
            for s, t in ip.decide(d, 0, 0, st):
                yield s, t == (op == "==")
        elif op == "<":
            yield from ip.decide(d, 1, None, st)
        elif op == "<=":
            yield from ip.decide(d, 0, None, st)
        elif op == ">":
            yield from ip.decide(d, None, -1, st)
        else:
            yield from ip.decide(d, None, 0, st)

    def __eq__(self, o):
        return isinstance(o, Cmp) and (self.op, self.a, self.b) == (o.op, o.a, o.b)

    __hash__ = None


def veq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Unk):
        return False
    return a == b


def rng(t):
    t = cv(t)
    w = WID.get(t, 8)
    if t == "bool":
        return 0, 1
    if t in SIGNED:
        return -(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1
    return 0, (1 << (8 * w)) - 1


def family(vals, lo, x):
    """vals[i] for the index value lo+i as one expression of x: equal values, or powers linear in the index."""
    if all(v == vals[0] for v in vals):
        return vals[0]
    def shape(v):
        a = v.single()
        if a is None or a.kind not in ("mont", "mod"):
            return None
        q = a.a[1]
        if len(q.d) != 1:
            return None
        (m, c), = q.d.items()
        if c != 1 or any(not isinstance(e, int) for _, e in m):
            return None
        return a.kind, a.a[0], dict(m)
    ss = [shape(v) for v in vals]
    if any(s is None for s in ss):
        return None
    if len(ss) < 2:
        return vals[0]
    bases = set().union(*[set(s[2]) for s in ss])
    exps = {}
    for b in bases:
        e0, e1 = ss[0][2].get(b, 0), ss[1][2].get(b, 0)
        step = e1 - e0
        for i, s in enumerate(ss):
            if s[2].get(b, 0) != e0 + i * step:
                return None
        exps[b] = num(e0 - lo * step) + x.scale(step)
    kind, m, _ = ss[0]
    q = ONE
    for b, e in sorted(exps.items(), key=lambda i: i[0].n):
        q = q * power(pa(b), e)
    return mont(m, q) if kind == "mont" else mod(m, q)


# -------------------------------------------------------------------- models
MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def args(ip, e, st):
    return ip.evs([a for a in e["a"] if a["k"] != "defarg"], st)


LIMBS = {"256": 4, "4096": 64}


def _hacl(bits):
    n = LIMBS[bits] * 8
    R = 1 << (8 * n)
    pre = "Hacl_Bignum%s_" % bits

    def add(ip, e, st):
        for x, (a, b, r) in args(ip, e, st):
            s = ip.rd(a, n, x, e) + ip.rd(b, n, x, e)
            for y, c in ip.decide(s, R, None, x):
                ip.wr(r, n, s - num(R) if c else s, y, e)
                yield y, num(1 if c else 0)

    def sub(ip, e, st):
        for x, (a, b, r) in args(ip, e, st):
            s = ip.rd(a, n, x, e) - ip.rd(b, n, x, e)
            for y, c in ip.decide(s, None, -1, x):
                ip.wr(r, n, s + num(R) if c else s, y, e)
                yield y, num(1 if c else 0)

    def mul(ip, e, st):
        for x, (a, b, r) in args(ip, e, st):
            ip.wr(r, 2 * n, ip.rd(a, n, x, e) * ip.rd(b, n, x, e), x, e)
            yield x, None

    def sqr(ip, e, st):
        for x, (a, r) in args(ip, e, st):
            v = ip.rd(a, n, x, e)
            ip.wr(r, 2 * n, v * v, x, e)
            yield x, None

    def mod_(ip, e, st):
        for x, (m, a, r) in args(ip, e, st):
            M = ip.rd(m, n, x, e).const()
            v = ip.rd(a, 2 * n, x, e)
            if M is None:
                ip.wr(r, n, unk("modulus", 0, R - 1), x, e)
            else:
                ip.wr(r, n, modst(M, v, x), x, e)
            yield x, num(1 if M is None or M % 2 == 1 and M > 1 else 0)

    def mod_pre(ip, e, st):
        for x, (k, a, r) in args(ip, e, st):
            M = ctxmod(x, k)
            v = ip.rd(a, 2 * n, x, e, "read of a double-width number")
            ip.wr(r, n, unk("modulus", 0, R - 1) if M is None else modst(M, v, x), x, e)
            yield x, None

    def exp(ip, e, x, M, a, bb, b, r, kind):
        nb = bb.const() if isinstance(bb, Poly) else None
        if M is None or nb is None or nb <= 0:
            ip.wr(r, n, unk("exponentiation", 0, R - 1), x, e)
            return
        base = ip.rd(a, n, x, e)
        w = (nb + 63) // 64 * 8
        ev = ip.rd(b, w, x, e, "read of the exponent")
        lo, hi = x.bounds(ev)
        if hi >= 1 << nb:
            if nb % 8 == 0:
                ev = part(ev, 0, nb // 8)
            else:   # the low bits of the last byte
                k = nb // 8
                top = part(ev, k, 1)
                ev = part(ev, 0, k) + pa(atom("sel", (top, 0, tuple(num(i % (1 << (nb % 8))) for i in range(256))), 0, (1 << (nb % 8)) - 1)).scale(1 << (8 * k))
        lo, hi = x.bounds(base)
        if hi >= M:
            ip.events.append(("base", ip.where(e), base))
        ip.events.append(("exp", ip.where(e), kind, ev))
        ip.wr(r, n, mod(M, power(residp(base, M), ev)), x, e)

    def mexp(kind):
        def f(ip, e, st):
            for x, (m, a, bb, b, r) in args(ip, e, st):
                M = ip.rd(m, n, x, e).const()
                if M is None:
                    exp(ip, e, x, M, a, bb, b, r, kind)
                    yield x, num(1)
                    continue
                for y, t in ip.decide(ip.rd(a, n, x, e), None, M - 1, x):
                    if t:
                        exp(ip, e, y, M, a, bb, b, r, kind)
                    else:   # a base that is not reduced is refused
                        ip.wr(r, n, num(0), y, e)
                    yield y, num(1 if t else 0)
        return f

    def mexp_pre(kind):
        def f(ip, e, st):
            for x, (k, a, bb, b, r) in args(ip, e, st):
                exp(ip, e, x, ctxmod(x, k), a, bb, b, r, kind)
                yield x, None
        return f

    def minv(ip, e, st):
        """a^(M-2) for a prime M; refused (result zero) for zero."""
        for x, (m, a, r) in args(ip, e, st):
            M = ip.rd(m, n, x, e).const()
            v = ip.rd(a, n, x, e)
            if M is None or x.bounds(v)[1] >= M:
                ip.wr(r, n, unk("inverse", 0, R - 1), x, e)
                yield x, num(1)
                continue
            for y, t in ip.decide(v, 0, 0, x):
                ip.wr(r, n, num(0) if t else mod(M, power(v, num(M - 2))), y, e)
                yield y, num(0 if t else 1)

    def ctx(ip, e, st):
        for x, (m,) in args(ip, e, st):
            yield x, Ptr(x.new(Val(("ctx", ip.rd(m, n, x, e).const()))))

    def frombytes(be):
        def f(ip, e, st):
            for x, (ln, b) in args(ip, e, st):
                c = x.pinned(ln) if isinstance(ln, Poly) else None
                if c is None:
                    yield x, Unk("from bytes of unknown length")
                    continue
                if c == 0:
                    yield x, NULLP
                    continue
                v = ip.rd(b, c, x, e)
                reg = Bytes((c + 7) // 8 * 8)
                reg.write(0, (c + 7) // 8 * 8, rev(v, c) if be else v)
                yield x, Ptr(x.new(reg))
        return f

    def tobytes(be):
        def f(ip, e, st):
            for x, (b, r) in args(ip, e, st):
                v = ip.rd(b, n, x, e)
                ip.wr(r, n, rev(v, n) if be else v, x, e)
                yield x, None
        return f

    def lt(ip, e, st):
        for x, (a, b) in args(ip, e, st):
            va, vb = ip.rd(a, n, x, e), ip.rd(b, n, x, e)
            for y, t in ip.decide(vb - va, 1, None, x):
                yield y, num((1 << 64) - 1 if t else 0)

    def eqm(ip, e, st):
        for x, (a, b) in args(ip, e, st):
            va, vb = ip.rd(a, n, x, e), ip.rd(b, n, x, e)
            for y, t in ip.decide(vb - va, 0, 0, x):
                yield y, num((1 << 64) - 1 if t else 0)

    def add_mod(sign):
        def f(ip, e, st):
            for x, (m, a, b, r) in args(ip, e, st):
                M = ip.rd(m, n, x, e).const()
                va, vb = ip.rd(a, n, x, e), ip.rd(b, n, x, e)
                if M is None or x.bounds(va)[1] >= M or x.bounds(vb)[1] >= M:
                    ip.events.append(("range", ip.where(e), va))
                    ip.wr(r, n, unk("mod add", 0, R - 1), x, e)
                else:
                    ip.wr(r, n, modst(M, va + vb.scale(sign), x), x, e)
                yield x, None
        return f

    for nm, f in (("add", add), ("sub", sub), ("mul", mul), ("sqr", sqr), ("mod", mod_), ("mod_precomp", mod_pre),
                  ("mod_exp_consttime", mexp("const")), ("mod_exp_vartime", mexp("var")),
                  ("mod_exp_consttime_precomp", mexp_pre("const")), ("mod_exp_vartime_precomp", mexp_pre("var")),
                  ("mod_inv_prime_vartime", minv), ("mont_ctx_init", ctx), ("new_bn_from_bytes_be", frombytes(True)), ("new_bn_from_bytes_le", frombytes(False)),
                  ("bn_to_bytes_be", tobytes(True)), ("bn_to_bytes_le", tobytes(False)), ("lt_mask", lt), ("eq_mask", eqm),
                  ("add_mod", add_mod(1)), ("sub_mod", add_mod(-1))):
        MODELS[pre + nm] = f


def residp(v, M):
    return resid(v, M)


def ctxmod(st, k):
    r = st.mem.get(k.rid) if isinstance(k, Ptr) else None
    if isinstance(r, Val) and isinstance(r.v, tuple) and r.v[0] == "ctx":
        return r.v[1]
    return None


def modst(M, v, st):
    """v mod M in this state: a known or already reduced value stays as it is."""
    c = st.pinned(v)
    if c is not None:
        return num(c % M)
    lo, hi = st.bounds(v)
    if lo >= 0 and hi < M:
        return v
    return mod(M, v)


_hacl("256")
_hacl("4096")


@model("Hacl_GenericField64_field_init")
def _field(ip, e, st):
    for x, (ln, m) in args(ip, e, st):
        c = ln.const() if isinstance(ln, Poly) else None
        yield x, Ptr(x.new(Val(("ctx", ip.rd(m, 8 * c, x, e).const() if c else None))))


def unmont(M, v):
    """The residue v is the Montgomery form of."""
    q = v.single()
    if q is not None and q.kind == "mont" and q.a[0] == M:
        return q.a[1]
    return resid(v.scale(pow(pow(2, 64 * ((M.bit_length() + 63) // 64), M), -1, M)), M)


@model("Hacl_GenericField64_to_field")
def _tof(ip, e, st):
    for x, (k, a, r) in args(ip, e, st):
        M = ctxmod(x, k)
        ip.wr(r, 512, mont(M, ip.rd(a, 512, x, e)) if M else unk("field", 0, 1 << 4096), x, e)
        yield x, None


@model("Hacl_GenericField64_from_field")
def _fromf(ip, e, st):
    for x, (k, a, r) in args(ip, e, st):
        M = ctxmod(x, k)
        ip.wr(r, 512, mod(M, unmont(M, ip.rd(a, 512, x, e))) if M else unk("field", 0, 1 << 4096), x, e)
        yield x, None


@model("Hacl_GenericField64_mul")
def _fmul(ip, e, st):
    for x, (k, a, b, r) in args(ip, e, st):
        M = ctxmod(x, k)
        ip.wr(r, 512, mont(M, unmont(M, ip.rd(a, 512, x, e)) * unmont(M, ip.rd(b, 512, x, e))) if M else unk("field", 0, 1 << 4096), x, e)
        yield x, None


@model("Hacl_GenericField64_sqr")
def _fsqr(ip, e, st):
    for x, (k, a, r) in args(ip, e, st):
        M = ctxmod(x, k)
        v = unmont(M, ip.rd(a, 512, x, e)) if M else None
        ip.wr(r, 512, mont(M, v * v) if M else unk("field", 0, 1 << 4096), x, e)
        yield x, None


@model("Hacl_GenericField64_add", "Hacl_GenericField64_sub")
def _fadd(ip, e, st):
    for x, (k, a, b, r) in args(ip, e, st):
        M = ctxmod(x, k)
        if M:
            u, v = unmont(M, ip.rd(a, 512, x, e)), unmont(M, ip.rd(b, 512, x, e))
        ip.wr(r, 512, mont(M, u + v if e["n"].endswith("add") else u - v) if M else unk("field", 0, 1 << 4096), x, e)
        yield x, None


@model("Hacl_GenericField64_one")
def _fone(ip, e, st):
    for x, (k, r) in args(ip, e, st):
        M = ctxmod(x, k)
        ip.wr(r, 512, mont(M, ONE) if M else unk("field", 0, 1 << 4096), x, e)
        yield x, None


@model("memcpy", "memmove", "std::memcpy", "std::memmove", "__builtin_memcpy", "__builtin_memmove")
def _memcpy(ip, e, st):
    for x, (d, s, n) in args(ip, e, st):
        c = x.pinned(n) if isinstance(n, Poly) else None
        if c is None:
            ip.bound(d, n if isinstance(n, Poly) else unk("size"), x, e, "write")
            ip.bound(s, n if isinstance(n, Poly) else unk("size"), x, e, "read")
            if isinstance(d, Ptr) and d.rid in x.mem and isinstance(x.mem[d.rid], Bytes):
                r = x.w(d.rid)
                r.offs, r.segs, r.zero = [], {}, False
        else:
            ip.copybytes(d, s, c, x, e)
        yield x, d


@model("memset", "std::memset", "__builtin_memset", "Lib_Memzero0_memzero", "explicit_bzero")
def _memset(ip, e, st):
    for x, vs in args(ip, e, st):
        d, n = vs[0], vs[-1]
        val = vs[1] if len(vs) == 3 else ZERO
        c = x.pinned(n) if isinstance(n, Poly) else None
        ip.events.append(("wipe", ip.where(e), d, c))
        if c is None:
            ip.bound(d, n if isinstance(n, Poly) else unk("size"), x, e, "write")
        elif isinstance(val, Poly) and val.const() is not None:
            b = val.const() & 255
            ip.wr(d, c, num(int.from_bytes(bytes([b]) * c, "little")), x, e)
        yield x, None


@model("std::copy", "std::copy_n")
def _copy(ip, e, st):
    es = [a for a in e["a"] if a["k"] != "defarg"]
    for x, (a, b, d) in ip.evs(es, st):
        if e["n"].startswith("std::copy_n") and isinstance(a, Ptr) and isinstance(b, Poly):
            w = ip.ty.width(deref(es[0].get("t", ""), ip)) or 1
            b, d2 = Ptr(a.rid, a.off + b.scale(w)), d
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and isinstance(d, Ptr):
            n = (b.off - a.off).const()
            sw = ip.ty.width(deref(es[0].get("t", ""), ip)) or 0
            dw = ip.ty.width(deref(es[2].get("t", ""), ip)) or sw
            if n is not None and sw == dw:
                if n < 0:
                    raise AnalysisBroken("copy of a negative range")
                if n:
                    ip.copybytes(d, a, n, x, e)
                yield x, Ptr(d.rid, d.off + num(n))
                continue
            if n is not None and sw and dw:
                for i in range(n // sw):
                    v = ip.rd(Ptr(a.rid, a.off + num(i * sw)), sw, x, e)
                    ip.wr(Ptr(d.rid, d.off + num(i * dw)), dw, v if sw <= dw else part(v, 0, dw), x, e)
                yield x, Ptr(d.rid, d.off + num(n // sw * dw))
                continue
        ip.note("copy")
        yield x, Unk("copy")


def compared(a, b):
    """memcmp(...) compared with 0."""
    while a["k"] in ("cast", "paren"):
        a = a["e"]
    while b["k"] in ("cast", "paren"):
        b = b["e"]
    if b["k"] == "int" and int(b["v"]) == 0 and a["k"] == "call" and (a.get("n") or "") in ("memcmp", "std::memcmp", "__builtin_memcmp", "bcmp"):
        return a
    return None


@model("std::equal")
def _equal(ip, e, st):
    es = [a for a in e["a"] if a["k"] != "defarg"]
    for x, vs in ip.evs(es, st):
        if 3 <= len(vs) <= 4 and all(isinstance(v, Ptr) for v in vs) and vs[0].rid == vs[1].rid:
            n = (vs[1].off - vs[0].off).const()
            m = (vs[3].off - vs[2].off).const() if len(vs) == 4 else n
            w = ip.ty.width(deref(es[0].get("t", ""), ip))
            if n is not None and n == m and n >= 0 and w and w == ip.ty.width(deref(es[2].get("t", ""), ip)):
                for y, same in ip.decide(ip.rd(vs[0], n, x, e) - ip.rd(vs[2], n, x, e), 0, 0, x):
                    yield y, num(int(same))
                continue
        ip.note("equal")
        yield x, Unk("equal")


def deref(t, ip):
    t = cv(t)
    el = ip.ty.elem(t)
    if el:
        return el[0]
    if t.endswith("*"):
        return cv(t[:-1])
    m = re.search(r"__normal_iterator<([^,]*)\*", t)
    if m:
        return cv(m.group(1))
    return ""


@model("*::begin", "*::end", "*::cbegin", "*::cend", "*::data")
def _begin(ip, e, st):
    o = e["o"] if e.get("o") is not None else e["a"][0]
    end = strip_targs(e["n"]).endswith("end")
    for x, p in ip.lv(o, st):
        t = unref(cv(o.get("t", "")))
        r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
        if isinstance(r, Vec) and r.w:
            yield x, Ptr(r.data, num(r.n * r.w if end else 0)) if r.n is not None else Unk("iterator")
        elif ip.ty.elem(t) and isinstance(p, Ptr):
            w = ip.ty.width(t)
            yield x, Ptr(p.rid, p.off + num(w if end else 0))
        else:
            yield x, Unk("iterator")


@model("std::reverse")
def _reverse(ip, e, st):
    for x, (a, b) in args(ip, e, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            n = (b.off - a.off).const()
            w = ip.ty.width(deref(e["a"][0].get("t", ""), ip))
            if n is not None and w == 1:
                ip.wr(a, n, rev(ip.rd(a, n, x, e), n), x, e)
                yield x, None
                continue
            if n is not None and w:
                vs = [ip.rd(Ptr(a.rid, a.off + num(i)), w, x, e) for i in range(0, n, w)]
                for i, v in enumerate(reversed(vs)):
                    ip.wr(Ptr(a.rid, a.off + num(i * w)), w, v, x, e)
                yield x, None
                continue
        ip.note("reverse")
        yield x, None


@model("std::reverse_copy")
def _reversec(ip, e, st):
    for x, (a, b, d) in args(ip, e, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            n = (b.off - a.off).const()
            w = ip.ty.width(deref(e["a"][0].get("t", ""), ip))
            if n is not None and w:
                vs = [ip.rd(Ptr(a.rid, a.off + num(i)), w, x, e) for i in range(0, n, w)]
                for i, v in enumerate(reversed(vs)):
                    ip.wr(Ptr(d.rid, d.off + num(i * w)), w, v, x, e)
        yield x, None


@model("std::fill", "std::fill_n")
def _fill(ip, e, st):
    for x, (a, b, v) in args(ip, e, st):
        w = ip.ty.width(deref(e["a"][0].get("t", ""), ip))
        n = None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            n = (b.off - a.off).const()
        elif isinstance(a, Ptr) and isinstance(b, Poly) and b.const() is not None and w:
            n = b.const() * w
        if n is not None and w and isinstance(v, Poly):
            for i in range(0, n, w):
                ip.wr(Ptr(a.rid, a.off + num(i)), w, v, x, e)
        yield x, None


@model("*::size", "*::length")
def _size(ip, e, st):
    o = e["o"] if e.get("o") is not None else e["a"][0]
    for x, p in ip.lv(o, st):
        r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
        el = ip.ty.elem(unref(cv(o.get("t", ""))))
        if isinstance(r, Vec):
            yield x, num(r.n if r.w else len(r.items)) if r.n is not None else unk("size")
        elif el and el[1] is not None:
            yield x, num(el[1])
        else:
            yield x, unk("size")


@model("*::empty")
def _emptyv(ip, e, st):
    for x, p in ip.lv(e["o"], st):
        r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
        if isinstance(r, Vec) and r.n is not None:
            yield x, num(1 if (r.n if r.w else len(r.items)) == 0 else 0)
        else:
            yield x, Unk("empty")


@model("*::operator[]", "*::at")
def _idx(ip, e, st):
    t = unref(cv(e["o"].get("t", "")))
    for x, p in ip.lv(e["o"], st):
        for y, i in ip.ev(e["a"][0], x):
            r = y.mem.get(p.rid) if isinstance(p, Ptr) else None
            el = ip.ty.elem(t)
            if isinstance(r, Val) and isinstance(r.v, Ptr) and "_ptr<" in t and isinstance(i, Poly):
                w = ip.ty.width(unref(cv(e["t"])))
                yield y, Loc(Ptr(r.v.rid, r.v.off + i.scale(w)) if w else Unk("index"))
                continue
            if isinstance(r, Vec) and r.w and isinstance(i, Poly):
                yield y, Loc(Ptr(r.data, i.scale(r.w)))
            elif isinstance(r, Vec) and isinstance(i, Poly) and i.const() is not None and i.const() < len(r.items):
                q = r.items[i.const()]
                yield y, Loc(q)
            elif el and isinstance(p, Ptr) and isinstance(i, Poly):
                w = ip.ty.width(el[0])
                lo, hi = y.bounds(i)
                if el[1] is not None and (lo < 0 or hi >= el[1]):
                    fn, line = ip.where(e)
                    ip.oob.setdefault((fn["n"], "index", known(i)), (fn, line, "index %r of an array of %d" % (i, el[1])))
                yield y, Loc(Ptr(p.rid, p.off + i.scale(w)))
            else:
                yield y, Loc(Unk("index"))


@model("*::front", "*::back")
def _front(ip, e, st):
    for x, p in ip.lv(e["o"], st):
        r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
        if isinstance(r, Vec) and r.w and r.n:
            yield x, Loc(Ptr(r.data, num(0 if strip_targs(e["n"]).endswith("front") else (r.n - 1) * r.w)))
        else:
            yield x, Loc(Unk("front"))


@model("*::push_back", "*::emplace_back")
def _push(ip, e, st):
    for x, p in ip.lv(e["o"], st):
        for y, vs in args(ip, e, x):
            r = y.mem.get(p.rid) if isinstance(p, Ptr) else None
            if isinstance(r, Vec) and r.w and r.n is not None:
                r = y.w(p.rid)
                d = y.w(r.data)
                d.size = (r.n + 1) * r.w
                v = vs[0]
                if isinstance(v, Poly):
                    lo, hi = y.bounds(v)
                    if hi >> (8 * r.w) or lo < 0:
                        v = part(v, 0, r.w)
                ip.wr(Ptr(r.data, num(r.n * r.w)), r.w, v if isinstance(v, Poly) else unk("pushed"), y, e)
                r.n += 1
            elif isinstance(r, Vec):
                y.w(p.rid).items.append(vs[0] if vs else Unk("emplaced"))
            yield y, None


@model("*::reserve", "*::clear", "*::shrink_to_fit")
def _vmisc(ip, e, st):
    for x, p in ip.lv(e["o"], st):
        r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
        if isinstance(r, Vec) and e["n"].endswith("::clear"):
            r = x.w(p.rid)
            r.n, r.items = 0, []
            if r.data is not None:
                r.data = x.new(Bytes(0))
        yield x, None


@model("*::resize")
def _resize(ip, e, st):
    for x, p in ip.lv(e["o"], st):
        for y, vs in args(ip, e, x):
            r = y.mem.get(p.rid) if isinstance(p, Ptr) else None
            c = vs[0].const() if vs and isinstance(vs[0], Poly) else None
            if isinstance(r, Vec) and r.w and c is not None:
                r = y.w(p.rid)
                d = y.w(r.data)
                d.size = c * r.w
                for o in [o for o in d.offs if o >= d.size]:
                    d.offs.remove(o)
                    d.segs.pop(o)
                r.n = c
            yield y, None


@model("ctor:std::vector")
def _vctor(ip, e, st):
    t = cv(e["cls"] if "<" in e["cls"] else e["t"])
    et = targ(t)[0]
    w = ip.ty.width(et)
    es = [a for a in e["a"] if a["k"] != "defarg"]
    if len(es) == 1 and cv(es[0].get("t", "")).startswith("std::vector<"):
        for x, p in ip.lv(es[0], st):
            if e.get("cp") == "move" or not isinstance(p, Ptr) or p.rid not in x.mem:
                yield x, p
                continue
            rid = ip.alloc(t, x)
            ip.copyreg(rid, p.rid, x)
            yield x, Ptr(rid)
        return
    for x, vs in ip.evs(es, st):
        rid = ip.alloc(t, x)
        v = x.mem[rid]
        if not vs or not w:
            if vs:
                v.n = None if w else 0
            yield x, Ptr(rid)
            continue
        if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].rid == vs[1].rid:
            n = (vs[1].off - vs[0].off).const()
            if n is not None and n >= 0:
                v.n = n // w
                v.data = x.new(Bytes(n))
                ip.copybytes(Ptr(v.data), vs[0], n, x, e)
                yield x, Ptr(rid)
                continue
        c = x.pinned(vs[0]) if isinstance(vs[0], Poly) else None
        if c is not None:
            v.n = c
            v.data = x.new(Bytes(c * w))
            if len(vs) > 1 and isinstance(vs[1], Poly) and vs[1].const() != 0:
                for i in range(c):
                    ip.wr(Ptr(v.data, num(i * w)), w, vs[1], x, e)
            yield x, Ptr(rid)
            continue
        v.n = None
        v.data = x.new(Bytes(None, zero=False))
        yield x, Ptr(rid)


@model("*::operator->", "*::get", "*::release")
def _arrow(ip, e, st):
    o = e["o"] if e.get("o") is not None else e["a"][0]
    for x, v in ip.ev(o, st):
        if isinstance(v, It):
            m = x.mem[v.m].v
            yield x, Ptr(m[v.key]) if v.key in m else Unk("end")
            continue
        if isinstance(v, Ptr) and v.rid in x.mem and isinstance(x.mem[v.rid], Val) and "variant" in e.get("n", ""):
            yield x, x.mem[v.rid].v
        else:
            yield x, v


@model("*::operator*")
def _star(ip, e, st):
    for x, v in ip.ev(e["o"] if e.get("o") is not None else e["a"][0], st):
        yield x, Loc(v)


@model("*::operator bool")
def _obool(ip, e, st):
    for x, v in ip.ev(e["o"], st):
        for y, b in ip.truth(v, x):
            yield y, num(1 if b else 0)


@model("std::swap", "*::swap")
def _swap(ip, e, st):
    es = ([e["o"]] if e.get("o") is not None else []) + e["a"]
    for x, p in ip.lv(es[0], st):
        for y, q in ip.lv(es[1], x):
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.rid in y.mem and q.rid in y.mem and p.off == q.off == ZERO:
                y.mem[p.rid], y.mem[q.rid] = y.mem[q.rid], y.mem[p.rid]
            elif isinstance(p, Ptr) and isinstance(q, Ptr):
                w = ip.ty.width(es[0].get("t", ""))
                if w:
                    a, b = ip.rd(p, w, y, e), ip.rd(q, w, y, e)
                    ip.wr(p, w, b, y, e)
                    ip.wr(q, w, a, y, e)
                else:
                    ip.note("swap")
            yield y, None


@model("*::operator=")
def _assign(ip, e, st):
    es = ([e["o"]] if e.get("o") is not None else []) + e["a"]
    for x, v in ip.ev(es[1], st):
        for y, p in ip.lv(es[0], x):
            ip.store(p, es[0].get("t", ""), v, y, e)
            yield y, Loc(p)


@model("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof")
def _ident(ip, e, st):
    for x, p in ip.lv(e["a"][0], st):
        yield x, Loc(p) if not strip_targs(e["n"]).endswith("addressof") else p


@model("__builtin_bswap64", "__builtin_bswap32", "__builtin_bswap16", "__bswap_64", "__bswap_32", "htobe64", "be64toh",
       "__uint64_identity", "__uint32_identity", "__uint16_identity")
def _bswap(ip, e, st):
    n = 8 if "64" in e["n"] else 4 if "32" in e["n"] else 2
    for x, (v,) in args(ip, e, st):
        yield x, v if "identity" in e["n"] else rev(v, n) if isinstance(v, Poly) else unk("bswap")


@model("malloc", "calloc", "std::malloc", "aligned_alloc")
def _malloc(ip, e, st):
    for x, vs in args(ip, e, st):
        n = vs[-1] if len(vs) == 1 else (vs[0] * vs[1] if all(isinstance(v, Poly) for v in vs) else None)
        c = x.pinned(n) if isinstance(n, Poly) else None
        yield x, Ptr(x.new(Bytes(c, zero="calloc" in e["n"])))


@model("free", "std::free", "Hacl_Bignum256_mont_ctx_free", "Hacl_Bignum4096_mont_ctx_free")
def _free(ip, e, st):
    for x, vs in args(ip, e, st):
        yield x, None


def _silent(ip, e, st):
    yield st, None


for _n in ("trace", "debug", "info", "warn", "error", "fatal", "log"):
    MODELS["electionguard::Log::" + _n] = _silent


@model("std::holds_alternative")
def _holds(ip, e, st):
    m = re.search(r"holds_alternative<#\*?\$((?:@[A-Z]+@\w+)+)#", e.get("f") or "")
    want = re.findall(r"@(?:N|S|ST)@(\w+)", m.group(1))[-1] if m else None
    for x, v in ip.ev(e["a"][0], st):
        o = x.mem.get(v.rid) if isinstance(v, Ptr) else None
        if want and isinstance(o, Obj):
            yield x, ONE if o.cls.split("::")[-1] == want else ZERO
        else:
            yield x, Unk("alternative")


@model("std::to_string", "std::operator+", "ctor:std::basic_string", "ctor:std::out_of_range", "ctor:std::runtime_error",
       "ctor:std::invalid_argument", "ctor:std::bad_alloc", "ctor:std::overflow_error", "ctor:std::logic_error", "ctor:std::range_error")
def _text(ip, e, st):
    es = [a for a in e["a"] if a["k"] != "defarg"]
    if e["k"] == "ctor" and len(es) == 1:
        for x, v in ip.ev(es[0], st):
            yield x, v
        return
    yield st, Str("text")


# -------------------------------------------------------------------- texts and the table of fixed bases
class It:
    def __init__(self, m, key):
        self.m, self.key = m, key

    def __eq__(self, o):
        return isinstance(o, It) and (self.m, self.key) == (o.m, o.key)

    def __hash__(self):
        return hash((self.m, self.key))


@model("electionguard::bytes_to_hex", "electionguard::vector_uint8_t_to_hex", "electionguard::byte_string_to_hex")
def _hex(ip, e, st):
    for x, p in ip.lv(e["a"][0], st):
        r = x.mem.get(p.rid) if isinstance(p, Ptr) else None
        if isinstance(r, Vec) and r.w == 1 and r.n is not None:
            yield x, Str("hex", rev(ip.rd(Ptr(r.data), r.n, x, e), r.n) if r.n else ZERO, r.n)
            continue
        w = ip.ty.width(unref(cv(e["a"][0].get("t", ""))))
        if isinstance(p, Ptr) and w:
            yield x, Str("hex", rev(ip.rd(p, w, x, e), w), w)
        else:
            yield x, Str("unknown", unk("hex"))


@model("std::basic_string::substr")
def _substr(ip, e, st):
    for x, v in ip.ev(e["o"], st):
        for y, vs in args(ip, e, x):
            cs = [q.const() if isinstance(q, Poly) else None for q in vs]
            if isinstance(v, Str) and v.kind == "hex" and v.n and None not in cs:
                a = cs[0] if cs else 0
                b = min(2 * v.n, a + cs[1]) if len(cs) > 1 else 2 * v.n
                yield y, v if (a, b) == (0, 2 * v.n) else Str("partof", "the hexadecimal digits %d to %d of %d" % (a, b, 2 * v.n), v.key())
                continue
            yield y, Str("part of a text", v.key() if isinstance(v, Str) else unk("text"), tuple(vs))


def _mapobj(ip, e, x, o):
    """The map region (created on first use)."""
    r = x.mem.get(o.rid) if isinstance(o, Ptr) else None
    if isinstance(r, Val) and isinstance(r.v, dict):
        return r
    if isinstance(r, Val):
        r = x.w(o.rid)
        r.v = {}
        return r
    return None


def _maptype(t):
    t = unref(cv(t))
    a = targ(t)
    v = a[1]
    if "_ptr<" in v:
        v = targ(v)[0]
    return v.rstrip("* ")


def _lookup(ip, e, x, o, key, t):
    """Yields (state, region of the entry or None): an entry that is already there was made for the base the key stands for."""
    r = _mapobj(ip, e, x, o)
    if r is None or not isinstance(key, Str):
        raise AnalysisBroken("map of an unknown kind")
    if key in r.v:
        yield x, r.v[key]
        return
    cls = _maptype(t)
    yield x.fork(), None
    if key.kind != "hex":
        ip.events.append(("key", ip.where(e), key))
        return
    y = x.fork()
    ctors = [f for f in ip.p.fn(strip_targs(cls) + "::" + strip_targs(cls).split("::")[-1]) if f.get("ctor") and len(f["ps"]) == 1 and cv(f["ps"][0]["t"]).endswith("*")]
    if not ctors:
        raise AnalysisBroken("no constructor of the table")
    reg = Bytes(512)
    reg.write(0, 512, key.v)
    a = y.new(reg)
    rid = ip.alloc(cls, y, init=False)
    for z, _ in ip.call(ctors[0], Ptr(rid), [Ptr(a)], y, e):
        q = z.new(Val(Ptr(rid)))
        m = z.w(o.rid)
        m.v = dict(m.v)
        m.v[key] = q
        yield z, q


@model("std::map::find", "std::unordered_map::find")
def _mfind(ip, e, st):
    for x, o in ip.lv(e["o"], st):
        for y, (k,) in args(ip, e, x):
            for z, q in _lookup(ip, e, y, o, k, e["o"]["t"]):
                yield z, It(o.rid, k if q is not None else None)


@model("std::map::count", "std::unordered_map::count", "std::map::contains")
def _mcount(ip, e, st):
    for x, o in ip.lv(e["o"], st):
        for y, (k,) in args(ip, e, x):
            for z, q in _lookup(ip, e, y, o, k, e["o"]["t"]):
                yield z, num(1 if q is not None else 0)


@model("std::map::end", "std::unordered_map::end", "std::map::cend")
def _mend(ip, e, st):
    for x, o in ip.lv(e["o"], st):
        yield x, It(o.rid if isinstance(o, Ptr) else None, None)


@model("std::map::operator[]", "std::unordered_map::operator[]", "std::map::at", "std::unordered_map::at")
def _mix(ip, e, st):
    for x, o in ip.lv(e["o"], st):
        for y, (k,) in args(ip, e, x):
            for z, q in _lookup(ip, e, y, o, k, e["o"]["t"]):
                if q is None:
                    q = z.new(Val(NULLP))
                    m = z.w(o.rid)
                    m.v = dict(m.v)
                    m.v[k] = q
                yield z, Loc(Ptr(q))


@model("std::map::emplace", "std::unordered_map::emplace", "std::map::insert", "std::map::try_emplace", "std::map::insert_or_assign",
       "std::unordered_map::insert", "std::unordered_map::try_emplace", "std::map::emplace_hint")
def _memplace(ip, e, st):
    for x, o in ip.lv(e["o"], st):
        for y, vs in args(ip, e, x):
            if len(vs) == 1 and isinstance(vs[0], tuple):
                k, v = vs[0]
            elif len(vs) == 2:
                k, v = vs
            else:
                raise AnalysisBroken("insertion of an unknown kind")
            r = _mapobj(ip, e, y, o)
            if r is None or not isinstance(k, Str):
                raise AnalysisBroken("map of an unknown kind")
            if k not in r.v or "assign" in e["n"]:
                q = y.new(Val(v))
                m = y.w(o.rid)
                m.v = dict(m.v)
                m.v[k] = q
            yield y, (It(o.rid, k), num(1))


@model("ctor:std::pair", "std::make_pair")
def _pair(ip, e, st):
    for x, vs in args(ip, e, st):
        if len(vs) == 2:
            yield x, tuple(vs)
        else:
            yield x, vs[0] if vs else Unk("pair")


@model("std::operator==", "std::operator!=", "*::operator==", "*::operator!=")
def _iteq(ip, e, st):
    es = ([e["o"]] if e.get("o") is not None else []) + e["a"]
    ne = strip_targs(e["n"]).endswith("!=")
    for x, (a, b) in ip.evs(es, st):
        if isinstance(a, It) and isinstance(b, It):
            yield x, num(1 if (a.key == b.key) != ne else 0)
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            yield x, num(1 if (a == b) != ne else 0)
        else:
            yield x, Unk("comparison")
