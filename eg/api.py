"""Access to the public API of the code base by name (the only anchors the rules use)."""
import json
import os

from . import domain
from .alg import Canon
from .prog import AnalysisBroken, strip_targs
from .terms import *

EG = "electionguard::"
PRECOMP = [EG + "PrecomputeBufferContext::getTriple", EG + "PrecomputeBufferContext::getTwoTriplesAndAQuadruple",
           EG + "PrecomputeBufferContext::getQuad"]


def find(p, name, types=None, n=None):
    """The definition of a public function; types: substrings the parameter types must contain, in order."""
    fs = [f for f in p.fn(EG + name) if f.get("b") is not None or f.get("ctor")]
    if n is not None:
        fs = [f for f in fs if len(f["ps"]) == n]
    if types is not None:
        fs = [f for f in fs if len(f["ps"]) == len(types) and all(t in q["t"] for t, q in zip(types, f["ps"]))]
    if not fs:
        raise AnalysisBroken("public function %s%s has no definition" % (name, types or ""))
    # const / non-const overloads: either serves
    return fs[0]


_SIGS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sigs.json")))


def pnames(fn):
    """Parameter names by which the rules refer to positions (those of the pinned commit, if the signature is known)."""
    now = [q["n"] for q in fn["ps"]]
    old = _SIGS.get(fn["n"] + "(" + ";".join(q["t"] for q in fn["ps"]) + ")", now)
    return [o or n for o, n in zip(old, now)]


def finds(p, name):
    return [f for f in p.fn(EG + name) if f.get("b") is not None]


class Engine:
    def __init__(self, ctx, opaque=PRECOMP, **kw):
        self.ctx = ctx
        self.p = ctx.p
        self.opaque = list(opaque)
        self.kw = kw

    def ip(self):
        return domain.make(self.p, opaque=self.opaque, **self.kw)

    def run(self, fn, args=None, this=None, ip=None, S=None):
        """this may be a `new` record: its fields become the state of a fresh object."""
        ip = ip or self.ip()
        S = dict(S or {})
        this = self.load(ip, this, S)
        if args is None or isinstance(args, dict):
            args = dict(args or {})
            names = pnames(fn)
            miss = [k for k in args if k not in names]
            if miss:
                raise AnalysisBroken("%s has no parameter %s" % (fn["n"], miss))
            args = [args.get(n, sym(n)) for n in names]
        r = ip.run(fn, args=args, this=this, S=S)
        self.ctx.saw(ip)
        self.ctx.tally("value-numbering steps", ip.steps)
        return r

    def load(self, ip, obj, S):
        if obj is None or obj.op != "new":
            return obj
        o = ip.newobj(obj.a[0])
        for i in range(1, len(obj.a), 2):
            S[T("fld", o, obj.a[i])] = obj.a[i + 1]
        r = self.p.records.get(EG + obj.a[0]) or self.p.records.get(obj.a[0])
        S[T("fld", o, obj.a[0].split("::")[-1] + "::pimpl")] = o
        return o

    def make(self, cls, types, args):
        """Value built by the public constructor of cls with these parameter types."""
        fn = find(self.p, "%s::%s" % (cls, cls.split("::")[-1]), types)
        ip = self.ip()
        o = ip.newobj(cls)
        r = ip.run(fn, args=args, this=o)
        self.ctx.saw(ip)
        return ip.reify(o, r.st)

    def get(self, cls, getter, obj):
        """Value the public getter returns for obj."""
        fn = find(self.p, cls + "::" + getter, n=0)
        ip = self.ip()
        S = {}
        o = self.load(ip, obj, S)
        S.setdefault(T("fld", o, cls + "::pimpl"), o)
        r = ip.run(fn, this=o, S=S)
        self.ctx.saw(ip)
        return r.ret


def cond_true(r):
    """Condition under which a bool function returns true (normal completion)."""
    out = FALSE
    for pc, v, s, ln in r.rets:
        out = disj(out, conj(pc, v))
    return out


def ret_merge(r):
    return r.ret


def conj_list(c):
    return list(conjuncts(c))


def pre_models(p, key, full):
    """Precompute buffer: every take yields a bundle built by the public constructors for `key` (full) or none."""
    def build(ip, cls, types, args, st):
        fn = find(p, "%s::%s" % (cls, cls), types)
        o = ip.newobj(cls)
        ip.run_ctor(fn, o, args, st, None)
        return o

    def triple(ip, e, st):
        return build(ip, "Triple", ["ElementModP"], [key], st) if full else NULL

    def quad(ip, e, st):
        if not full:
            return NULL
        t1 = build(ip, "Triple", ["ElementModP"], [key], st)
        t2 = build(ip, "Triple", ["ElementModP"], [key], st)
        q = build(ip, "Quadruple", ["ElementModP"], [key], st)
        return build(ip, "TwoTriplesAndAQuadruple", ["Triple", "Triple", "Quadruple"], [t1, t2, q], st)
    return {EG + "PrecomputeBufferContext::getTriple": triple,
            EG + "PrecomputeBufferContext::getTwoTriplesAndAQuadruple": quad}
