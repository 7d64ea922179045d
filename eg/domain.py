"""ElectionGuard-specific configuration of the value-numbering engine."""
import os

from .interp import Interp
from .models import val, MODELS
from .prog import strip_targs
from .terms import *

# functions that are the vocabulary of the terms (not looked into); any other function is
_VOCAB = frozenset(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.txt")).read().split("\n")) - {""}


def vocab(name, fn):
    return strip_targs(name) in _VOCAB


def _elem_eq(ip, e, st):
    xs = [val(ip, x, st) for x in ([e["o"]] if e.get("o") is not None else []) + e["a"]]
    a, b = ip.reify(xs[0], st), ip.reify(xs[1], st)
    op = e.get("op") or strip_targs(e["n"]).split("operator")[-1]
    return ip.binop(op, a, b)


def _first(ip, e, st):
    x = e["o"] if e.get("o") is not None else e["a"][0]
    return ip.eval(x, st)


def _assign(ip, e, st):
    return MODELS["*::operator="](ip, e, st)


DOMAIN_MODELS = {}
for c in ("ElementModP", "ElementModQ"):
    for op in ("==", "!=", "<", ">", "<=", ">="):
        DOMAIN_MODELS["electionguard::%s::operator%s" % (c, op)] = _elem_eq
        DOMAIN_MODELS["electionguard::operator%s" % op] = _elem_eq
    DOMAIN_MODELS["electionguard::%s::clone" % c] = _first
    DOMAIN_MODELS["electionguard::%s::operator=" % c] = _assign
DOMAIN_MODELS["electionguard::variant_cast"] = _first
DOMAIN_MODELS["electionguard::references"] = _first


def _vproxy(ip, e, st):
    return ip.eval(e["o"], st)


def _proxy_conv(ip, e, st):
    v = ip.eval(e["o"], st)
    return v


NONEMPTY = None


FRESH = ("electionguard::rand_q", "electionguard::rand_p", "electionguard::getSystemTimestamp",
         "electionguard::Random::getBytes", "electionguard::PrecomputeBufferContext::getTriple",
         "electionguard::PrecomputeBufferContext::getTwoTriplesAndAQuadruple",
         "electionguard::PrecomputeBuffer::getTriple", "electionguard::PrecomputeBuffer::getTwoTriplesAndAQuadruple")


def make(prog, opaque=(), models=None, inline_vocab=False, reveal=(), **kw):
    """reveal: vocabulary functions that are looked into after all."""
    kw.setdefault("fresh", FRESH)
    reveal = set(reveal)
    pred = (lambda n, f: vocab(n, f) and strip_targs(n) not in reveal) if reveal else vocab
    m = dict(DOMAIN_MODELS)
    if models:
        m.update(models)
    return Interp(prog, opaque=set(opaque), opaque_pred=None if inline_vocab else pred, models=m, **kw)


def short(t, n=400):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "..."
