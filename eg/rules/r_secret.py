"""C16: secrets do not reach log lines, exception texts or output streams."""
import re

from ..check import check
from ..prog import AnalysisBroken, strip_targs

EG = "electionguard::"
DATA = {EG + "ElementModP", EG + "ElementModQ", EG + "ByteSize"}

# What is secret, by the public interface alone: results of these functions ...
RESULTS = {
    "PlaintextBallotSelection::getVote": "a vote",
    "CiphertextBallotSelection::getNonce": "the nonce of a selection",
    "CiphertextBallotContest::getNonce": "the nonce of a contest",
    "CiphertextBallot::getNonce": "the nonce of a ballot",
    "CompactCiphertextBallot::getNonce": "the nonce of a ballot",
    "CiphertextBallot::nonceSeed": "the nonce seed of a ballot",
    "ElGamalKeyPair::getSecretKey": "a secret key",
    "ElGamalCiphertext::decrypt": "a decrypted value",
    "HashedElGamalCiphertext::decrypt": "a decrypted text",
    "Triple::get_exp": "a precomputed nonce",
    "Quadruple::get_exp1": "a precomputed nonce",
    "Quadruple::get_exp2": "a precomputed nonce",
    "Nonces::get": "a nonce",
    "Nonces::next": "a nonce",
    "rand_q": "a random exponent",
    "Random::getBytes": "random bytes",
    "get_hmac": "a session key",
    "PlaintextBallot::toJson": "a plaintext ballot",
    "PlaintextBallot::toBson": "a plaintext ballot",
    "PlaintextBallot::toMsgPack": "a plaintext ballot",
    "CompactCiphertextBallot::toBson": "a ballot with its nonce",
    "CompactCiphertextBallot::toMsgPack": "a ballot with its nonce",
    "CompactPlaintextBallot::getSelections": "votes",
}
# ... and arguments of these functions: (function, type of the parameter, its position among the parameters of that type)
Q, N = "ElementModQ", "unsigned long"
PARAMS = [
    ("elgamalEncrypt", N, 0, "a vote"),
    ("elgamalEncrypt", Q, 0, "a nonce"),
    ("elgamalEncrypt_with_precomputed", N, 0, "a vote"),
    ("hashedElgamalEncrypt", Q, 0, "a nonce"),
    ("hashedElgamalEncrypt", "vector", 0, "a plaintext"),
    ("ElGamalKeyPair::fromSecret", Q, 0, "a secret key"),
    ("ElGamalKeyPair::ElGamalKeyPair", Q, 0, "a secret key"),
    ("ElGamalCiphertext::decrypt", Q, 0, "a secret key"),
    ("HashedElGamalCiphertext::decrypt", Q, 0, "a secret key"),
    ("DisjunctiveChaumPedersenProof::make", Q, 0, "a nonce"),
    ("DisjunctiveChaumPedersenProof::make", N, 0, "a vote"),
    ("ConstantChaumPedersenProof::make", Q, 0, "a nonce"),
    ("ConstantChaumPedersenProof::make", Q, 1, "the seed of a proof"),
    ("encryptSelection", Q, 1, "the seed of the nonces"),
    ("encryptContest", Q, 1, "the seed of the nonces"),
    ("encryptContests", Q, 0, "the seed of the nonces"),
    ("encryptBallot", Q, 1, "the seed of the nonces"),
    ("encryptCompactBallot", Q, 1, "the seed of the nonces"),
    ("PlaintextBallotSelection::PlaintextBallotSelection", N, 0, "a vote"),
    ("get_hmac", "vector", 0, "a session key"),
]
# A secret is not recognisable in what these compute from it.
PUBLISH = {"g_pow_p", "pow_mod_p", "a_plus_bc_mod_q", "a_minus_bc_mod_q"}
COUNTS = {"size", "length", "empty", "capacity", "max_size", "isInBounds", "isFixedBase", "isValidResidue", "count", "operator bool", "use_count", "has_value"}
PASS = {"hash_elems"}
PRINT = {"printf", "fprintf", "puts", "fputs", "putchar", "fwrite", "write", "perror", "syslog", "std::printf", "std::fprintf", "std::puts", "std::fputs", "vprintf"}
STREAMS = ("std::cout", "std::cerr", "std::clog", "std::wcout", "std::wcerr")


def short(n):
    return strip_targs(n or "").replace(EG, "")


def carries(t):
    """Whether a value of this type can be a secret (or hold one): anything but the library's own composite classes."""
    if "variant<" in (t or ""):
        return True
    names = set(re.findall(r"electionguard::[\w:]+", t or ""))
    return names <= DATA


class Taint:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.sum = {}
        self.busy = set()
        self.hits = {}
        self.sinks = 0
        self.calls = 0
        self.fields = self.secret_fields()

    # ---- what is secret
    def secret_fields(self):
        out = {}
        for g, what in RESULTS.items():
            if "::get" not in g or g.split("::")[0] in ("Nonces", "Random"):
                continue
            for f in self.p.fn(EG + g):
                for e in walk(f.get("b")):
                    if e["k"] == "mem" and not e.get("call") and carries(e.get("t")) and e["m"] != "pimpl" and "Impl>" not in (e.get("t") or ""):
                        out[e["n"]] = what
        for n, r in self.p.records.items():
            if strip_targs(n).startswith(EG + "Nonces"):
                for x in r.get("fields", ()):
                    if "ElementModQ" in x["t"]:
                        out[x["n"]] = "the seed of the nonces"
        return out

    def given(self, fn):
        """{position: label} of the secret parameters of a function of the public interface."""
        out = {}
        n = short(fn["n"])
        for name, t, k, what in PARAMS:
            if n != name:
                continue
            i = -1
            for j, q in enumerate(fn["ps"]):
                if (t in q["t"] if t != N else re.sub(r"\bconst\b", "", q["t"]).replace("&", "").strip() == N):
                    i += 1
                    if i == k:
                        out[j] = what
                        break
        return out

    # ---- functions
    def summary(self, fn):
        u = fn["u"]
        if u in self.sum:
            return self.sum[u]
        s = {"ret": set(), "out": {}, "sink": []}
        self.sum[u] = s
        for _ in range(2):
            w = Walk(self, fn, s)
            w.go()
        return s


def walk(n):
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def strip(e):
    while True:
        if e["k"] == "cast" or e["k"] == "paren":
            e = e["e"]
        elif e["k"] == "un" and e["op"] in ("*", "&"):
            e = e["e"]
        elif e["k"] == "call" and short(e.get("n")).split("::")[-1] in ("move", "forward", "get", "operator*", "operator->", "ref", "cref", "release", "clone", "as_const", "data", "front", "c_str", "toHex", "toBytes") and (e.get("o") or len(e.get("a", ())) == 1):
            e = e.get("o") or e["a"][0]
        elif e["k"] == "ctor" and len([a for a in e["a"] if a["k"] != "defarg"]) == 1:
            e = [a for a in e["a"] if a["k"] != "defarg"][0]
        else:
            return e


class Walk:
    def __init__(self, T, fn, s):
        self.T, self.fn, self.s = T, fn, s
        self.env = {}
        self.always = {}
        secret = T.given(fn)
        for i, q in enumerate(fn["ps"]):
            self.env[q["id"]] = {("p", i)} if carries(q["t"]) else set()
            if i in secret:
                self.always.setdefault(q["id"], set()).add(secret[i])
        self.pid = {q["id"]: i for i, q in enumerate(fn["ps"]) if "&" in q["t"] or "*" in q["t"]}
        # what is handed over as a secret is one
        for e in walk(fn.get("b")):
            if e["k"] in ("call", "ctor"):
                g = self.target(e)
                if g is None:
                    continue
                for i, what in T.given(g).items():
                    if i < len(e["a"]):
                        a = strip(e["a"][i])
                        if a["k"] == "ref" and a.get("dk") in ("local", "param") and carries(a.get("t")):
                            self.always.setdefault(a["id"], set()).add(what)

    def target(self, e):
        if e["k"] == "call" and e.get("mk"):
            return self.T.p.lookup(e["ctor"]) if e.get("ctor") else None
        return self.T.p.lookup(e.get("f", ""), self.fn.get("file")) or self.T.p.lookup(e.get("f", ""))

    def go(self):
        for i in self.fn.get("inits", ()) or ():
            self.expr(i.get("e") or i.get("i"))
        self.stmt(self.fn.get("b"))

    # ---- statements
    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s["k"]
        if k == "block":
            for c in s["c"]:
                self.stmt(c)
        elif k == "decl":
            for v in s["vars"]:
                self.put(v["id"], self.expr(v.get("i")) if carries(v.get("t")) else (self.expr(v.get("i")), set())[1])
        elif k == "if":
            self.stmt(s.get("init"))
            if s.get("cv"):
                self.put(s["cv"]["id"], self.expr(s["cv"].get("i")))
            self.expr(s.get("c"))
            e0 = self.copy()
            self.stmt(s.get("a"))
            e1, self.env = self.env, e0
            self.stmt(s.get("b"))
            self.join(e1)
        elif k in ("for", "while", "do"):
            self.stmt(s.get("init"))
            for _ in range(2):
                e0 = self.copy()
                self.expr(s.get("c"))
                self.stmt(s.get("b"))
                self.expr(s.get("inc"))
                self.join(e0)
        elif k == "rfor":
            r = self.expr(s["r"])
            v = s["v"]
            for _ in range(2):
                e0 = self.copy()
                self.put(v["id"], r if carries(v.get("t")) else set())
                self.stmt(s["b"])
                self.join(e0)
        elif k == "ret":
            r = self.expr(s.get("e"))
            if carries(self.fn.get("rt")) and self.fn.get("rt") not in ("bool", "void"):
                self.s["ret"] |= r
        elif k == "throw":
            self.throw(s)
        elif k == "try":
            e0 = self.copy()
            self.stmt(s["b"])
            self.join(e0)
            for h in s["h"]:
                e1 = self.copy()
                self.stmt(h.get("b") if "b" in h else h)
                self.join(e1)
        elif "k" in s:
            done = False
            for n in ("c", "b", "s", "body"):
                if isinstance(s.get(n), dict) and k in ("switch", "case", "default", "label"):
                    self.expr(s[n]) if n == "c" else self.stmt(s[n])
                    done = True
            if not done:
                self.expr(s)

    def copy(self):
        return {k: set(v) for k, v in self.env.items()}

    def join(self, o):
        for k, v in o.items():
            self.env[k] = self.env.get(k, set()) | v

    def put(self, i, v):
        self.env[i] = set(v)

    def add(self, e, v):
        """What e names takes on v."""
        e = strip(e)
        while e["k"] in ("sub", "mem") or e["k"] == "call" and e.get("o") is not None:
            e = strip(e.get("b") if e["k"] == "mem" else e.get("a") if e["k"] == "sub" else e["o"])
            if not isinstance(e, dict):
                return
        if e["k"] == "ref" and carries(e.get("t")):
            if e.get("id") in self.env:
                self.env[e["id"]] |= v
            if e.get("id") in self.pid:
                self.s["out"].setdefault(self.pid[e["id"]], set()).update(v)

    # ---- sinks
    def sink(self, labels, e, what):
        self.T.sinks += 1
        for x in labels:
            if isinstance(x, tuple):
                if (x[1], e.get("l"), what) not in [(a, b.get("l"), c) for a, b, c, _ in self.s["sink"]]:
                    self.s["sink"].append((x[1], e, what, self.fn))
            else:
                self.T.hits.setdefault((self.fn["n"], x, what), (self.fn, e.get("l"), x, what, None))

    def throw(self, s):
        e = s.get("e")
        if e is not None:
            self.sink(self.texts(e), s, "the text of an exception")

    def texts(self, e):
        """The labels of the parts of a thrown object."""
        e = e
        while e["k"] in ("cast", "paren"):
            e = e["e"]
        if e["k"] == "ctor":
            out = set()
            for a in e["a"]:
                out |= self.texts(a)
            return out
        return self.expr(e)

    # ---- expressions
    def expr(self, e):
        if not isinstance(e, dict):
            return set()
        k = e["k"]
        if k == "ref":
            out = set(self.env.get(e.get("id"), ())) | self.always.get(e.get("id"), set())
            return out if carries(e.get("t")) else set()
        if k == "mem":
            b = self.expr(e["b"])
            if e["n"] in self.T.fields:
                return {self.T.fields[e["n"]]}
            return b if carries(e.get("t")) and carries(e["b"].get("t")) else set()
        if k in ("call", "ctor"):
            return self.call(e)
        if k == "asg":
            r = self.expr(e["b"])
            a = strip(e["a"])
            if not carries(e["a"].get("t")):
                r = set()
            if a["k"] == "ref" and a.get("dk") in ("local", "param"):
                if e.get("op", "=") == "=" and e["a"]["k"] == "ref" and a.get("id") not in self.pid:
                    self.put(a["id"], r)
                else:
                    self.add(a, r)
            else:
                self.expr(e["a"])
                self.add(e["a"], r)
            return r
        if k == "lambda":
            e0 = self.copy()
            ret = self.s["ret"]
            self.s["ret"] = set()
            self.stmt(e.get("b"))
            self.s["ret"] = ret
            self.join(e0)
            return set()
        if k == "throw":
            self.throw(e)
            return set()
        if k == "bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            self.expr(e["a"])
            self.expr(e["b"])
            return set()
        if k == "un" and e["op"] == "!":
            self.expr(e["e"])
            return set()
        if k == "cond":
            self.expr(e["c"])
            return self.expr(e.get("a")) | self.expr(e.get("b"))
        if k == "sub":
            self.expr(e["b"])
            return self.expr(e["a"])
        if k == "sizeof":
            return set()
        out = set()
        for n, v in e.items():
            if isinstance(v, dict) and "k" in v:
                out |= self.expr(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and "k" in x:
                        out |= self.expr(x)
        return out if carries(e.get("t")) and e.get("t") != "bool" else set()

    def call(self, e):
        self.T.calls += 1
        name = short(e.get("n"))
        last = name.split("::")[-1]
        o = e.get("o")
        ob = self.expr(o) if o else set()
        al = [self.expr(a) for a in e["a"]]
        allv = set().union(*al) if al else set()
        # sinks
        if name.startswith("Log::") and e["k"] == "call" or (e.get("n") or "").startswith("spdlog::") and last in ("trace", "debug", "info", "warn", "error", "critical", "log"):
            self.sink(allv, e, "a log line")
            return set()
        if (e.get("n") or "") in PRINT:
            self.sink(allv, e, "printed output")
            return set()
        if last == "operator<<" or e.get("op") == "<<":
            ops = ([o] if o else []) + list(e["a"])
            root = self.root(ops[0]) if ops else None
            if root is not None and ((root.get("n") or "") in STREAMS or "ofstream" in (root.get("t") or "") or "fstream" in (root.get("t") or "")):
                vals = (al if o else al[1:])
                self.sink(set().union(*vals) if vals else set(), e, "an output stream")
                return set()
            vals = al if o else al[1:]
            v = set().union(*vals) if vals else set()
            if ops:
                self.add(ops[0], v)
            return ob | v | (al[0] if al and not o else set())
        # sources
        r = RESULTS.get(name)
        if name in ("CiphertextBallot::toJson", "CiphertextBallot::toBson", "CiphertextBallot::toMsgPack") and e["a"] and e["a"][0]["k"] != "defarg" and e["a"][0].get("v") not in (False, 0, "0", "false"):
            r = "a ballot with its nonces"
        fn = self.target(e)
        if r is not None:
            for i, a in enumerate(al):
                self.into(e, fn, i, a)
            return {r}
        if name in PUBLISH or last in COUNTS or (e.get("t") or "") == "bool":
            return set()
        if name in PASS:
            return allv
        if fn is not None and (fn.get("b") is not None) and not (fn.get("cls") or "") in DATA and fn["n"].startswith((EG, "eg_", "hacl::")) or fn is not None and fn.get("b") is not None and not fn["n"].startswith("std::") and not (fn.get("cls") or "") in DATA:
            s = self.T.summary(fn)
            out = set()
            for x in s["ret"]:
                if isinstance(x, tuple):
                    if x[1] < len(al):
                        out |= al[x[1]]
                else:
                    out.add(x)
            for i in range(len(al)):
                self.into(e, fn, i, al[i])
            for i, v in s["out"].items():
                if i < len(e["a"]):
                    w = set()
                    for x in v:
                        if isinstance(x, tuple):
                            w |= al[x[1]] if x[1] < len(al) else set()
                        else:
                            w.add(x)
                    self.add(e["a"][i], w)
            return out if carries(e.get("t")) else set()
        # library code: a value is what it is made of; a member function may change its object, copies their target
        if e["k"] == "call":
            if o is not None and not e.get("cm"):
                self.add(o, allv)
            elif o is None and last in ("memcpy", "memmove", "copy", "copy_n", "strcpy", "strncpy", "swap", "fill", "transform", "sprintf", "snprintf", "getline") and e["a"]:
                tgt = e["a"][-1] if last in ("copy", "transform", "copy_n") else e["a"][0]
                self.add(tgt, allv)
        return (ob | allv) if carries(e.get("t")) else set()

    def root(self, e):
        while isinstance(e, dict):
            if e["k"] in ("cast", "paren"):
                e = e["e"]
            elif e["k"] == "call" and (e.get("op") == "<<" or short(e.get("n")).endswith("operator<<")):
                e = e.get("o") or e["a"][0]
            else:
                return e
        return None

    def into(self, e, fn, i, labels):
        """Labels of argument i meet the sinks of the callee."""
        if fn is None or fn.get("b") is None:
            return
        for j, snk, what, g in self.T.summary(fn)["sink"]:
            if j != i:
                continue
            for x in labels:
                if isinstance(x, tuple):
                    if not any(a == x[1] and b is snk for a, b, _, _ in self.s["sink"]):
                        self.s["sink"].append((x[1], snk, what, g))
                else:
                    self.T.hits.setdefault((g["n"], x, what), (g, snk.get("l"), x, what, (self.fn, e.get("l"))))


@check("C16", "interprocedural information-flow analysis from the secrets of the public interface to log calls, exception texts and streams",
       "no value that is a nonce, seed, secret key, vote, plaintext or session key, or is computed from one other than by exponentiation or a proof's response, is an argument of a sink.")
def c16(ctx):
    T = Taint(ctx)
    if not T.fields:
        raise AnalysisBroken("no field behind the secret getters")
    n = 0
    for f in ctx.p.funcs.values():
        if f.get("b") is None or "karamel" in f.get("file", ""):
            continue
        T.summary(f)
        ctx.functions.add(f["n"])
        n += 1
    per = {}
    for (fn, x, what), (f, line, lab, w, via) in sorted(T.hits.items(), key=str):
        per[f["n"]] = True
        ctx.bad("%s: %s stays out of %s" % (short(f["n"]), lab, w), ctx.loc(f, line), "%s reaches %s%s" % (lab, w, " (called from %s)" % ctx.loc(*via) if via else ""),
                key="%s: %s in %s" % (f["n"], lab, w))
    for f in ctx.p.funcs.values():
        if f.get("b") is None or "karamel" in f.get("file", "") or f["n"] in per:
            continue
        k = sum(1 for e in walk(f["b"]) if e["k"] == "throw" or e["k"] == "call" and (short(e.get("n")).startswith("Log::") or e.get("op") == "<<"))
        if k:
            ctx.ok("%s: no secret reaches its %d log lines, exceptions and streams" % (short(f["n"]), k), ctx.loc(f))
    ctx.tally("functions with a body", n)
    ctx.tally("calls followed", T.calls)
    ctx.tally("sinks", T.sinks)
