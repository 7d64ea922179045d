"""Which exceptions leave a function: a flow-insensitive, type-based summary over the call graph, with try/catch."""
from .prog import strip_targs, walk

ATS = ("std::out_of_range",)
LIB = {}
for _c in ("std::vector", "std::map", "std::unordered_map", "std::basic_string", "std::array", "std::deque"):
    LIB[_c + "::at"] = ATS
for _f in ("stoi", "stol", "stoll", "stoul", "stoull", "stod", "stof", "stold"):
    LIB["std::" + _f] = ("std::invalid_argument", "std::out_of_range")
LIB["std::optional::value"] = ("std::bad_optional_access",)
LIB["std::any_cast"] = ("std::bad_any_cast",)
LIB["std::wstring_convert::from_bytes"] = LIB["std::wstring_convert::to_bytes"] = ("std::range_error",)
for _m in ("parse", "get", "get_to", "at", "from_bson", "from_msgpack", "from_cbor", "from_ubjson", "to_bson", "dump", "value",
           "operator basic_string", "operator "):
    LIB["nlohmann::basic_json::" + _m] = ("nlohmann::detail::exception",)

STD_BASE = {"std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
            "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
            "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error",
            "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
            "std::bad_cast": "std::exception", "std::bad_any_cast": "std::bad_cast", "std::bad_optional_access": "std::exception",
            "std::bad_variant_access": "std::exception", "std::bad_function_call": "std::exception", "std::future_error": "std::logic_error",
            "nlohmann::detail::exception": "std::exception"}
for _n in ("parse_error", "type_error", "out_of_range", "invalid_iterator", "other_error"):
    STD_BASE["nlohmann::detail::" + _n] = "nlohmann::detail::exception"


def base_type(t):
    t = strip_targs(t or "")
    for w in ("const ", "volatile ", "class ", "struct "):
        t = t.replace(w, "")
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


class Throws:
    """sum[usr]: {(type, origin): (line, next)} -- what can leave the function, where it starts, and through which call."""

    def __init__(self, p):
        self.p = p
        self.bases = dict(STD_BASE)
        self.derived = {}
        for n, r in p.records.items():
            for b in r.get("bases") or []:
                self.derived.setdefault(b, set()).add(n)
            for b in (r.get("bases") or [])[:1]:
                self.bases.setdefault(n, b)
        self.over = {}
        self.ctors = {}
        self.calls = {}
        for f in p.funcs.values():
            if f.get("ctor"):
                self.ctors.setdefault(f["cls"], []).append(f)
            for o in f.get("ovr") or []:
                self.over.setdefault(o if isinstance(o, str) else o.get("u"), []).append(f)
        self.excluded = []
        self.sum = {}
        self.solve()

    def catches(self, h, t):
        if h.get("all"):
            return True
        ht = base_type(h.get("t"))
        if t.endswith("]") or t.endswith("*"):
            return ht.replace(" ", "") in ("char*",) and "char" in t
        x, n = t, 0
        while x and n < 12:
            if x == ht:
                return True
            x, n = self.bases.get(x), n + 1
        return False

    def leaves(self, cls):
        out, todo = set(), [cls]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, ()):
                if d not in out:
                    out.add(d)
                    todo.append(d)
        return out

    def dispatch(self, g):
        """The functions a virtual call may reach: every overrider, and g itself if a class below does not override it."""
        ov, todo = [], [g["u"]]
        while todo:
            for f in self.over.get(todo.pop(), ()):
                if f not in ov:
                    ov.append(f)
                    todo.append(f["u"])
        have = {f["cls"] for f in ov}
        bare = [c for c in self.leaves(g["cls"]) if c not in have and not any(c in self.leaves(h) for h in have)]
        return ov + ([g] if bare or not ov else [])

    def callees(self, n, fn):
        k = n.get("k")
        if k not in ("call", "ctor"):
            return (), None
        key = (fn["u"], id(n))
        r = self.calls.get(key)
        if r is not None:
            return r
        out = []
        u = n.get("f")
        g = self.p.lookup(u, fn.get("file")) if u else None
        nm = n.get("n")
        if not isinstance(nm, str):
            nm = ""
        if g is not None and (g.get("b") is not None or g.get("inits")):
            out = self.dispatch(g) if n.get("virt") and g.get("virtual") else [g]
        elif nm.startswith(("std::make_unique", "std::make_shared")):
            t = n.get("t", "")
            t = t[t.find("<") + 1:]
            d = 1
            for i, c in enumerate(t):
                d += {"<": 1, ">": -1}.get(c, 0)
                if d == 0 or d == 1 and c == ",":
                    t = t[:i]
                    break
            na = len(n.get("a") or [])
            for c in self.ctors.get(t, ()):
                req = sum(1 for q in c["ps"] if not q.get("d"))
                if req <= na <= len(c["ps"]):
                    out.append(c)
        r = self.calls[key] = (tuple(out), strip_targs(nm))
        return r

    def constant(self, n, depth=0):
        """Does the expression depend on nothing but constants of the source?"""
        if isinstance(n, list):
            return all(self.constant(x, depth) for x in n)
        if not isinstance(n, dict) or depth > 30:
            return not isinstance(n, dict)
        k = n.get("k")
        if k in ("int", "bool", "str", "null", "sizeof", "float"):
            return True
        if k == "ref":
            if n.get("dk") == "enum" or n.get("dk") == "func":
                return True
            g = self.p.globals.get(n.get("u"))
            return g is not None and (g.get("t") or "").startswith("const ")
        if k in ("cast", "defarg", "paren"):
            return self.constant(n.get("e"), depth + 1)
        if k in ("ctor", "init", "bin", "un"):
            return all(self.constant(v, depth + 1) for kk, v in n.items() if isinstance(v, (dict, list)))
        if k == "call" and n.get("o") is None:
            return self.constant(n.get("a"), depth + 1)
        return False

    def num(self, n):
        """Value of a constant expression, or None."""
        if not isinstance(n, dict):
            return None
        k = n.get("k")
        if k in ("int", "sizeof") or k == "ref" and n.get("dk") == "enum":
            return int(n["v"])
        if k in ("cast", "defarg", "paren"):
            return self.num(n.get("e"))
        if k == "ref":
            g = self.p.globals.get(n.get("u"))
            return self.num(g["i"]) if g is not None and (g.get("t") or "").startswith("const ") and g.get("i") is not None else None
        if k == "bin":
            a, b = self.num(n["a"]), self.num(n["b"])
            if a is None or b is None:
                return None
            return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else None}.get(n["op"])
        return None

    def sites_of(self, g):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for f in self.p.funcs.values():
                for n in walk([f.get("b"), f.get("inits")]):
                    if n.get("k") in ("call", "ctor") and n.get("f"):
                        self._callers.setdefault(n["f"], []).append((f, n))
        return self._callers.get(g["u"], [])

    def never(self, cond, fn, want):
        """Is the condition settled to the other value by the constants every caller passes?"""
        c = cond
        while isinstance(c, dict) and c.get("k") in ("cast", "paren"):
            c = c["e"]
        if isinstance(c, dict) and c.get("k") == "un" and c.get("op") == "!":
            return self.never(c["e"], fn, not want)
        if not isinstance(c, dict):
            return False
        if c.get("k") == "call":
            g = self.p.lookup(c.get("f"), fn.get("file")) if c.get("f") else None
            return g is not None and c.get("o") is None and c["a"] != [] and self.constant(c["a"])
        if c.get("k") != "bin" or c.get("op") not in ("<=", "<", ">", ">=", "==", "!="):
            return False
        b = self.num(c["b"])
        a = c["a"]
        while isinstance(a, dict) and a.get("k") in ("cast", "paren"):
            a = a["e"]
        if b is None or a.get("k") != "ref":
            return False
        ix = next((i for i, q in enumerate(fn["ps"]) if q.get("id") == a.get("id") or q["n"] == a.get("n")), None)
        if ix is None:
            return False
        cs = self.sites_of(fn)
        if not cs:
            return False
        for f, n in cs:
            v = self.num(n["a"][ix]) if ix < len(n["a"]) else None
            if v is None:
                return False
            r = {"<=": v <= b, "<": v < b, ">": v > b, ">=": v >= b, "==": v == b, "!=": v != b}[c["op"]]
            if r == want:
                return False
        return True

    def exhausted(self, n):
        """An if-else chain over all the alternatives of a variant: its last else is never reached."""
        seen, nalt, x = set(), None, n
        while isinstance(x, dict) and x.get("k") == "if":
            c = x["c"]
            while isinstance(c, dict) and c.get("k") in ("cast", "paren"):
                c = c["e"]
            if not (isinstance(c, dict) and c.get("k") == "call" and (c.get("n") or "").startswith("std::holds_alternative")):
                return None
            seen.add(c.get("f"))
            t = c["a"][0].get("t", "")
            t = t[t.find("variant<") + 8:t.rfind(">")]
            d, nalt = 0, 1
            for ch in t:
                d += {"<": 1, ">": -1}.get(ch, 0)
                nalt += ch == "," and d == 0
            last, x = x, x.get("b")
            while isinstance(x, dict) and x.get("k") == "block" and len(x.get("c") or []) == 1 and x["c"][0].get("k") == "if":
                x = x["c"][0]
        return last if len(seen) == nalt else None

    def given(self, n, fn):
        """A string made from a pointer a C caller gave (null: logic_error), a vector as long as a C caller says (too long: length_error)."""
        if not fn["n"].startswith("eg_") or n.get("cp"):
            return None
        a = [x for x in n.get("a") or [] if x.get("k") != "defarg"]

        def param(x):
            while isinstance(x, dict) and x.get("k") in ("cast", "paren"):
                x = x["e"]
            return isinstance(x, dict) and x.get("k") == "ref" and x.get("dk") == "param"
        if n.get("cls") == "std::basic_string" and len(a) == 1 and "char *" in a[0].get("t", "") and param(a[0]):
            return "std::logic_error"
        if n.get("cls") == "std::vector" and len(a) == 2 and any(x.get("k") == "bin" and param(x["b"]) for x in a):
            return "std::length_error"
        return None

    def scan(self, fn):
        dead = set()

        def go(n, active):
            out = {}
            if isinstance(n, list):
                for x in n:
                    for t, s in go(x, active).items():
                        out.setdefault(t, s)
                return out
            if not isinstance(n, dict):
                return out
            k = n.get("k")
            if k == "try":
                inner = go(n["b"], active)
                left = dict(inner)
                caught = [{} for _ in n["h"]]
                for key, s in inner.items():
                    for i, h in enumerate(n["h"]):
                        if key[0] != "terminate" and self.catches(h, key[0]):
                            caught[i][key] = s
                            left.pop(key, None)
                            break
                out.update(left)
                for h, c in zip(n["h"], caught):
                    for t, s in go(h["b"], dict(c)).items():
                        out.setdefault(t, s)
                return out
            if k == "throw":
                where = "%s:%s" % (fn["n"], n.get("l"))
                if n.get("e") is None:
                    if active is None:
                        out[("terminate", where)] = (n.get("l"), None)
                    else:
                        out.update(active)
                    return out
                for t, s in go(n["e"], active).items():
                    out.setdefault(t, s)
                out.setdefault((base_type(n["e"].get("t")), where), (n.get("l"), None))
                return out
            if k in ("lam", "lambda"):
                return out
            if k == "decl":
                for v in n.get("vars") or []:
                    if v.get("static") and self.constant(v.get("i")):
                        continue        # the same on every run, whatever the input
                    for t, s in go(v.get("i"), active).items():
                        out.setdefault(t, s)
                return out
            if k == "if":
                e = self.exhausted(n)
                if e is not None:
                    dead.add(id(e))
                for part in ("i", "c", "a", "b"):
                    if part == "b" and (id(n) in dead or n.get("b") is not None and self.never(n["c"], fn, False)):
                        continue
                    if part == "a" and self.never(n["c"], fn, True):
                        continue
                    for t, s in go(n.get(part), active).items():
                        out.setdefault(t, s)
                for key in n:
                    if key not in ("i", "c", "a", "b") and isinstance(n[key], (dict, list)):
                        for t, s in go(n[key], active).items():
                            out.setdefault(t, s)
                return out
            for key, v in n.items():
                if isinstance(v, (dict, list)):
                    for t, s in go(v, active).items():
                        out.setdefault(t, s)
            t = self.given(n, fn) if k == "ctor" else None
            if t:
                out.setdefault((t, "construction from what the caller gave at %s:%s" % (fn["n"], n.get("l"))), (n.get("l"), None))
            cs, nm = self.callees(n, fn)
            for g in cs:
                for t in self.sum.get(g["u"], ()):
                    out.setdefault(t, (n.get("l"), g["u"]))
            if nm in LIB and not cs:
                for t in LIB[nm]:
                    out.setdefault((t, "%s at %s:%s" % (nm, fn["n"], n.get("l"))), (n.get("l"), None))
            return out
        res = go(fn.get("b"), None)
        for i in fn.get("inits") or []:
            for t, s in go(i, None).items():
                res.setdefault(t, s)
        return {k: v for k, v in res.items() if k[0] != "std::bad_alloc"}

    def solve(self):
        fs = [f for f in self.p.funcs.values() if f.get("b") is not None or f.get("inits")]
        for f in fs:
            self.sum[f["u"]] = {}
        callers = {}
        for f in fs:
            for n in walk([f.get("b"), f.get("inits")]):
                for g in self.callees(n, f)[0]:
                    callers.setdefault(g["u"], {})[f["u"]] = f
        todo = {f["u"]: f for f in fs}
        n = 0
        while todo and n < 60:
            n += 1
            nxt = {}
            for f in todo.values():
                r = self.scan(f)
                old = self.sum[f["u"]]
                if set(r) - set(old):
                    for t, s in r.items():
                        old.setdefault(t, s)
                    nxt.update(callers.get(f["u"], {}))
            todo = nxt
        self.rounds = n

    def chain(self, f, t):
        out, seen = [], set()
        u = f["u"]
        while u and u not in seen:
            seen.add(u)
            s = self.sum.get(u, {}).get(t)
            g = self.p.funcs.get(u)
            if s is None:
                break
            out.append("%s:%s" % (g["n"].replace("electionguard::", ""), s[0]))
            u = s[1]
        return out
