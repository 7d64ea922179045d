"""The C interface owns what it says it owns: handle classes, lifetimes of what is handed out, release functions."""
import re

from ..check import check
from ..prog import walk, strip_targs
from .r_capi import cmap, cfuncs, flatn

HANDLE = re.compile(r"^(?:const )?(?:struct )?eg_(\w+?)_[st] ?((?:\*|const| )*)$")
ALLOC = {"malloc": "malloc", "calloc": "malloc", "strdup": "malloc", "strndup": "malloc", "realloc": "malloc",
         "__strdup": "malloc", "__builtin_malloc": "malloc"}
OWNED = {"new", "new[]", "malloc"}
POINTERS = {"get", "operator->", "operator*"}
INSIDE = {"at", "operator[]", "front", "back", "data", "c_str", "value", "operator*", "operator->", "begin", "end", "find",
          "first", "second", "top", "emplace_back", "value_or", "rbegin", "cbegin", "cend"}


def short(e):
    return strip_targs(e.get("n", "") or "")


def boxed(t, w):
    return t.startswith("std::" + w + "<") or t.startswith("const std::" + w + "<")


class Own:
    """Where the storage behind a pointer lives: the caller's from now on, borrowed, or gone on return.

    Origins are sets of ("new"|"new[]"|"malloc"|"borrow"|"null", detail), ("param", i), ("gone", what) and ("?", why).
    """

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.busy = set()
        self.sums = {}

    def vars(self, f):
        k = f["u"]
        if k not in self.memo:
            w, decl, rng = {}, {}, {}
            for n in walk(f["b"]):
                k2 = n.get("k")
                for v in n.get("vars", ()) if k2 == "decl" else ():
                    decl[v["id"]] = v
                    if v.get("i") is not None:
                        w.setdefault(v["id"], []).append(v["i"])
                if k2 == "rfor" and isinstance(n.get("v"), dict):
                    decl[n["v"]["id"]] = n["v"]
                    rng[n["v"]["id"]] = n.get("r") or n.get("e")
                if k2 == "asg" and n.get("op") == "=" and n["a"].get("k") == "ref":
                    w.setdefault(n["a"].get("id"), []).append(n["b"])
            self.memo[k] = (w, decl, rng)
        return self.memo[k]

    # the object an lvalue (or a temporary) denotes: where does it live?
    def lv(self, e, f, seen=()):
        k = e.get("k")
        if k == "ref":
            dk = e.get("dk")
            if dk in ("global", "static", "enum", "func"):
                return {("borrow", "static storage")}
            w, decl, rng = self.vars(f)
            i = e.get("id")
            if dk == "param":
                for q in f["ps"]:
                    if q["id"] == i:
                        return {("borrow", "caller's object")} if q["t"].rstrip().endswith("&") else {("gone", "parameter '%s'" % e["n"])}
                return {("?", "parameter")}
            v = decl.get(i)
            if v is None:
                return {("?", "variable " + str(e.get("n")))}
            if v["t"].rstrip().endswith("&"):
                if i in seen:
                    return set()
                src = [rng[i]] if i in rng else w.get(i, [])[:1]
                out = set()
                for s in src:
                    out |= self.lv(s, f, seen + (i,))
                return out or {("?", "reference " + v["n"])}
            return {("gone", "local '%s'" % v["n"])}
        if k == "this":
            return {("borrow", "this")}
        if k == "mem":
            if e.get("static"):
                return {("borrow", "static storage")}
            return self.ptr(e["b"], f, seen) if e.get("arrow") else self.lv(e["b"], f, seen)
        if k == "un" and e.get("op") == "*":
            return self.ptr(e["e"], f, seen)
        if k == "sub":
            t = e["a"].get("t", "")
            return self.lv(e["a"], f, seen) if "[" in t else self.ptr(e["a"], f, seen)
        if k == "cast":
            return self.lv(e["e"], f, seen)
        if k == "cond":
            return self.lv(e["a"], f, seen) | self.lv(e["b"], f, seen)
        if k == "call":
            n = short(e)
            m = n.rsplit("::", 1)[-1]
            o = e.get("o")
            if n.startswith("std::reference_wrapper::"):
                return {("borrow", "referred object")}
            if o is not None and n.startswith(("std::unique_ptr::", "std::shared_ptr::", "std::__shared_ptr")):
                return self.lv(o, f, seen) if not e.get("arrow") else self.ptr(o, f, seen)
            if n.startswith("std::move") or n.startswith("std::forward") or n in ("std::ref", "std::cref"):
                return self.lv(e["a"][0], f, seen) if e.get("a") else {("?", n)}
            if o is not None and n.startswith("std::"):
                base = self.ptr(o, f, seen) if e.get("arrow") else self.lv(o, f, seen)
                return base if m in INSIDE else {("?", n)}
            g = self.p.lookup(e.get("f", ""), f.get("file"))
            rt = g["rt"] if g else ""
            if rt.rstrip().endswith("&"):
                if o is not None:
                    base = self.ptr(o, f, seen) if e.get("arrow") else self.lv(o, f, seen)
                    return {("gone", "inside %s" % q[1]) if q[0] == "gone" else ("borrow", n) if q[0] in ("param", "borrow") else q
                            for q in base}
                return {("borrow", n)}
            if g:
                return {("gone", "temporary returned by %s" % n)}
            return {("?", n)}
        if k in ("ctor", "init", "str"):
            return {("borrow", "literal")} if k == "str" else {("gone", "temporary")}
        return {("?", str(k))}

    # what a pointer points to
    def ptr(self, e, f, seen=()):
        k = e.get("k")
        if k in ("null",) or k == "int" and str(e.get("v")) == "0":
            return {("null", "")}
        if k == "str":
            return {("borrow", "literal")}
        if k == "this":
            return {("borrow", "this")}
        if k == "new":
            return {("new[]" if e.get("arr") else "new", e.get("at", ""))}
        if k == "cast":
            i = e["e"]
            if "[" in i.get("t", "") and e.get("ck") == "ArrayToPointerDecay":
                return self.lv(i, f, seen)
            return self.ptr(i, f, seen)
        if k == "cond":
            return self.ptr(e["a"], f, seen) | self.ptr(e["b"], f, seen)
        if k == "un" and e.get("op") == "&":
            return self.lv(e["e"], f, seen)
        if k == "bin" and e.get("op") in ("+", "-"):
            return self.ptr(e["a"], f, seen)
        if k == "bin" and e.get("op") == ",":
            return self.ptr(e["b"], f, seen)
        if k == "asg":
            return self.ptr(e["b"], f, seen)
        if k == "ref":
            dk = e.get("dk")
            if "[" in e.get("t", ""):
                return self.lv(e, f, seen)
            if dk == "param":
                for j, q in enumerate(f["ps"]):
                    if q["id"] == e.get("id"):
                        return {("param", j)}
            if dk in ("global", "static"):
                return {("borrow", "static storage")}
            w, decl, rng = self.vars(f)
            i = e.get("id")
            if i in seen:
                return set()
            out = set()
            for s in w.get(i, []):
                out |= self.ptr(s, f, seen + (i,))
            out |= self.filled(f, i, seen)
            return out or {("?", "variable " + str(e.get("n")))}
        if k in ("mem", "sub") or k == "un" and e.get("op") == "*":
            # a pointer kept in some object: it is that object's
            base = self.lv(e, f, seen)
            return {("?", "pointer kept in a local")} if any(q[0] == "gone" for q in base) else {("borrow", "kept pointer")}
        if k == "call":
            n = short(e)
            m = n.rsplit("::", 1)[-1]
            o = e.get("o")
            if m in ALLOC and "::" not in n:
                return {(ALLOC[m], m)}
            if n.startswith("std::unique_ptr::") or n.startswith("std::shared_ptr::") or n.startswith("std::__shared_ptr"):
                if m == "release":
                    a = "[]" in re.sub(r"^std::unique_ptr<(.*?)(, std::default_delete.*)?>::release$", r"\1", e.get("n", ""))
                    return {("new[]" if a else "new", "release")}
                if m in POINTERS:
                    if o.get("k") == "call" and short(o).startswith("std::make_"):
                        return {("gone", "temporary owner")}
                    return self.ptr(o, f, seen) if e.get("arrow") and m == "get" and False else self.lv(o, f, seen)
            if n.startswith("std::reference_wrapper::"):
                return {("borrow", "referred object")}
            if o is not None and n.startswith("std::") and m in INSIDE:
                # a pointer into, or kept in, a standard container
                base = self.ptr(o, f, seen) if e.get("arrow") else self.lv(o, f, seen)
                if m in ("data", "c_str"):
                    return base
                return {("?", "pointer kept in a container")} if any(q[0] == "gone" for q in base) else base
            g = self.p.lookup(e.get("f", ""), f.get("file"))
            if g is not None and g.get("b") is not None and g["n"].find("::") < 0 or g is not None and g.get("b") is not None and (o is None):
                out = set()
                for q in self.result(g):
                    if q[0] == "param" and o is None and q[1] < len(e.get("a", ())):
                        out |= self.ptr(e["a"][q[1]], f, seen)
                    elif q[0] == "param":
                        out.add(("?", "argument of " + n))
                    else:
                        out.add(q)
                return out
            if g is not None and g["rt"].rstrip().endswith("*"):
                base = {("borrow", n)} if o is None else self.ptr(o, f, seen) if e.get("arrow") else self.lv(o, f, seen)
                res = self.result(g) if g.get("b") is not None else set()
                own = {q for q in res if q[0] in OWNED or q[0] == "gone"}
                return own | {("gone", "inside %s" % q[1]) if q[0] == "gone" else ("borrow", n) if q[0] in ("param", "borrow", "null") else q
                              for q in base}
            return {("?", n)}
        if k == "defarg":
            return self.ptr(e["e"], f, seen) if isinstance(e.get("e"), dict) else {("?", "default")}
        return {("?", str(k))}

    def filled(self, f, i, seen):
        """What calls that are given the variable's address leave in it."""
        out = set()
        for n in walk(f["b"]):
            if n.get("k") != "call":
                continue
            for j, a in enumerate(n.get("a", ())):
                while a.get("k") == "cast":
                    a = a["e"]
                if a.get("k") == "un" and a.get("op") == "&" and a["e"].get("k") == "ref" and a["e"].get("id") == i:
                    g = self.p.lookup(n.get("f", ""), f.get("file"))
                    if g is None or g.get("b") is None or g["u"] in self.busy:
                        out.add(("?", "address given to " + short(n)))
                        continue
                    self.busy.add(g["u"])
                    for jj, o, l, ff in self.outs(g, 1):
                        if jj == j:
                            out |= {("?", "argument") if z[0] == "param" else z for z in o}
                    self.busy.discard(g["u"])
        return out

    def result(self, g):
        """Origins of what a function returns."""
        if g["u"] in self.sums:
            return self.sums[g["u"]]
        if g["u"] in self.busy:
            return set()
        self.busy.add(g["u"])
        out = set()
        for n in walk(g["b"]):
            if n.get("k") == "ret" and isinstance(n.get("e"), dict):
                out |= self.ptr(n["e"], g)
        self.busy.discard(g["u"])
        self.sums[g["u"]] = out
        return out

    def outs(self, f, depth=0):
        """(parameter index, written expression's origins, line, function) for every *out = e."""
        res = []
        if f.get("b") is None or depth > 4:
            return res
        for n in walk(f["b"]):
            k = n.get("k")
            if k == "asg" and n.get("op") == "=":
                l = n["a"]
                if l.get("k") == "un" and l.get("op") == "*" or l.get("k") == "sub":
                    b = l.get("e") or l.get("a")
                    while b.get("k") == "cast":
                        b = b["e"]
                    if b.get("k") == "ref" and b.get("dk") == "param" and l.get("t", "").rstrip().endswith("*"):
                        for j, q in enumerate(f["ps"]):
                            if q["id"] == b.get("id"):
                                res.append((j, self.ptr(n["b"], f), n.get("l"), f))
            elif k == "call" and e_is_repo(self.p, n, f):
                g = self.p.lookup(n["f"], f.get("file"))
                for j, a in enumerate(n.get("a", ())):
                    while a.get("k") == "cast":
                        a = a["e"]
                    if a.get("k") == "ref" and a.get("dk") == "param" and a.get("t", "").count("*") >= 2:
                        for i, q in enumerate(f["ps"]):
                            if q["id"] == a.get("id"):
                                for jj, o, l, ff in self.outs(g, depth + 1):
                                    if jj == j:
                                        o2 = set()
                                        for z in o:
                                            if z[0] == "param" and z[1] < len(n.get("a", ())):
                                                o2 |= self.ptr(n["a"][z[1]], f)
                                            else:
                                                o2.add(z)
                                        res.append((i, o2, l, ff))
        return res


def e_is_repo(p, n, f):
    g = p.lookup(n.get("f", ""), f.get("file"))
    return g is not None and g.get("b") is not None


# ---------------------------------------------------------------- what the headers promise

def contracts(root):
    """function -> {out parameter: "owned" | "borrowed"} as documented in the C headers."""
    import glob
    import os
    out = {}
    for h in sorted(glob.glob(os.path.join(root, "include/electionguard/*.h"))):
        txt = open(h, errors="replace").read()
        for m in re.finditer(r"/\*\*((?:[^*]|\*(?!/))*)\*/\s*(?:EG_API\s+)?[\w\s\*]*?\b(eg_\w+)\s*\(", txt):
            doc, name = m.group(1), m.group(2)
            doc = re.sub(r"\n\s*\*", "\n", doc)
            for q in re.finditer(r"@param\[out\]\s+(\w+)((?:(?!@\w).)*)", doc, re.S):
                t = " ".join(q.group(2).split()).lower()
                own = bool(re.search(r"caller is responsible|responsible for (?:the )?(?:object )?(?:lifecycle|freeing)", t))
                ref = bool(re.search(r"not owned by the caller|is a reference", t))
                if own != ref:
                    out.setdefault(name, {})[q.group(1)] = "owned" if own else "borrowed"
    return out


def contract(docs, f, q, decl):
    """The promise for out parameter q of f: documented, else by the naming the headers follow."""
    names = {q["n"]}
    if decl is not None:
        for a, b in zip(f["ps"], decl["ps"]):
            if a is q and isinstance(b, dict):
                names.add(b.get("n", ""))
    d = docs.get(f["n"], {})
    for n in names:
        if n in d:
            return d[n]
    if any(n.endswith("_ref") for n in names):
        return "borrowed" if f["n"].split("_get_")[0] != f["n"] or "selection_for" in f["n"] else None
    if "_get_" in f["n"] and HANDLE.match(q["t"]):
        return None
    if "linked_list" in f["n"] or q["t"].startswith("unsigned long"):
        return None
    return "owned"


# ---------------------------------------------------------------- storage given back once, and not used again

class Freed:
    """Typestate of local and parameter pointers: live, then released once, then not used."""

    def __init__(self, p, f, own):
        self.p, self.f, self.own = p, f, own
        self.bad = []
        self.releases = []
        self.thrown = None
        self.brk, self.cont = set(), set()

    @staticmethod
    def var(e):
        while isinstance(e, dict) and e.get("k") == "cast":
            e = e["e"]
        if isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") in ("local", "param"):
            return (e["id"], e["n"])
        return None

    def expr(self, n, sts):
        if isinstance(n, list):
            for x in n:
                sts = self.expr(x, sts)
            return sts
        if not isinstance(n, dict):
            return sts
        k = n.get("k")
        rel = None
        if k == "delete":
            rel = n["e"]
        elif k == "call" and short(n) == "free" and n.get("a"):
            rel = n["a"][0]
        if rel is not None:
            v = self.var(rel)
            if v is None:
                return self.expr(rel, sts)
            for s in sts:
                if v in s:
                    self.bad.append(("released twice", v[1], n.get("l")))
            return {s | {v} for s in sts}
        if k == "asg" and n.get("op") == "=" and self.var(n["a"]) and n["a"].get("k") == "ref":
            sts = self.expr(n["b"], sts)
            v = self.var(n["a"])
            return {s - {v} for s in sts}
        if k == "lambda":
            return sts
        if k == "ref":
            v = self.var(n)
            if v and any(v in s for s in sts):
                self.bad.append(("used after its release", v[1], n.get("l")))
            return sts
        if k == "cond":
            sts = self.expr(n["c"], sts)
            return self.expr(n["a"], sts) | self.expr(n["b"], sts)
        if k == "bin" and n.get("op") in ("&&", "||"):
            sts = self.expr(n["a"], sts)
            return sts | self.expr(n["b"], sts)
        if k == "bin" and n.get("op") in ("==", "!="):
            # comparing the value of a released pointer does not touch its storage
            a, b = self.var(n["a"]), self.var(n["b"])
            if a or b:
                for x in (n["a"], n["b"]):
                    if not self.var(x):
                        sts = self.expr(x, sts)
                return sts
        for x in n.values():
            if isinstance(x, (dict, list)):
                sts = self.expr(x, sts)
        if k in ("call", "ctor", "throw") and self.thrown is not None:
            self.thrown |= sts
        return sts

    def stmt(self, n, sts):
        """-> states on normal exit."""
        if isinstance(n, list):
            for x in n:
                sts = self.stmt(x, sts)
            return sts
        if not isinstance(n, dict) or not sts:
            return sts
        k = n.get("k")
        if k == "block":
            return self.stmt(n.get("c", []), sts)
        if k == "decl":
            for v in n.get("vars", ()):
                if v.get("i") is not None:
                    sts = self.expr(v["i"], sts)
            ids = {v["id"] for v in n.get("vars", ())}
            return {frozenset(x for x in s if x[0] not in ids) for s in sts}
        if k == "if":
            if n.get("init"):
                sts = self.stmt(n["init"], sts)
            if n.get("cv") and n["cv"].get("i") is not None:
                sts = self.expr(n["cv"]["i"], sts)
            sts = self.expr(n.get("c"), sts)
            a = self.stmt(n.get("a"), sts)
            return a | (self.stmt(n["b"], sts) if n.get("b") else sts)
        if k in ("for", "while", "do", "rfor"):
            if n.get("init"):
                sts = self.stmt(n["init"], sts)
            acc = set(sts)
            old, self.brk = self.brk, set()
            for _ in range(2):
                s = acc
                for x in ("c", "r"):
                    if n.get(x):
                        s = self.expr(n[x], s)
                s = self.stmt(n.get("b"), s)
                if n.get("inc"):
                    s = self.expr(n["inc"], s)
                acc |= s | self.cont
                self.cont = set()
            acc |= self.brk
            self.brk = old
            return acc
        if k == "ret":
            self.expr(n.get("e"), sts)
            return set()
        if k == "break":
            self.brk |= sts
            return set()
        if k == "continue":
            self.cont |= sts
            return set()
        if k == "goto":
            return set()
        if k == "try":
            old, self.thrown = self.thrown, set(sts)
            a = self.stmt(n.get("b"), sts)
            th, self.thrown = self.thrown, old
            for h in n.get("h", ()):
                a = a | self.stmt(h.get("b"), th)
            if old is not None:
                self.thrown |= th
            return a
        if k == "throw":
            self.expr(n, sts)
            return set()
        if k in ("switch", "case", "default", "label"):
            if n.get("c") and k == "switch":
                sts = self.expr(n["c"], sts)
            if k != "switch":
                return self.stmt(n.get("b"), sts)
            # every label can be jumped to
            old, self.brk = self.brk, set()
            cur = set()
            body = n.get("b") or {}
            for x in body.get("c", [body]):
                if x.get("k") in ("case", "default"):
                    cur = cur | sts
                cur = self.stmt(x, cur)
            cur = cur | sts | self.brk
            self.brk = old
            return cur
        return self.expr(n, sts) if k != "nop" else sts

    def run(self):
        self.stmt(self.f["b"], {frozenset()})
        seen = []
        for b in self.bad:
            if b not in seen:
                seen.append(b)
        return seen


# ---------------------------------------------------------------- the release functions

class Release:
    """How often, and how, a function releases one of its (non-null) parameters, over all its paths."""

    def __init__(self, p, own):
        self.p, self.own = p, own

    def run(self, f, j, depth=0):
        """-> set of frozensets/tuples of releases ((how, type), ...) at the ends of the paths; None where unknown."""
        self.f, self.j, self.depth = f, j, depth
        self.ends = set()
        left = self.stmt(f["b"], {()})
        return self.ends | left

    def isit(self, e, f, j):
        o = self.own.ptr(e, f)
        return o == {("param", j)}

    def truth(self, c, f, j):
        """Value of a condition when the parameter is not null, or None."""
        k = c.get("k")
        if k == "cast":
            return self.truth(c["e"], f, j)
        if k == "un" and c.get("op") == "!":
            t = self.truth(c["e"], f, j)
            return None if t is None else not t
        if k == "ref" and c.get("t", "").rstrip().endswith("*") and self.isit(c, f, j):
            return True
        if k == "bin" and c.get("op") in ("==", "!="):
            a, b = c["a"], c["b"]
            for x, y in ((a, b), (b, a)):
                if self.own.ptr(y, f) == {("null", "")} and x.get("t", "").rstrip().endswith("*") and self.isit(x, f, j):
                    return c["op"] == "!="
        if k == "bin" and c.get("op") in ("&&", "||"):
            a, b = self.truth(c["a"], f, j), self.truth(c["b"], f, j)
            if c["op"] == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        return None

    def effects(self, n, sts, f, j):
        """Releases in an expression."""
        for x in walk(n):
            k = x.get("k")
            ev = None
            if k == "delete" and self.isit(x["e"], f, j):
                ev = ("delete[]" if x.get("arr") else "delete", x["e"].get("t", ""))
            elif k == "call" and short(x) == "free" and x.get("a") and self.isit(x["a"][0], f, j):
                ev = ("free", x["a"][0].get("t", ""))
            elif k == "ctor" and short(x).startswith("std::unique_ptr::") and x.get("a") and x["a"][0].get("t", "").rstrip().endswith("*") and self.isit(x["a"][0], f, j):
                ev = ("delete[]" if "[]" in x.get("t", "").split(",")[0] else "delete", x["a"][0].get("t", ""))
            elif k == "call" and self.depth < 3:
                g = self.p.lookup(x.get("f", ""), f.get("file"))
                if g is not None and g.get("b") is not None:
                    for jj, a in enumerate(x.get("a", ())):
                        if a.get("t", "").rstrip().endswith("*") and self.isit(a, f, j):
                            r = Release(self.p, self.own)
                            ends = r.run(g, jj, self.depth + 1)
                            sts = {s + e for s in sts for e in ends}
            if ev:
                sts = {s + (ev,) for s in sts}
        return sts

    def stmt(self, n, sts):
        f, j = self.f, self.j
        if isinstance(n, list):
            for x in n:
                sts = self.stmt(x, sts)
            return sts
        if not isinstance(n, dict) or not sts:
            return sts
        k = n.get("k")
        if k == "block":
            return self.stmt(n.get("c", []), sts)
        if k == "if":
            sts = self.effects(n.get("c"), sts, f, j)
            t = self.truth(n["c"], f, j)
            out = set()
            if t is not False:
                out |= self.stmt(n.get("a"), sts)
            if t is not True:
                out |= self.stmt(n["b"], sts) if n.get("b") else sts
            return out
        if k == "ret":
            if n.get("e"):
                sts = self.effects(n["e"], sts, f, j)
            self.ends |= sts
            return set()
        if k in ("for", "while", "do", "rfor"):
            return sts | self.stmt(n.get("b"), sts)
        if k == "try":
            a = self.stmt(n.get("b"), sts)
            return a            # what a handler does follows a throw, which a destructor does not make
        if k == "throw":
            return set()
        if k in ("switch", "case", "default", "label"):
            return self.stmt(n.get("b"), sts)
        if k == "decl":
            for v in n.get("vars", ()):
                if v.get("i") is not None:
                    sts = self.effects(v["i"], sts, f, j)
            return sts
        return self.effects(n, sts, f, j)


# ---------------------------------------------------------------- the check

def pointee(t):
    return re.sub(r"\b(const|struct)\b", "", t).replace("electionguard::", "").strip(" *&")


def related(p, a, b):
    from .r_copy import bases
    def up(c):
        out, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += [y.replace("electionguard::", "") for y in bases(p, x)]
        return out
    return b in up(a)


def library(p):
    for f in p.funcs.values():
        if f.get("b") is None or "/karamel/" in f["file"] or "nlohmann" in f["file"]:
            continue
        if not f["file"].startswith(p_root() + "/"):
            continue
        yield f


def p_root():
    from ..prog import REPO
    return REPO


@check("C20", "interprocedural ownership and lifetime analysis of pointers, typestate of released storage, and handle/class agreement of casts over the type-checked program",
       "A handle of type eg_X_t always points to a C++ object of the class X stands for; what a C function hands out is owned by the caller or lives in an object the caller holds, as documented, and never in a local object; an input is released only by the release function of its type, which releases a non-null handle exactly once with the deallocation matching its allocation; released storage is not used or released again.")
def c20(ctx):
    p = ctx.p
    own = Own(p)
    cm = cmap(p)
    docs = contracts(p_root())
    fs = cfuncs(p)
    isfree = lambda f: re.search(r"_(free|delete_int_ptr|free_int_ptr)$|_free_|_delete_int", f["n"]) is not None and len(f["ps"]) == 1

    def casts():
        for f in library(p):
            for n in walk(f["b"]):
                if n.get("k") != "cast" or not isinstance(n.get("e"), dict):
                    continue
                A, B = HANDLE.match(n.get("t", "")), HANDLE.match(n["e"].get("t", ""))
                if bool(A) == bool(B) and not (A and B and A.group(1) != B.group(1)):
                    continue
                if "*" not in n.get("t", "") or "*" not in n["e"].get("t", ""):
                    continue
                h = (A or B).group(1)
                if A and B:
                    a, b = cm.get(flatn(A.group(1))), cm.get(flatn(B.group(1)))
                    ok = a == b
                    other = b
                else:
                    other = pointee(n["e"]["t"] if A else n["t"])
                    c = cm.get(flatn(h))
                    if other in ("void", "char", "unsigned char", "long", "unsigned long") or c is None:
                        continue
                    ok = other == c or (B and related(p, c, other)) or (A and related(p, other, c) and False)
                ctx.saw(f)
                ctx.tally("handle casts")
                ctx.need(ok, "%s: an eg_%s_t handle is a %s" % (f["n"], h, cm.get(flatn(h))), ctx.loc(f, n.get("l")),
                         "an eg_%s_t handle is treated as a %s" % (h, other))

    def outs():
        for f in fs:
            d = p.decls.get(f["n"])
            for j, o, l, g in own.outs(f):
                q = f["ps"][j]
                ctx.saw(f)
                ctx.tally("out writes")
                where = ctx.loc(g, l)
                what = "%s: %s" % (f["n"], q["n"])
                kinds = {x[0] for x in o}
                if "?" in kinds:
                    ctx.undecide(what, where, "origin not resolved: %s" % sorted(x[1] for x in o if x[0] == "?"))
                    if "gone" not in kinds:
                        continue
                gone = sorted(x[1] for x in o if x[0] == "gone")
                ctx.need(not gone, what + " outlives the call", where, "points to %s, which is destroyed when the function returns" % ", ".join(gone))
                if gone:
                    continue
                c = contract(docs, f, q, d)
                real = kinds - {"null"}
                if c == "owned" and real:
                    ctx.need(real <= OWNED, what + " is the caller's to release", where,
                             "the caller is to release it, but it is kept by %s" % sorted(str(x[1]) for x in o if x[0] not in OWNED))
                elif c == "borrowed" and real:
                    ctx.need(not (real & OWNED), what + " stays with its owner", where,
                             "documented as a reference, but nobody else owns it (it leaks)")
                if real & OWNED and real <= OWNED:
                    h = HANDLE.match(q["t"])
                    if h:
                        fr = [x for x in fs if isfree(x) and pointee(x["ps"][0]["t"]) == pointee(q["t"])]
                        ctx.need(bool(fr), what + " has a release function", where, "no eg_*_free takes an eg_%s_t" % h.group(1))

    families = {}
    for f in fs:
        for j, o, l, g in own.outs(f):
            q = f["ps"][j]
            for x in o:
                if x[0] in OWNED:
                    families.setdefault(pointee(q["t"]), {}).setdefault(x[0], []).append((f, q, g, l))

    def frees():
        for f in fs:
            if not isfree(f):
                continue
            q = f["ps"][0]
            h = HANDLE.match(q["t"])
            ends = Release(p, own).run(f, 0)
            ctx.saw(f)
            ctx.tally("release functions")
            if not ends:
                ctx.undecide(f["n"], ctx.loc(f), "no path ends")
                continue
            want = {"new": "delete", "new[]": "delete[]", "malloc": "free"}
            counts = {len(e) for e in ends}
            ctx.need(counts == {1}, "%s releases a handle once" % f["n"], ctx.loc(f),
                     "on some path a non-null argument is released %s times" % sorted(counts - {1}))
            hows = {r for e in ends for r in e}
            fam = families.get(pointee(q["t"]), {})
            for how, t in sorted(hows):
                if h:
                    c = cm.get(flatn(h.group(1)))
                    if c is not None:
                        ctx.need(pointee(t) == c, "%s destroys a %s" % (f["n"], c), ctx.loc(f), "it destroys a %s" % pointee(t))
                need = {want[k] for k in fam}
                if need:
                    src = [x for k in fam for x in fam[k] if want[k] != how]
                    ctx.need(not src, "%s releases as %s was allocated" % (f["n"], pointee(q["t"])), ctx.loc(f),
                             "it uses %s, but %s is allocated for %s" % (how, ", ".join(sorted({x[0]["n"] for x in src})[:3]), sorted(need)))

    def inputs():
        for f in library(p):
            c = f["n"].startswith("eg_")
            for n in walk(f["b"]):
                k = n.get("k")
                e, how = None, None
                if k == "ctor" and re.match(r"std::(unique|shared)_ptr::", short(n)) and n.get("a") and n["a"][0].get("t", "").rstrip().endswith("*"):
                    e, how = n["a"][0], "adopt"
                elif k == "call" and re.match(r"std::(unique|shared)_ptr::reset$", short(n)) and n.get("a"):
                    e, how = n["a"][0], "adopt"
                elif k == "delete":
                    e, how = n["e"], "delete[]" if n.get("arr") else "delete"
                elif k == "call" and short(n) == "free" and n.get("a"):
                    e, how = n["a"][0], "free"
                if e is None:
                    continue
                o = own.ptr(e, f)
                kinds = {x[0] for x in o}
                ctx.saw(f)
                ctx.tally("releases and adoptions")
                what = "%s: what is released or adopted is owned" % f["n"]
                where = ctx.loc(f, n.get("l"))
                if "param" in kinds and c and isfree(f):
                    continue
                if c and "param" in kinds:
                    ctx.bad(what, where, "the caller's %s is released, but the caller still owns it" % f["ps"][[x[1] for x in o if x[0] == "param"][0]]["n"])
                    continue
                if how == "adopt" and "borrow" in kinds and "?" not in kinds:
                    ctx.bad(what, where, "a second owner is made for %s" % sorted(x[1] for x in o if x[0] == "borrow"))
                    continue
                if "gone" in kinds:
                    ctx.bad(what, where, "storage of %s is released" % sorted(x[1] for x in o if x[0] == "gone"))
                    continue
                fam = {"delete": "new", "delete[]": "new[]", "free": "malloc"}.get(how)
                wrong = {x[0] for x in o if x[0] in OWNED and fam and x[0] != fam}
                if how == "adopt":
                    arr = "[]" in (n.get("t", "") if k == "ctor" else n.get("n", "")).split(",")[0]
                    dele = re.search(r"default_delete", (n.get("t", "") if k == "ctor" else n.get("n", "")) or "") or "," not in (n.get("t", "") or "")
                    wrong = {x[0] for x in o if x[0] in OWNED and x[0] != ("new[]" if arr else "new")} if dele else set()
                ctx.need(not wrong, what, where, "%s applied to storage from %s" % (how, sorted(wrong)))

    def twice():
        for f in library(p):
            if not any(n.get("k") == "delete" or n.get("k") == "call" and short(n) == "free" for n in walk(f["b"])):
                continue
            t = Freed(p, f, own)
            bad = t.run()
            ctx.saw(f)
            ctx.tally("functions with releases")
            ctx.need(not bad, "%s: released storage is left alone" % f["n"], ctx.loc(f, bad[0][2] if bad else None),
                     "; ".join("'%s' %s (line %s)" % (b[1], b[0], b[2]) for b in bad))
    def returns():
        for f in library(p):
            rt = f.get("rt", "").rstrip()
            if not rt.endswith(("*", "&")) or rt.endswith("&&"):
                continue
            for n in walk(f["b"]):
                if n.get("k") != "ret" or not isinstance(n.get("e"), dict):
                    continue
                o = own.ptr(n["e"], f) if rt.endswith("*") else own.lv(n["e"], f)
                gone = sorted(x[1] for x in o if x[0] == "gone")
                ctx.saw(f)
                ctx.tally("returned pointers and references")
                ctx.need(not gone, "%s: what it returns outlives the call" % f["n"], ctx.loc(f, n.get("l")),
                         "refers to %s, which is destroyed when the function returns" % ", ".join(gone))
    for name, g in (("returns", returns), ("casts", casts), ("outs", outs), ("release functions", frees), ("inputs", inputs), ("released storage", twice)):
        ctx.part(name, g)
