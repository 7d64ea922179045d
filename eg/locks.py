"""Effects and locks: what a function writes through its object and parameters, and which mutexes are held where."""
from .prog import walk, strip_targs

GUARDS = ("std::lock_guard", "std::scoped_lock", "std::unique_lock", "std::shared_lock")
MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::shared_timed_mutex",
         "std::recursive_timed_mutex")
READS = {"size", "empty", "find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "count", "at", "front", "back", "get",
         "data", "c_str", "length", "operator->", "operator*", "operator bool", "operator==", "operator!=", "operator<", "value",
         "has_value", "top", "load", "substr", "compare", "equal_range", "lower_bound", "upper_bound", "contains", "use_count",
         "capacity", "max_size", "str", "first", "second", "owns_lock", "operator()", "operator basic_string_view", "what"}
INTO = {"at", "operator[]", "front", "back", "data", "value", "operator*", "operator->", "begin", "end", "find", "rbegin",
        "get", "top", "lower_bound", "upper_bound", "insert", "emplace", "emplace_back", "cbegin", "cend", "c_str"}
# standard functions that write through an argument
OUT = {"std::copy": (2,), "std::copy_n": (2,), "std::fill": (0,), "std::fill_n": (0,), "std::swap": (0, 1), "std::sort": (0,),
       "std::reverse": (0,), "std::transform": (2,), "std::copy_backward": (2,), "std::move_backward": (2,), "std::iota": (0,),
       "std::rotate": (0,), "memcpy": (0,), "memmove": (0,), "memset": (0,), "strncpy": (0,), "strcpy": (0,), "sprintf": (0,),
       "snprintf": (0,), "explicit_bzero": (0,), "memset_s": (0,), "__builtin_memcpy": (0,), "__builtin_memset": (0,),
       "std::memcpy": (0,), "std::memset": (0,), "std::memmove": (0,), "std::stable_sort": (0,), "std::generate": (0,),
       "std::exchange": (0,), "std::copy_if": (2,), "std::replace": (0,), "std::unique": (0,), "std::remove": (0,)}
ASYNC = ("std::async", "std::thread", "std::jthread", "std::packaged_task", "electionguard::Scheduler::submit",
         "electionguard::ThreadPool::submit", "std::function")


def short(e):
    return strip_targs(e.get("n", "") or "")


def last(n):
    return n.rsplit("::", 1)[-1]


def bare(t):
    t = t.strip()
    while t.endswith(("&", "*")) or t.endswith("const"):
        t = t[:-5].rstrip() if t.endswith("const") else t[:-1].rstrip()
    return t[6:] if t.startswith("const ") else t


def is_mutex(t):
    return strip_targs(bare(t)) in MUTEX


def is_guard(t):
    return strip_targs(bare(t)) in GUARDS


def owning(t):
    """does a value of this type own what operator-> / get() reaches?"""
    b = strip_targs(bare(t))
    return b not in ("std::shared_ptr", "std::weak_ptr", "std::reference_wrapper", "std::basic_string_view")


class Fx:
    def __init__(self, p):
        self.p = p
        self.fs = [f for f in p.funcs.values() if f.get("b")]
        self.loc = {}
        self.w = {}
        self.rets = {}
        self.held = {}
        self.acqs = {}
        self.calls = {}
        self.sect = {}
        self.busy = set()
        self.left = {}

    def look(self, e, f):
        u = e.get("f")
        return self.p.lookup(u, f.get("file")) if u else None

    # ---- local variables -------------------------------------------------------------------------------------------------
    def vars(self, f):
        k = f["u"]
        if k not in self.loc:
            decl, init = {}, {}
            for n in walk(f["b"]):
                kk = n.get("k")
                for v in n.get("vars", ()) if kk == "decl" else ():
                    decl[v["id"]] = v
                    if v.get("i") is not None:
                        init.setdefault(v["id"], []).append(v["i"])
                if kk == "rfor" and isinstance(n.get("v"), dict):
                    decl[n["v"]["id"]] = n["v"]
                    r = n.get("r") or n.get("e")
                    if r is not None:
                        init.setdefault(n["v"]["id"], []).append(r)
                if kk == "if" and isinstance(n.get("cv"), dict) and n["cv"].get("id") is not None:
                    decl[n["cv"]["id"]] = n["cv"]
                    if n["cv"].get("i") is not None:
                        init.setdefault(n["cv"]["id"], []).append(n["cv"]["i"])
                if kk == "asg" and n.get("op") == "=" and n["a"].get("k") == "ref":
                    init.setdefault(n["a"].get("id"), []).append(n["b"])
            pi = {q["id"]: i for i, q in enumerate(f["ps"])}
            self.loc[k] = (decl, init, pi)
        return self.loc[k]

    # ---- which object does an lvalue / pointer reach into ------------------------------------------------------------------
    def roots(self, e, f, seen=()):
        k = e.get("k")
        if k == "this":
            return {"this"}
        if k == "mem":
            if e.get("static"):
                return {("g", e.get("n"))}
            b = e["b"]
            if e.get("arrow") and b.get("k") in ("mem",) and b.get("t", "").rstrip().endswith("*") and self.cxx(f):
                return set()            # through a raw pointer field: another object
            return self.roots(b, f, seen)
        if k == "ref":
            dk = e.get("dk")
            if dk in ("global", "static"):
                return {("g", e.get("u") or e.get("n"))}
            decl, init, pi = self.vars(f)
            i = e.get("id")
            if dk == "param" and i in pi:
                t = f["ps"][pi[i]]["t"].rstrip()
                return {pi[i]} if t.endswith(("&", "*", "]")) or "(&)" in t else set()
            v = decl.get(i)
            if v is None or i in seen:
                return set()
            t = v["t"].rstrip()
            if t.endswith(("&", "*")) or "(&)" in t or "iterator" in t or "reference_wrapper" in t:
                out = set()
                for x in init.get(i, ()):
                    out |= self.roots(x, f, seen + (i,))
                return out
            return set()
        if k in ("cast", "un"):
            if k == "un" and e.get("op") not in ("*", "&"):
                return set()
            x = e["e"]
            if k == "un" and e.get("op") == "*" and x.get("k") == "mem" and x.get("t", "").rstrip().endswith("*") and self.cxx(f):
                return set()
            return self.roots(x, f, seen)
        if k == "sub":
            a = e["a"]
            if a.get("k") == "mem" and a.get("t", "").rstrip().endswith("*") and self.cxx(f):
                return set()
            return self.roots(a, f, seen)
        if k == "cond":
            return self.roots(e["a"], f, seen) | self.roots(e["b"], f, seen)
        if k == "bin" and e.get("op") in ("+", "-"):
            return self.roots(e["a"], f, seen)
        if k == "ctor" and ("iterator" in e.get("t", "") or "reference_wrapper" in e.get("t", "")):
            out = set()
            for a in e.get("a", ()):
                out |= self.roots(a, f, seen)
            return out
        if k == "call":
            n = short(e)
            o = e.get("o")
            m = last(n)
            if n.startswith("std::") and o is not None:
                return self.roots(o, f, seen) if m in INTO and owning(o.get("t", "")) else set()
            if n in ("std::begin", "std::end", "std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::next",
                     "std::prev", "std::data") and e.get("a"):
                return self.roots(e["a"][0], f, seen)
            g = self.look(e, f)
            if g is None or not g.get("b"):
                return set()
            rt = g["rt"].rstrip()
            if not rt.endswith(("&", "*")):
                return set()
            return self.subst(self.ret(g), e, f, seen)
        return set()

    def cxx(self, f):
        return "karamel" not in f.get("file", "") or f.get("cls")

    def subst(self, rs, e, f, seen=()):
        out = set()
        for r in rs:
            if r == "this":
                if e.get("o") is not None:
                    out |= self.roots(e["o"], f, seen)
                elif e.get("k") == "call":
                    out.add("this") if f.get("cls") else None
            elif isinstance(r, int):
                if r < len(e.get("a", ())):
                    out |= self.roots(e["a"][r], f, seen)
            else:
                out.add(r)
        return out

    def ret(self, g):
        u = g["u"]
        if u not in self.rets:
            self.rets[u] = set()
            out = set()
            for n in walk(g["b"]):
                if n.get("k") == "ret" and n.get("e") is not None:
                    out |= self.roots(n["e"], g)
            self.rets[u] = out
        return self.rets[u]

    # ---- what is written -----------------------------------------------------------------------------------------------------
    def direct(self, f):
        """(roots, node) written by f's own statements; calls are followed with the current summaries."""
        for n in walk(f["b"]):
            k = n.get("k")
            if k == "asg":
                if self.deep(n["a"], f):
                    yield self.roots(n["a"], f), n
            elif k == "un" and n.get("op") in ("++", "--", "p++", "p--", "post++", "post--", "pre++", "pre--"):
                if self.deep(n["e"], f):
                    yield self.roots(n["e"], f), n
            elif k == "call":
                nm = short(n)
                o = n.get("o")
                m = last(nm)
                if nm.startswith("std::") and o is not None:
                    ot = strip_targs(bare(o.get("t", "")))
                    if ot in MUTEX or ot in GUARDS or ot.startswith("std::atomic") or ot.startswith("std::condition"):
                        continue
                    if o.get("t", "").startswith("const ") and not o["t"].rstrip().endswith("*"):
                        continue
                    if n.get("cm") is True or m in READS:
                        continue
                    if m == "operator[]" and not ot.endswith("map"):
                        continue
                    if n.get("op") and m not in ("operator=", "operator[]", "operator+=", "operator++", "operator--"):
                        continue
                    if "iterator" in ot and m != "operator=":
                        continue
                    if self.deep(o, f):
                        yield self.roots(o, f), n
                    continue
                idx = OUT.get(nm)
                if idx is None and nm.startswith("std::") and OUT.get("std::" + m):
                    idx = OUT["std::" + m]
                if idx is not None:
                    for i in idx:
                        if i < len(n.get("a", ())):
                            yield self.roots(n["a"][i], f), n
                    continue
                g = self.look(n, f)
                if g is not None:
                    for r in self.w.get(g["u"], ()):
                        yield self.subst({r}, n, f), n
            elif k == "ctor":
                g = self.look(n, f)
                if g is not None:
                    for r in self.w.get(g["u"], ()):
                        if isinstance(r, int):
                            yield self.subst({r}, n, f), n

    def deep(self, a, f):
        """a plain local (or a pointer variable itself) is not somebody's object"""
        if a.get("k") == "ref":
            if a.get("dk") in ("global", "static"):
                return True
            decl, init, pi = self.vars(f)
            i = a.get("id")
            t = f["ps"][pi[i]]["t"] if i in pi else decl.get(i, {}).get("t", "")
            t = t.rstrip()
            return t.endswith("&") or "(&)" in t
        if a.get("k") == "cast":
            return self.deep(a["e"], f)
        return True

    def solve(self):
        work = list(self.fs)
        callers = {}
        for f in self.fs:
            for n in walk(f["b"]):
                if n.get("k") in ("call", "ctor") and n.get("f"):
                    g = self.look(n, f)
                    if g is not None:
                        callers.setdefault(g["u"], set()).add(f["u"])
        by = {f["u"]: f for f in self.fs}
        self.callers = callers
        inq = set(by)
        while work:
            f = work.pop()
            inq.discard(f["u"])
            cur = set()
            for rs, _ in self.direct(f):
                cur |= rs
            if cur != self.w.get(f["u"], set()):
                self.w[f["u"]] = cur | self.w.get(f["u"], set())
                for c in callers.get(f["u"], ()):
                    if c not in inq and c in by:
                        inq.add(c)
                        work.append(by[c])

    # ---- locks ---------------------------------------------------------------------------------------------------------------
    def mkey(self, e, f, seen=()):
        k = e.get("k")
        if k == "ref":
            if e.get("dk") in ("global", "static"):
                return e.get("n") if e["dk"] == "global" else "%s::%s" % (f["n"], e.get("n"))
            decl, init, pi = self.vars(f)
            i = e.get("id")
            if i in pi:
                return ("param", pi[i])
            v = decl.get(i)
            if v is None or i in seen:
                return ("?", e.get("n"))
            if v["t"].rstrip().endswith(("&", "*")):
                xs = {self.mkey(x, f, seen + (i,)) for x in init.get(i, ())}
                return xs.pop() if len(xs) == 1 else ("?", e.get("n"))
            return ("local", f["u"], i)
        if k == "mem":
            return e.get("n")
        if k in ("cast", "un"):
            return self.mkey(e["e"], f, seen)
        if k == "call":
            if short(e) in ("std::move", "std::ref", "std::addressof") and e.get("a"):
                return self.mkey(e["a"][0], f, seen)
            o = e.get("o")
            if o is not None and short(e).startswith("std::") and last(short(e)) in ("get", "operator*", "operator->", "mutex"):
                return self.mkey(o, f, seen)
            g = self.look(e, f)
            if g is not None and g.get("b"):
                rs = [n["e"] for n in walk(g["b"]) if n.get("k") == "ret" and n.get("e") is not None]
                ks = {self.mkey(r, g) for r in rs}
                if len(ks) == 1:
                    return ks.pop()
        return ("?", str(k))

    def guard(self, init, t, f):
        """mutexes a guard initialised with this expression holds; None: not resolved"""
        if init is None:
            return ()
        k = init.get("k")
        if k in ("ctor", "init"):
            a = [x for x in init.get("a", init.get("c", ())) or ()]
            ms, tags = [], []
            for x in a:
                xt = strip_targs(bare(x.get("t", "")))
                if xt in ("std::defer_lock_t",) or "defer_lock" in str(x.get("n", "")):
                    tags.append("defer")
                elif xt == "std::try_to_lock_t" or "try_to_lock" in str(x.get("n", "")):
                    tags.append("try")
                elif xt == "std::adopt_lock_t" or "adopt_lock" in str(x.get("n", "")):
                    tags.append("adopt")
                elif is_mutex(x.get("t", "")):
                    ms.append(self.mkey(x, f))
                elif is_guard(x.get("t", "")) or x.get("k") in ("call", "ctor"):
                    r = self.guard(x, x.get("t", ""), f)
                    if r is None:
                        return None
                    ms.extend(m for m, _ in r)
                else:
                    return None
            if "defer" in tags or "try" in tags:
                return tuple((m, tags[0]) for m in ms)
            return tuple((m, "adopt" if tags else "lock") for m in ms)
        if k == "cast":
            return self.guard(init["e"], t, f)
        if k == "call":
            if short(init) == "std::move" and init.get("a"):
                return None
            g = self.look(init, f)
            if g is not None and g.get("b"):
                decl, vi, pi = self.vars(g)
                out = []
                for n in walk(g["b"]):
                    if n.get("k") == "ctor" and is_guard(n.get("t", "")) and n.get("a"):
                        r = self.guard(n, n["t"], g)
                        for m, s in r or ():
                            if isinstance(m, tuple) and m[0] == "param":
                                m = self.mkey(init["a"][m[1]], f) if m[1] < len(init.get("a", ())) else ("?", "")
                            out.append((m, s))
                if out:
                    return tuple(dict.fromkeys(out))
        return None

    def raii(self, v, f):
        """mutexes held by a variable of one of the program's own guard classes"""
        r = self.p.records.get(bare(v["t"])) or self.p.records.get(strip_targs(bare(v["t"])))
        if not r or not any(is_guard(q["t"]) for q in r.get("fields", ())):
            return ()
        i = v.get("i")
        ms = []
        for n in walk(i) if i else ():
            if is_mutex(n.get("t", "")) and n.get("k") in ("ref", "mem", "call"):
                ms.append(self.mkey(n, f))
        if not ms and i is not None and i.get("k") == "ctor":
            g = self.look(i, f)
            for n in walk(g) if g else ():
                if is_mutex(n.get("t", "")) and n.get("k") in ("ref", "mem"):
                    ms.append(self.mkey(n, g))
        return tuple((m, "lock") for m in dict.fromkeys(ms))

    def locks(self, f):
        """annotate f: held[id(node)] = mutexes held there (beyond those held on entry); acquisitions; calls."""
        u = f["u"]
        if u in self.held:
            return
        self.held[u] = {}
        self.sect[u] = {}
        self.acqs[u] = []
        self.calls[u] = []
        self.left[u] = []
        Locks(self, f).run()


class Locks:
    def __init__(self, fx, f):
        self.fx, self.f = fx, f
        self.h = fx.held[f["u"]]
        self.s = fx.sect[f["u"]]
        self.owner = {}          # guard variable -> mutexes
        self.odd = False

    def run(self):
        self.later = []
        r = self.stmt(self.f["b"], ({}, ()))
        if r is not None:
            self.exit(r, self.f.get("le") or self.f.get("l"))
        while self.later:
            n, v = self.later.pop(0)
            hs = None
            for c, h in list(self.fx.calls[self.f["u"]]):
                o = c.get("o")
                while isinstance(o, dict) and o.get("k") == "cast":
                    o = o["e"]
                if c.get("op") == "()" and isinstance(o, dict) and o.get("id") == v:
                    hs = set(h) if hs is None else hs & h
                elif c.get("k") in ("call", "ctor") and any(x.get("id") == v and x.get("k") == "ref" for a in c.get("a", ())
                                                            for x in walk(a)):
                    if any(short(c).startswith(a) for a in ASYNC):
                        hs = set()
                    else:
                        e = self.through(c, [i for i, a in enumerate(c.get("a", ()))
                                             if any(x.get("id") == v for x in walk(a))], (dict.fromkeys(h, "guard"), ()))
                        hs = set(e[0]) if hs is None else hs & set(e[0])
            self.stmt(n.get("b") or n.get("body"), (dict.fromkeys(hs or (), "guard"), ("named", v)))

    # state: (held: mutex -> "guard"|"raw", sections: tuple)
    def exit(self, st, line):
        for m, how in st[0].items():
            if how == "raw":
                self.fx.left[self.f["u"]].append((m, line))

    def acquire(self, st, m, how, node):
        self.fx.acqs[self.f["u"]].append((m, frozenset(st[0]), node))
        h = dict(st[0])
        h[m] = how
        return (h, st[1] + (id(node),))

    def release(self, st, m):
        h = dict(st[0])
        h.pop(m, None)
        return (h, ("after", len(st[1]), st[1][-1:] if st[1] else ()))

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        h = {m: ("raw" if "raw" in (a[0][m], b[0][m]) else a[0][m]) for m in a[0] if m in b[0]}
        return (h, a[1] if a[1] == b[1] else ("join",) + tuple(a[1]) + tuple(b[1]))

    def mark(self, n, st):
        self.h[id(n)] = frozenset(st[0])
        self.s[id(n)] = st[1]

    def expr(self, e, st):
        """annotate, apply lock()/unlock() in evaluation order (pre-order is enough here)"""
        if e is None:
            return st
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, list):
                todo.extend(reversed(n))
                continue
            if not isinstance(n, dict):
                continue
            k = n.get("k")
            if k == "lambda":
                self.mark(n, st)
                b = n.get("b") or n.get("body")
                if b is not None:
                    entry = self.lambda_entry(n, st)
                    if entry[1][:1] == ("named",):
                        self.later.append((n, entry[1][1]))
                    else:
                        self.stmt(b, entry)
                continue
            self.mark(n, st)
            if k == "call":
                m = last(short(n))
                o = n.get("o")
                ot = strip_targs(bare(o.get("t", ""))) if o is not None else ""
                if o is not None and (ot in MUTEX or ot in GUARDS):
                    keys = (self.fx.mkey(o, self.f),) if ot in MUTEX else tuple(x for x, _ in self.owner.get(o.get("id"), ()))
                    for key in keys:
                        if m in ("lock", "lock_shared"):
                            st = self.acquire(st, key, "raw" if ot in MUTEX else "guard", n)
                        elif m in ("unlock", "unlock_shared", "release") and not (m == "release" and ot in MUTEX):
                            st = self.release(st, key)
                    if m == "swap":
                        self.odd = True
                elif short(n) == "std::lock":
                    for a in n.get("a", ()):
                        st = self.acquire(st, self.fx.mkey(a, self.f), "raw", n)
                else:
                    self.fx.calls[self.f["u"]].append((n, frozenset(st[0])))
            elif k == "ctor":
                if is_guard(n.get("t", "")):
                    for x in n.get("a", ()):
                        if is_mutex(x.get("t", "")):
                            # a temporary guard: taken and released within the full expression
                            self.fx.acqs[self.f["u"]].append((self.fx.mkey(x, self.f), frozenset(st[0]), n))
                else:
                    self.fx.calls[self.f["u"]].append((n, frozenset(st[0])))
            todo.extend(reversed([v for v in n.values() if isinstance(v, (dict, list))]))
        return st

    def lambda_entry(self, n, st):
        """locks certainly held when the lambda runs"""
        par = self.parents().get(id(n))
        while par is not None and par.get("k") in ("cast", "ctor", "init") and par.get("k") != "decl":
            if par.get("k") == "ctor" and short(par).startswith(("std::thread", "std::packaged_task", "std::function")):
                return ({}, ("async", id(n)))
            par = self.parents().get(id(par))
        if par is not None and par.get("k") == "call":
            nm = short(par)
            if any(nm.startswith(a) for a in ASYNC):
                return ({}, ("async", id(n)))
            return self.through(par, None, st, id(n))
        # a named lambda: held at every call of the variable -- approximated by the place where it is called
        v = self.lambda_var(n)
        if v is not None:
            return ({}, ("named", v))
        return st

    def through(self, par, idx, st, sid=0):
        """state in which the callee of par invokes a functor passed to it"""
        g = self.fx.look(par, self.f)
        if g is None or not g.get("b") or g["u"] == self.f["u"] or g["u"] in self.fx.busy:
            return st
        self.fx.busy.add(g["u"])
        self.fx.locks(g)
        self.fx.busy.discard(g["u"])
        hs = None
        ids = {q["id"]: i for i, q in enumerate(g["ps"])}
        for c, h in self.fx.calls[g["u"]]:
            o = c.get("o")
            while isinstance(o, dict) and o.get("k") in ("cast",):
                o = o["e"]
            if c.get("op") == "()" and (not isinstance(o, dict) or o.get("id") in ids):
                s = set()
                for m in h:
                    if isinstance(m, tuple) and m[0] == "param":
                        m = self.fx.mkey(par["a"][m[1]], self.f) if m[1] < len(par.get("a", ())) else m
                    s.add(m)
                hs = s if hs is None else hs & s
        if hs is None:
            return st
        h = dict(st[0])
        for m in hs:
            h[m] = "guard"
        return (h, tuple(st[1]) + (sid,))

    def parents(self):
        if not hasattr(self, "_par"):
            self._par = {}
            for n in walk(self.f["b"]):
                for x in n.values():
                    for y in x if isinstance(x, list) else (x,):
                        if isinstance(y, dict):
                            self._par[id(y)] = n
        return self._par

    def lambda_var(self, n):
        q = n
        for _ in range(6):
            q = self.parents().get(id(q))
            if q is None:
                return None
            if q.get("id") is not None and "n" in q and "t" in q and q.get("k") is None:
                return q["id"]
        return None

    def stmt(self, n, st):
        if n is None or st is None:
            return st
        k = n.get("k")
        if k == "block":
            mine = []
            for s in n.get("c", ()):
                if st is None:
                    break
                if s.get("k") == "decl":
                    st = self.decl(s, st, mine)
                else:
                    st = self.stmt(s, st)
            if st is not None:
                for v in mine:
                    for m, _ in self.owner.get(v, ()):
                        if st[0].get(m) == "guard":
                            st = self.release(st, m)
            return st
        if k == "decl":
            return self.decl(n, st, [])
        if k == "if":
            self.mark(n, st)
            mine = []
            if n.get("init"):
                i = n["init"]
                st = self.decl(i, st, mine) if i.get("k") == "decl" else self.stmt(i, st)
            if isinstance(n.get("cv"), dict):
                st = self.expr(n["cv"].get("i"), st)
            st = self.expr(n.get("c"), st)
            a = self.stmt(n.get("a"), st) if n.get("a") else st
            b = self.stmt(n.get("b"), st) if n.get("b") else st
            st = self.join(a, b)
            if st is not None:
                for v in mine:
                    for m, _ in self.owner.get(v, ()):
                        st = self.release(st, m)
            return st
        if k in ("while", "for", "do", "rfor"):
            self.mark(n, st)
            mine = []
            i = n.get("i") or n.get("init")
            if isinstance(i, dict):
                st = self.decl(i, st, mine) if i.get("k") == "decl" else self.stmt(i, st)
            if k == "rfor":
                st = self.expr(n.get("r") or n.get("e"), st)
            elif k != "do":
                st = self.expr(n.get("c"), st)
            body = n.get("b") or n.get("body")
            after = self.stmt(body, st)
            x = after if after is not None else st
            if k == "do":
                x = self.expr(n.get("c"), x)
            inc = n.get("inc") or n.get("s")
            if isinstance(inc, dict):
                x = self.expr(inc, x)
            return self.join(st, x) if k != "do" else x
        if k == "ret":
            self.mark(n, st)
            st = self.expr(n.get("e"), st)
            self.exit(st, n.get("l"))
            return None
        if k in ("throw",):
            self.mark(n, st)
            st = self.expr(n.get("e"), st)
            return None
        if k == "try":
            self.mark(n, st)
            a = self.stmt(n.get("b"), st)
            for h in n.get("h", ()):
                a = self.join(a, self.stmt(h.get("b") or h, st))
            return a
        if k in ("break", "continue"):
            return st
        if k == "switch":
            self.mark(n, st)
            st = self.expr(n.get("c") or n.get("e"), st)
            b = self.stmt(n.get("b"), st)
            return self.join(st, b)
        if k in ("case", "default", "label"):
            self.mark(n, st)
            for key in ("b", "s"):
                if isinstance(n.get(key), dict):
                    st = self.stmt(n[key], st)
            if isinstance(n.get("c"), list):
                for s in n["c"]:
                    st = self.stmt(s, st)
            return st
        return self.expr(n, st)

    def decl(self, n, st, mine):
        self.mark(n, st)
        for v in n.get("vars", ()):
            t = v.get("t", "")
            if is_guard(t) and not t.rstrip().endswith("&"):
                self.mark(v, st)
                if v.get("i") is not None:
                    for x in walk(v["i"]):
                        self.mark(x, st)
                ms = self.fx.guard(v.get("i"), t, self.f)
                if ms is None:
                    self.odd = True
                    ms = ()
                self.owner[v["id"]] = ms
                mine.append(v["id"])
                for m, how in ms:
                    if how in ("lock",):
                        st = self.acquire(st, m, "guard", n)
                    elif how == "adopt":
                        h = dict(st[0])
                        h[m] = "guard"
                        st = (h, st[1])
                continue
            r = self.fx.raii(v, self.f)
            if r:
                for x in walk(v.get("i") or {}):
                    self.mark(x, st)
                self.owner[v["id"]] = r
                mine.append(v["id"])
                for m, _ in r:
                    st = self.acquire(st, m, "guard", n)
                continue
            self.mark(v, st)
            st = self.expr(v.get("i"), st)
        return st
