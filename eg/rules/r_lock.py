"""Shared state: every access under the right mutex, const methods do not write, no deadlock, checks and acts together."""
import re

from ..check import check
from ..locks import Fx, MUTEX, OUT, short, last, bare, is_mutex, is_guard, READS, strip_targs
from ..prog import walk, rel, REPO

CONT = ("std::queue", "std::deque", "std::vector", "std::map", "std::unordered_map", "std::list", "std::set", "std::stack",
        "std::priority_queue")
TAKE = {"front", "pop", "back", "pop_front", "pop_back", "top"}
TEST = {"empty", "size"}


def own(f):
    return f["file"].startswith(REPO + "/") and "/karamel/" not in f["file"]


def inert(t):
    b = strip_targs(bare(t))
    return b in MUTEX or b.startswith("std::atomic") or b.startswith("std::condition_variable") or b == "std::once_flag"


def const_t(t):
    t = t.strip()
    return t.startswith("const ") and not t.endswith("*") or t.endswith("const")


class Shared:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.fx = Fx(ctx.p)
        self.fx.solve()
        self.objects = {}        # static storage: key -> (type, file, line)
        self.fields = {}         # field name -> (class, type)
        self.classes = {}
        self.locked = {strip_targs(n) for n, r in ctx.p.records.items() if any(is_mutex(q["t"]) for q in r.get("fields", ()))}
        self.find()

    # ---- which state do several threads reach? -------------------------------------------------------------------------
    def find(self):
        p = self.p
        for g in p.globals.values():
            if g.get("const") or g.get("tls") or not g.get("file", "").startswith(REPO) or inert(g["t"]) or "/karamel/" in g["file"]:
                continue
            self.objects[("g", g["u"])] = (g["t"], g["n"])
        for f in p.funcs.values():
            if not f.get("b") or not own(f):
                continue
            for n in walk(f["b"]):
                if n.get("k") != "decl":
                    continue
                for v in n["vars"]:
                    if v.get("static") and not v.get("tls") and not inert(v["t"]):
                        if const_t(v["t"]):
                            continue
                        self.objects[("g", v.get("u") or v["n"])] = (v["t"], "%s::%s" % (f["n"], v["n"]))
                        if f["rt"].rstrip().endswith("&") and f["rt"].startswith("const "):
                            continue        # handed out read-only: const methods are judged below
                        self.shared_class(bare(v["t"]), "static object in " + f["n"])
        for n, r in p.records.items():
            if r.get("file", "").startswith(REPO) and any(is_mutex(q["t"]) for q in r.get("fields", ())):
                self.shared_class(n, "has a mutex of its own")

    def shared_class(self, n, why):
        r = self.p.records.get(n)
        if r is None or n in self.classes or not r.get("file", "").startswith(REPO):
            return
        self.classes[n] = why
        for q in r.get("fields", ()):
            if const_t(q["t"]):
                continue
            b = bare(q["t"])
            if not inert(q["t"]) and not is_guard(q["t"]):
                self.fields[q["n"]] = (n, q["t"])
            self.shared_class(b, "member of " + n)
            for x in re.findall(r"[\w:]+(?:<[\w, ]*>)?", b) if "<" in b else ():
                if x != b and x.startswith(("electionguard::", "hacl::")) and not self.handed(strip_targs(x), n):
                    self.shared_class(strip_targs(x), "kept by " + n)

    def handed(self, x, n):
        """values that move in and out (or are given away): the holder's alone"""
        r = self.p.records.get(x)
        if r is None or any(last(m["n"]) == "operator=" and not m.get("deleted") and not m.get("implicit") for m in r["methods"]):
            return True
        for f in self.p.funcs.values():
            if f.get("cls") == n and x in strip_targs(f["rt"].replace("<", " ").replace(">", " ").replace(",", " ")).split() and \
                    not f["rt"].rstrip().endswith(("&", "*")):
                return True
        return False

    # ---- the place an lvalue denotes ----------------------------------------------------------------------------------------
    def place(self, e, f, seen=()):
        k = e.get("k")
        if k == "mem":
            if e.get("n") in self.fields:
                return e["n"]
            return None
        if k == "ref":
            if e.get("dk") in ("global", "static"):
                key = ("g", e.get("u") or e.get("n"))
                if key in self.objects and bare(self.objects[key][0]) not in self.classes:
                    return self.objects[key][1]
                return None
            decl, init, pi = self.fx.vars(f)
            v = decl.get(e.get("id"))
            if e.get("id") in pi and ("&" in f["ps"][pi[e["id"]]]["t"] or f["ps"][pi[e["id"]]]["t"].rstrip().endswith("*")):
                return ("param", pi[e["id"]])
            if v is None or e["id"] in seen or not v["t"].rstrip().endswith(("&", "*")):
                return None
            for x in init.get(e["id"], ())[:1]:
                return self.place(x, f, seen + (e["id"],))
            return None
        if k == "cast" or k == "un" and e.get("op") in ("&", "*"):
            return self.place(e["e"], f, seen)
        if k == "call":
            if short(e) in ("std::move", "std::ref", "std::forward", "std::addressof") and e.get("a"):
                return self.place(e["a"][0], f, seen)
            g = self.fx.look(e, f)
            if g is not None and g.get("b") and g["rt"].rstrip().endswith(("&", "*")) and own(g):
                ps = {self.place(n["e"], g) for n in walk(g["b"]) if n.get("k") == "ret" and n.get("e") is not None}
                if len(ps) == 1:
                    return ps.pop()
        return None

    def binding(self, f):
        """expressions that only bind a reference or hand on an address: no access by themselves"""
        out = set()
        decl, init, pi = self.fx.vars(f)

        def add(e):
            out.add(id(e))
            if e.get("k") in ("cast",) or e.get("k") == "un" and e.get("op") in ("&", "*"):
                add(e["e"])
            elif e.get("k") == "call" and short(e) in ("std::ref", "std::addressof", "std::forward") and e.get("a"):
                add(e["a"][0])
        for n in walk(f["b"]):
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v["t"].rstrip().endswith(("&", "*")) and v.get("i") is not None and self.place(v["i"], f) is not None:
                        add(v["i"])
            elif n.get("k") == "ret" and n.get("e") is not None and f["rt"].rstrip().endswith(("&", "*")):
                add(n["e"])
            elif n.get("k") == "call":
                g = self.fx.look(n, f)
                if g is not None and g.get("b"):
                    for i, a in enumerate(n.get("a", ())):
                        if i < len(g["ps"]) and g["ps"][i]["t"].rstrip().endswith(("&", "*")) and self.place(a, f) is not None:
                            add(a)
        return out

    def static_inits(self, f):
        out = set()
        for n in walk(f["b"]):
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v.get("static") and v.get("i") is not None:
                        for x in walk(v["i"]):
                            out.add(id(x))
        return out

    def accesses(self, f):
        """(place, write?, node, what) of every access in f"""
        skip = self.binding(f)
        once = self.static_inits(f)
        done = set()
        for n in walk(f["b"]):
            if id(n) in once:
                continue
            k = n.get("k")
            tgt, wr, what = None, False, ""
            if k == "asg":
                tgt, wr, what = n["a"], True, "assigned"
            elif k == "un" and n.get("op") in ("++", "--", "p++", "p--"):
                tgt, wr, what = n["e"], True, "changed"
            elif k == "call" and n.get("o") is not None:
                m = last(short(n))
                std = short(n).startswith("std::")
                g = self.fx.look(n, f)
                if std:
                    wr = not (n.get("cm") is True or m in READS)
                    if m == "operator[]":
                        wr = "map" in strip_targs(bare(n["o"].get("t", "")))
                else:
                    wr = g is not None and "this" in self.fx.w.get(g["u"], ())
                tgt, what = n["o"], m
                if g is not None and strip_targs(bare(n["o"].get("t", ""))) in self.locked and not m.startswith("operator="):
                    for x in self.chain(tgt):
                        done.add(id(x))
                    continue            # an object that locks for itself
            elif k == "sub":
                tgt, what = n["a"], "element"
            if tgt is not None:
                pl = self.place(tgt, f)
                if pl is not None and id(tgt) not in skip:
                    done.add(id(tgt))
                    for x in self.chain(tgt):
                        done.add(id(x))
                    yield pl, wr, n, what
                elif wr and k in ("asg", "un"):
                    for x in self.inner(tgt):
                        pl = self.place(x, f)
                        if pl is not None and id(x) not in done:
                            done.add(id(x))
                            yield pl, True, x, what
                            break
            if k == "call":
                idx = OUT.get(short(n)) or ()
                g = self.fx.look(n, f)
                if not idx and g is not None:
                    idx = [r for r in self.fx.w.get(g["u"], ()) if isinstance(r, int)]
                for i in idx:
                    for x in [n["a"][i]] + list(self.inner(n["a"][i])) if i < len(n.get("a", ())) else ():
                        pl = self.place(x, f)
                        if isinstance(pl, str) and id(x) not in done and id(x) not in skip:
                            done.add(id(x))
                            yield pl, True, x, "written by " + last(short(n))
                            break
            if k in ("mem", "ref") and id(n) not in done and id(n) not in skip:
                pl = self.place(n, f)
                if pl is not None:
                    done.add(id(n))
                    yield pl, False, n, "read"

    def chain(self, e):
        while isinstance(e, dict):
            yield e
            e = e.get("e") if e.get("k") in ("cast", "un") else (e.get("a") or [None])[0] if e.get("k") == "call" and short(e) in (
                "std::move", "std::ref", "std::forward") else None

    def inner(self, e):
        while isinstance(e, dict):
            k = e.get("k")
            e = e.get("b") if k == "mem" else e.get("a") if k == "sub" else e.get("e") if k in ("cast", "un") else \
                (e.get("o") or (e["a"][0] if short(e) in ("std::begin", "std::end", "std::data") and e.get("a") else None)) \
                if k == "call" else None
            if isinstance(e, dict):
                yield e


def build_only(sh):
    """functions that run only while their object is being made (called only from its constructors), or on a dead object"""
    fx = sh.fx
    by = {f["u"]: f for f in fx.fs}
    out = {f["u"] for f in fx.fs if f.get("ctor") or f.get("dtor") or f.get("cls") and last(strip_targs(f["n"])).lstrip("~") ==
           last(strip_targs(f["cls"]))}
    while True:
        add = set()
        for f in fx.fs:
            cs = fx.callers.get(f["u"], set())
            if f["u"] not in out and f.get("cls") and not f.get("static") and cs and all(
                    c in out and by.get(c, {}).get("cls") == f["cls"] for c in cs):
                add.add(f["u"])
        if not add:
            return out
        out |= add


def entries(sh):
    """mutexes certainly held on entry of each function"""
    fx = sh.fx
    by = {f["u"]: f for f in fx.fs if own(f)}
    sites = {}
    taken = set()
    for f in by.values():
        for n, h in fx.calls[f["u"]]:
            g = fx.look(n, f)
            if g is not None:
                sites.setdefault(g["u"], []).append((f["u"], h, n))
        for n in walk(f["b"]):
            if n.get("k") == "ref" and n.get("dk") == "func" and n.get("u"):
                taken.add(n["u"])
    TOP = None
    ent = {}
    for u, f in by.items():
        public = f.get("decl", f["file"]).startswith(REPO + "/include") or f.get("decl", "").endswith(".h")
        hidden = f.get("internal") or f.get("access") in (1, 2) or f.get("cls") and not public
        ent[u] = TOP if hidden and sites.get(u) and u not in taken else frozenset()
    ch = True
    while ch:
        ch = False
        for u, f in by.items():
            if ent[u] is not None and not ent[u]:
                continue
            if u not in sites:
                continue
            cur = TOP
            for c, h, n in sites[u]:
                e = ent.get(c, frozenset())
                if e is None:
                    continue
                s = {m for m in set(h) | set(e) if not (isinstance(m, tuple))} | {
                    m for m in h if isinstance(m, tuple)}
                cur = s if cur is TOP else cur & s
            if cur is not TOP:
                cur = frozenset(cur)
                if ent[u] is None or cur != ent[u]:
                    if ent[u] is None or cur < ent[u]:
                        ent[u] = cur
                        ch = True
    return {u: e or frozenset() for u, e in ent.items()}


def nm(m):
    return m if isinstance(m, str) else "/".join(str(x) for x in m[:2])


@check("C22", "lockset dataflow over the call graph, effect summaries of const methods, lock-order graph",
       "State that several threads reach (static-storage objects and what they contain, members of classes with a mutex) is "
       "accessed with one common mutex held wherever any access writes it; a const method writes nothing of its object without a "
       "lock; a mutex is not taken twice by one thread and no two are taken in both orders; a check of a shared container and "
       "the act it licenses are in one critical section.")
def c22(ctx):
    p = ctx.p
    sh = Shared(ctx)
    fx = sh.fx
    mine = [f for f in fx.fs if own(f)]
    for f in mine:
        fx.locks(f)
    built = build_only(sh)
    ent = entries(sh)
    ctx.tally("static objects", len(sh.objects))
    ctx.tally("shared classes", len(sh.classes))
    ctx.tally("shared fields", len(sh.fields))

    def held(f, n):
        return fx.held[f["u"]].get(id(n), frozenset()) | ent.get(f["u"], frozenset())

    # (a) locksets -------------------------------------------------------------------------------------------------------
    acc = {}
    params = {}
    for f in mine:
        if f["u"] in built:
            continue
        for pl, wr, n, what in sh.accesses(f):
            if id(n) not in fx.held[f["u"]]:
                continue            # never executed
            if isinstance(pl, tuple):
                params.setdefault((f["u"], pl[1]), []).append((wr, held(f, n), n, what, f))
            else:
                acc.setdefault(pl, []).append((wr, held(f, n), n, what, f))
    # a shared place handed to a function by reference: its accesses happen there
    for f in mine:
        if f["u"] in built:
            continue
        for n in walk(f["b"]):
            if n.get("k") != "call":
                continue
            g = fx.look(n, f)
            if g is None or not g.get("b"):
                continue
            for i, a in enumerate(n.get("a", ())):
                if i >= len(g["ps"]) or not g["ps"][i]["t"].rstrip().endswith(("&", "*")):
                    continue
                pl = sh.place(a, f)
                if pl is None or isinstance(pl, tuple):
                    continue
                inside = params.get((g["u"], i), ())
                for wr, h, q, what, gg in inside:
                    sub = set()
                    for m in h:
                        if isinstance(m, tuple) and m[0] == "param":
                            m = fx.mkey(n["a"][m[1]], f) if m[1] < len(n["a"]) else m
                        sub.add(m)
                    acc.setdefault(pl, []).append((wr, frozenset(sub) | held(f, n), q, what + " in " + last(g["n"]), gg))
                if not inside and i in fx.w.get(g["u"], ()):
                    acc.setdefault(pl, []).append((True, held(f, n), n, "written by " + last(g["n"]), f))
    for pl, xs in sorted(acc.items()):
        if not any(w for w, *_ in xs):
            ctx.ok("%s is only read after it is made" % pl, "%d accesses" % len(xs))
            continue
        real = [{m for m in h if isinstance(m, str)} for _, h, *_ in xs]
        unknown = [any(isinstance(m, tuple) and m[0] in ("?", "param") for m in h) for _, h, *_ in xs]
        common = set.intersection(*real)
        if common:
            for w, h, n, what, f in xs:
                ctx.ok("%s (%s) under %s" % (pl, what, sorted(common)[0]), ctx.loc(f, n.get("l")))
            continue
        # the mutex that guards most of the accesses
        cnt = {}
        for r in real:
            for m in r:
                cnt[m] = cnt.get(m, 0) + 1
        best = max(sorted(cnt), key=lambda m: cnt[m]) if cnt else None
        for (w, h, n, what, f), r, u in zip(xs, real, unknown):
            if best in r:
                ctx.ok("%s (%s) under %s" % (pl, what, best), ctx.loc(f, n.get("l")))
            elif u:
                ctx.undecide("%s (%s)" % (pl, what), ctx.loc(f, n.get("l")), "held mutex not resolved")
            else:
                ctx.bad("shared state is accessed under its mutex", ctx.loc(f, n.get("l")),
                        "%s is %s here %s; other threads write it%s" % (
                            pl, what, "with %s held" % ", ".join(sorted(r)) if r else "with no mutex held",
                            " under " + best if best else ""), "lock:%s in %s" % (pl, strip_targs(f["n"])))
        for _, _, _, _, f in xs:
            ctx.saw(f)

    # (b) const methods ------------------------------------------------------------------------------------------------------
    for f in mine:
        if not f.get("const") or not f.get("cls") or f["rt"] == "void" and not any(
                q["t"].rstrip().endswith(("&", "*")) and not q["t"].startswith("const ") for q in f["ps"]):
            continue        # nothing to observe: a setter, whatever its qualifier
        ctx.saw(f)
        hit = None
        for rs, n in fx.direct(f):
            if "this" in rs:
                h = held(f, n)
                if not {m for m in h}:
                    hit = n
                    break
        if hit is None:
            ctx.ok("const method writes nothing of its object: " + strip_targs(f["n"]), ctx.loc(f))
        else:
            ctx.bad("a const method writes nothing of its object", ctx.loc(f, hit.get("l")),
                    "%s is const, so it may run on one object from several threads, yet it writes the object without a lock" % f["n"],
                    "const:" + strip_targs(f["n"]))

    # (c) deadlock -------------------------------------------------------------------------------------------------------------
    trans = {f["u"]: {m for m, _, _ in fx.acqs[f["u"]]} for f in mine}
    ch = True
    while ch:
        ch = False
        for f in mine:
            cur = trans[f["u"]]
            for n, _ in fx.calls[f["u"]]:
                g = fx.look(n, f)
                if g is not None and g["u"] in trans:
                    add = {m for m in trans[g["u"]] if isinstance(m, str)} - cur
                    if add:
                        cur |= add
                        ch = True
    single = {n for n in sh.classes if "static object" in sh.classes[n]}

    def unique(m):
        """one mutex object, not one per instance"""
        if not isinstance(m, str):
            return False
        cls = m.rsplit("::", 1)[0]
        return cls not in p.records or m not in sh.mutex_fields or cls in single
    sh.mutex_fields = {q["n"] for r in p.records.values() for q in r.get("fields", ()) if is_mutex(q["t"])}
    rec = {q["n"] for r in p.records.values() for q in r.get("fields", ()) if "recursive" in q["t"]} | {
        g["n"] for g in p.globals.values() if "recursive" in g["t"]}
    edges = {}
    for f in mine:
        for m, h, n in fx.acqs[f["u"]]:
            hh = h | ent.get(f["u"], frozenset())
            if m in hh and m not in rec:
                ctx.bad("a mutex is not taken by the thread that holds it", ctx.loc(f, n.get("l")),
                        "%s is taken while already held" % nm(m), "twice:%s in %s" % (nm(m), strip_targs(f["n"])))
            else:
                ctx.ok("%s is free when taken" % nm(m), ctx.loc(f, n.get("l")))
            for x in hh:
                if isinstance(x, str) and isinstance(m, str) and x != m:
                    edges.setdefault((x, m), (f, n))
        for n, h in fx.calls[f["u"]]:
            g = fx.look(n, f)
            if g is None or not h or g["u"] not in trans:
                continue
            o = n.get("o")
            for m in trans[g["u"]]:
                if m in h and m not in rec and (unique(m) or o is None or o.get("k") == "this"):
                    ctx.bad("a mutex is not taken by the thread that holds it", ctx.loc(f, n.get("l")),
                            "%s is held here and %s takes it again" % (nm(m), g["n"]),
                            "twice:%s in %s" % (nm(m), strip_targs(f["n"])))
                for x in h:
                    if isinstance(x, str) and isinstance(m, str) and x != m:
                        edges.setdefault((x, m), (f, n))
        for m, line in fx.left[f["u"]]:
            if last(short(f)) in ("lock", "lock_shared", "try_lock") or f["u"] in built:
                continue
            ctx.bad("a mutex taken is given back on every path", ctx.loc(f, line), "%s is still locked on this return" % nm(m),
                    "left:%s in %s" % (nm(m), strip_targs(f["n"])))
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    for (a, b), (f, n) in sorted(edges.items(), key=lambda q: q[0]):
        if reach(b, a):
            ctx.bad("mutexes are always taken in one order", ctx.loc(f, n.get("l")),
                    "%s is taken while %s is held; elsewhere the other way round" % (b, a), "order:%s,%s" % tuple(sorted((a, b))))
        else:
            ctx.ok("%s before %s, never the other way round" % (a, b), ctx.loc(f, n.get("l")))

    # (d) check and act together ------------------------------------------------------------------------------------------------
    for f in mine:
        if f["u"] in built:
            continue
        tests, takes = {}, []
        for pl, wr, n, what in sh.accesses(f):
            if isinstance(pl, tuple) or n.get("k") != "call":
                continue
            t = strip_targs(bare(sh.fields[pl][1])) if pl in sh.fields else ""
            if t not in CONT:
                continue
            if what in TEST:
                tests.setdefault(pl, []).append(n)
            elif what in TAKE:
                takes.append((pl, n, what))
        for pl, n, what in takes:
            if not held(f, n):
                continue        # reported above
            if ent.get(f["u"]):
                ctx.ok("%s of %s in its caller's critical section" % (what, pl), ctx.loc(f, n.get("l")))
                continue
            sec = fx.sect[f["u"]].get(id(n))
            same = [q for q in tests.get(pl, ()) if fx.sect[f["u"]].get(id(q)) == sec]
            if same:
                ctx.ok("%s of %s is tested in the same critical section" % (what, pl), ctx.loc(f, n.get("l")))
            elif sec and sec[0] in ("join", "named", "async"):
                ctx.undecide("%s of %s" % (what, pl), ctx.loc(f, n.get("l")), "critical section not resolved")
            else:
                other = tests.get(pl)
                ctx.bad("a shared container is tested and used in one critical section", ctx.loc(f, n.get("l")),
                        "%s of %s: %s" % (what, pl, "the test is made in another critical section, so another thread may have "
                                          "emptied it" if other else "nothing in this critical section tests that it holds an element"),
                        "toctou:%s in %s" % (pl, strip_targs(f["n"])))
