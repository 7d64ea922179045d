"""Gated value-numbering over the structured AST.

Every function is walked once per call context; at joins values are merged with
gating terms (ite), loops are closed with binders (each / exists / fold).  No
path is enumerated and nothing is executed: the result is a set of Herbrand
terms describing which value flows where under which gate.
"""
from .prog import strip_targs, AnalysisBroken
from .terms import *
from . import terms as _t

ASSOC = {"+", "*", "&", "|", "^", "concat"}
WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16,
         "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64,
         "unsigned long long": 64}


def wty(t):
    return WIDTH.get(t.replace("const ", "").replace("volatile ", "").strip())


def shortcls(n):
    return n.replace("electionguard::", "")


def last(n):
    return n.split("::")[-1]


class State:
    __slots__ = ("S", "pc", "dead")

    def __init__(self, S, pc):
        self.S = S
        self.pc = pc
        self.dead = False

    def copy(self):
        s = State(dict(self.S), self.pc)
        s.dead = self.dead
        return s


def simp(c, pc):
    cs = conjuncts(pc)
    if not cs:
        return c
    s = set(cs)
    return _simp(c, s)


def _simp(c, s):
    if is_bool(c):
        return c
    if c in s:
        return TRUE
    if neg1(c) in s:
        return FALSE
    if c.op == "and":
        return conj(*[_simp(x, s) for x in c.a])
    if c.op == "or":
        return disj(*[_simp(x, s) for x in c.a])
    if c.op == "not":
        return neg(_simp(c.a[0], s))
    return c


def relpc(pc, base):
    b = set(conjuncts(base))
    return conj(*[x for x in conjuncts(pc) if x not in b])


class Ev:
    """Effect: an un-inlined (opaque or external) call."""
    __slots__ = ("pc", "t", "line", "file", "fn", "node", "stack", "seqno")


class Interp:
    def __init__(self, prog, opaque=(), inline=None, maxdepth=40, identity=(), models=None, budget=400000,
                 opaque_pred=None, transparent_clone=True, record_new=False, no_copy_identity=(), fresh=()):
        self.p = prog
        self.opaque = set(opaque)
        self.const_globals = False
        self.indexed = None
        self.gcache = {}
        self.opaque_pred = opaque_pred
        self.identity = set(identity)
        self.maxdepth = maxdepth
        self.nframe = 0
        self.nobj = 0
        self.nloop = 0
        self.alias = {}
        self.objcls = {}
        self.trace = []
        self.frames = []
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.budget = budget
        self.steps = 0
        self.unknowns = {}
        self.analysed = set()
        self.loopstack = []
        self.lams = {}
        self.ntry = 0
        self.throws = []
        self.transparent_clone = transparent_clone
        self.no_copy_identity = set(no_copy_identity)
        self.elemsrc = {}
        self.static_init = {}
        self.fresh = set(fresh)
        self.nfresh = 0
        self.loopsaved = []
        self.lens = 0               # lists of unknown content are looked at as lists of that many elements
        self._lists = None
        if not _t.BOOLFLDS:
            for r in prog.records.values():
                for f in r.get("fields", ()):
                    if f["t"].replace("const ", "") == "bool":
                        _t.BOOLFLDS.add(shortcls(f["n"]))

    def allloops(self):
        out = []
        for l in self.loopsaved:
            out.extend(l)
        return out + self.loopstack

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, this=None, pc=TRUE, S=None):
        """Analyse function definition fn; returns Result."""
        st = State(dict(S or {}), pc)
        vals = []
        for i, prm in enumerate(fn["ps"]):
            v = None
            if args is not None:
                v = args[i] if not isinstance(args, dict) else args.get(prm["n"])
            if v is None:
                v = sym(prm["n"] or "arg%d" % i)
            vals.append(v)
        self.throws = []
        self.lvinfo = {}    # loop-carried value -> (initial, after one iteration, collection)
        ret = self.call_body(fn, this if this is not None else sym("this"), vals, st, None, entry=True)
        return Result(self, fn, ret, st, self._last_returns, self.throws)

    # ------------------------------------------------------------ helpers
    def note(self, why, node=None):
        self.unknowns[why] = self.unknowns.get(why, 0) + 1

    def newobj(self, cls):
        self.nobj += 1
        o = T("obj", self.nobj)
        self.objcls[o] = cls
        return o

    def assume(self, st, c):
        c = simp(c, st.pc)
        st.pc = conj(st.pc, c)
        if st.pc is FALSE:
            st.dead = True

    def read(self, loc, st):
        o = loc.op
        if o == "var":
            al = self.alias.get(loc)
            if al is not None:
                return self.read(al, st)
            v = st.S.get(loc)
            if v is None:
                return unk("uninit " + str(loc.a[2]))
            return v
        if o == "fld":
            return self.field(loc.a[0], loc.a[1], st)
        if o == "deref":
            v = st.S.get(loc)
            return v if v is not None else loc.a[0]
        if o == "idx":
            return self.index(self.read(loc.a[0], st) if loc.a[0].op in ("var", "fld", "deref", "idx", "glob", "val") else loc.a[0], loc.a[1], st)
        if o == "val":
            return loc.a[0]
        if o == "glob":
            v = st.S.get(loc)
            return v if v is not None else self.gvalue(loc, st)
        raise AnalysisBroken("read " + o)

    def gvalue(self, g, st):
        """Value of a constant table, if it is to be looked into."""
        gi = self.p.globals.get(g.a[0])
        if not gi or gi.get("i") is None or not gi["t"].startswith("const "):
            return g
        i = gi["i"]
        while i["k"] == "cast":
            i = i["e"]
        if i["k"] == "bin":
            v = self.gcache.get(g)
            if v is None:
                v = self.eval(i, State({}, TRUE))
                v = self.gcache[g] = v if v.op == "int" else g
            return v
        if not self.const_globals:
            return g
        if i["k"] not in ("ctor", "init"):
            return g
        v = self.gcache.get(g)
        if v is None:
            v = self.gcache[g] = self.reify(self.eval(i, State({}, TRUE)), st)
        return v

    def field(self, base, name, st):
        if base.op == "addr":
            base = self.read(base.a[0], st)
        if base.op == "ite":
            return ite(base.a[0], self.field(base.a[1], name, st), self.field(base.a[2], name, st))
        loc = T("fld", base, name)
        v = st.S.get(loc)
        if v is not None:
            return v
        if base.op == "new":
            for i in range(1, len(base.a), 2):
                if base.a[i] == name:
                    return base.a[i + 1]
            if name.endswith("::pimpl"):
                return base
        if base.op == "obj":
            return unk("unset field " + name)
        if base.op == "app" and base.a[0] == "tuple" and len(base.a) == 3 and name.split("::")[-1] in ("first", "second"):
            return base.a[1 if name.endswith("first") else 2]
        if name.endswith("::pimpl"):
            return base
        if self.lens and base.op != "lv" and self.listfield(name):
            return instance(loc, self.lens)
        return loc

    def listfield(self, name):
        """Whether the member is a list, and an instance of it may be looked at instead."""
        if self._lists is None:
            self._lists = {n for r in self.p.records.values() for f in r.get("fields", ()) for n in (f["n"], shortcls(f["n"]))
                           if f["t"].startswith("std::vector<") and "unsigned char" not in f["t"]}
        return name in self._lists

    def index(self, base, key, st=None):
        if base.op == "addr" and st is not None:
            base = self.read(base.a[0], st)
        if key.op == "app" and key.a[0] == "indexof":
            el = key.a[1]
            if self.elemsrc.get(el, el.a[1] if el.op == "elem" else None) is base:
                return el
        if base.op == "seq":
            ps = base.a
            if key.op == "str":
                from .models import jlookup
                r = jlookup(base, key)
                if r is not None:
                    return ite(r[0], r[1], NULL)
            if key.op == "int" and all(p.op == "one" for p in ps) and 0 <= key.a[0] < len(ps):
                return ps[key.a[0]].a[0]
        if base.op == "ite":
            return ite(base.a[0], self.index(base.a[1], key, st), self.index(base.a[2], key, st))
        return app("idx", base, key)

    def write(self, loc, v, st):
        o = loc.op
        if o == "var":
            al = self.alias.get(loc)
            if al is not None:
                return self.write(al, v, st)
            st.S[loc] = v
        elif o == "fld":
            base = loc.a[0]
            if base.op == "ite":
                c = base.a[0]
                for b, cc in ((base.a[1], c), (base.a[2], neg(c))):
                    l2 = T("fld", b, loc.a[1])
                    old = self.read(l2, st)
                    self.write(l2, ite(cc, v, old), st)
                return
            st.S[loc] = v
        elif o in ("deref", "glob"):
            st.S[loc] = v
        elif o == "idx":
            b = loc.a[0]
            if b.op in ("var", "fld", "deref", "idx", "glob"):
                old = self.read(b, st)
                if old.op in ("null",) or (old.op == "unk"):
                    old = EMPTY
                if loc.a[1].op == "str" or old.op == "seq" and (not old.a or any(p.op == "kv" for p in old.a)):
                    self.write(b, append(old, T("kv", loc.a[1], v)), st)
                else:
                    self.write(b, T("app", "upd", old, loc.a[1], v), st)
        elif o == "val":
            pass
        else:
            raise AnalysisBroken("write " + o)

    def reify(self, t, st, memo=None, stack=()):
        """Replace abstract objects by the record of their current fields."""
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "obj":
            if t in stack:
                return T("cyc")
            cls = self.objcls[t]
            fs = {}
            st2 = stack + (t,)
            for loc, v in st.S.items():
                if loc.op == "fld" and loc.a[0] is t:
                    fs[loc.a[1]] = self.reify(v, st, memo, st2)
            flat = {}
            for k in fs:
                v = fs[k]
                if k.endswith("::pimpl") and v.op == "new":
                    for i in range(1, len(v.a), 2):
                        flat[v.a[i]] = v.a[i + 1]
                else:
                    flat[k] = v
            args = []
            for k in sorted(flat):
                args += [k, flat[k]]
            r = T("new", cls, *args)
        elif t.op == "addr":
            r = self.reify(self.read(t.a[0], st), st, memo, stack)
        elif t.op in ("lam", "lv"):
            r = t
        else:
            ch = False
            na = []
            for x in t.a:
                if isinstance(x, T):
                    y = self.reify(x, st, memo, stack)
                    ch = ch or y is not x
                    na.append(y)
                else:
                    na.append(x)
            r = rebuild(t.op, na) if ch else t
        memo[t] = r
        return r

    # ------------------------------------------------------------ merging
    def merge(self, base_pc, a, b):
        """Join two states forked at base_pc (either may be dead)."""
        if a.dead and b.dead:
            return a
        if a.dead:
            return b
        if b.dead:
            return a
        ra, rb = relpc(a.pc, base_pc), relpc(b.pc, base_pc)
        ca, cb = set(conjuncts(ra)), set(conjuncts(rb))
        common = ca & cb
        ga = conj(*[x for x in ca if x not in common])
        gb = conj(*[x for x in cb if x not in common])
        g = ga
        if len(conjuncts(gb)) < len(conjuncts(ga)):
            g = neg(gb)
        # the decisive gate: a conjunct whose complement is in the other side
        for x in conjuncts(ga):
            if neg1(x) in cb:
                g = x
                break
        S = {}
        for k in a.S.keys() | b.S.keys():
            va, vb = a.S.get(k), b.S.get(k)
            if va is vb:
                S[k] = va
                continue
            if va is None or vb is None:
                if k.op == "fld" and k.a[0].op != "obj":
                    dflt = k if not k.a[1].endswith("::pimpl") else k.a[0]
                    va = dflt if va is None else va
                    vb = dflt if vb is None else vb
                elif k.op == "deref":
                    va = k.a[0] if va is None else va
                    vb = k.a[0] if vb is None else vb
                elif k.op == "glob":
                    va = k if va is None else va
                    vb = k if vb is None else vb
                else:
                    S[k] = va if va is not None else vb
                    continue
            S[k] = ite(g, va, vb)
        pc = conj(base_pc, *common, disj(ga, gb))
        r = State(S, pc)
        return r

    def branch(self, st, c, fa, fb):
        """Run fa under c and fb under !c; join into st; return joined value."""
        c = simp(c, st.pc)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        base = st.pc
        sa, sb = st.copy(), st.copy()
        self.assume(sa, c)
        self.assume(sb, neg(c))
        va = fa(sa) if not sa.dead else None
        vb = fb(sb) if not sb.dead else None
        m = self.merge(base, sa, sb)
        st.S, st.pc, st.dead = m.S, m.pc, m.dead
        if sa.dead:
            return vb
        if sb.dead:
            return va
        if va is None or vb is None:
            return va if vb is None else vb
        return ite(c, va, vb)

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        if s is None or st.dead:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken("step budget exhausted")
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            m(s, st)
        else:
            self.eval(s, st)

    def s_block(self, s, st):
        for x in s["c"]:
            if st.dead:
                return
            self.exec(x, st)

    def s_nop(self, s, st):
        pass

    def frame(self):
        return self.frames[-1]

    def varloc(self, v):
        return T("var", self.frame()["id"], v["id"], v["n"])

    def declvar(self, v, st):
        loc = self.varloc(v)
        self.alias.pop(loc, None)
        if v.get("static") and not v.get("tls"):
            g = T("glob", v.get("u") or v["n"], v["n"])
            self.alias[loc] = g
            if "const " not in v["t"] and not v["t"].startswith("const"):
                # mutable function-local static: symbolic, initialiser noted
                if g not in st.S and v.get("i") is not None:
                    self.static_init.setdefault(g, v["i"])
                return
            if v.get("i") is not None and g not in st.S:
                st.S[g] = self.eval(v["i"], st)
            return
        ty = v["t"]
        i = v.get("i")
        if ty.endswith("&") and i is not None:
            l = self.lval(i, st)
            if l is not None:
                self.alias[loc] = self.resolve(l)
            else:
                st.S[loc] = self.eval(i, st)
        elif i is not None:
            x = self.eval(i, st)
            st.S[loc] = x
        else:
            st.S[loc] = self.default_value(ty)
        for b in v.get("bind", ()):
            bl = T("var", self.frame()["id"], b["id"], b["n"])
            e = b.get("e")
            base = self.read(loc, st)
            idx = v["bind"].index(b)
            st.S[bl] = self.tuple_get(base, idx)

    def tuple_get(self, base, i):
        if base.op == "app" and base.a[0] == "tuple":
            return base.a[1 + i]
        if base.op == "kv":
            return base.a[i]
        return app("get%d" % i, base)

    def resolve(self, loc):
        while loc.op == "var" and loc in self.alias:
            loc = self.alias[loc]
        return loc

    def default_value(self, ty):
        t = ty.replace("const ", "")
        if t.startswith(("std::unique_ptr", "std::shared_ptr")) or t.endswith("*"):
            return NULL if not t.endswith("*") else unk("uninit ptr")
        if t.startswith(("std::vector", "std::map", "std::unordered_map", "std::set", "std::unordered_set",
                         "std::deque", "std::list", "std::queue", "nlohmann::")):
            return EMPTY
        if t == "std::string":
            return string("")
        return unk("uninit " + t)

    def s_decl(self, s, st):
        for v in s["vars"]:
            self.declvar(v, st)

    def s_if(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        if s.get("cv"):
            self.declvar(s["cv"], st)
        c = self.cond(s["c"], st)
        if st.dead:
            return
        self.branch(st, c, lambda x: self.exec(s["a"], x), lambda x: self.exec(s["b"], x))

    def cond(self, e, st):
        return self.tobool(self.eval(e, st), e)

    def tobool(self, v, e=None):
        if isboolean(v):
            return v
        if v.op == "int":
            return boolean(v.a[0] != 0)
        if v.op == "null":
            return FALSE
        if v.op == "ite":
            return ite(v.a[0], self.tobool(v.a[1], e), self.tobool(v.a[2], e))
        t = (e or {}).get("t", "")
        if t and t.replace("const ", "") not in ("bool",) and (t.endswith("*") or "_ptr<" in t):
            return self.nonnull(v)
        return v

    def nonnull(self, v):
        if v.op in ("obj", "new", "str", "addr", "lam"):
            return TRUE
        if v.op == "null":
            return FALSE
        if v.op == "ite":
            return ite(v.a[0], self.nonnull(v.a[1]), self.nonnull(v.a[2]))
        if v.op == "app" and v.a[0] in NONNULL or found(v):
            return TRUE
        return T("nonnull", v)

    def s_ret(self, s, st):
        fr = self.frame()
        v = None
        if s.get("e") is not None:
            rt = fr.get("rt", "")
            if rt.endswith("&"):
                l = self.lval(s["e"], st)
                if l is not None:
                    l = self.resolve(l)
                    v = T("addr", l) if l.op in ("fld", "var", "deref", "glob", "idx") else self.read(l, st)
                    if v.op == "addr" and v.a[0].op == "fld" and v.a[0].a[0].op not in ("obj",) and v.a[0] not in st.S:
                        v = self.read(l, st)
                else:
                    v = self.eval(s["e"], st)
            else:
                v = self.eval(s["e"], st)
                if rt == "bool":
                    v = self.tobool(v, s["e"])
        if st.dead:
            return
        fr["rets"].append((st.pc, v, st.copy(), s.get("l")))
        st.dead = True

    def s_break(self, s, st):
        if not self.loopstack:
            st.dead = True
            return
        self.loopstack[-1]["brk"].append(st.copy())
        st.dead = True

    def s_continue(self, s, st):
        for l in reversed(self.loopstack):
            if l["kind"] == "loop":
                l["cont"].append(st.copy())
                break
        st.dead = True

    def s_try(self, s, st):
        self.ntry += 1
        n = self.ntry
        fr = self.frame()
        base = st.pc
        pre = st.copy()
        body = st.copy()
        self.exec(s["b"], body)
        res = body
        ex = T("exc", n)
        states = []
        for i, h in enumerate(s["h"]):
            hs = pre.copy()
            # anything written in the body may or may not have happened
            for k, v in body.S.items():
                if k in hs.S and hs.S[k] is not v:
                    hs.S[k] = unk("after exception")
            self.assume(hs, conj(ex, T("eq", app("excty", num(n)), num(i))) if len(s["h"]) > 1 else ex)
            if h.get("v"):
                hs.S[self.varloc(h["v"])] = app("exception", num(n))
            self.exec(h["b"], hs)
            states.append(hs)
        cur = body
        for hs in states:
            cur = self.merge(base, cur, hs)
        st.S, st.pc, st.dead = cur.S, cur.pc, cur.dead

    def s_switch(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        x = self.eval(s["c"], st)
        body = s["b"]
        stmts = []
        labels = []     # (index, value or None)

        def flat(b):
            if b["k"] == "block":
                for y in b["c"]:
                    flat(y)
            elif b["k"] in ("case", "default"):
                labels.append((len(stmts), None if b["k"] == "default" else num(int(b["iv"])) if "iv" in b else self.eval(b["v"], st)))
                if b.get("b"):
                    flat(b["b"])
            else:
                stmts.append(b)
        flat(body)
        base = st.pc
        conds = []
        nots = []
        for i, v in labels:
            if v is not None:
                c = self.eq(x, v)
                conds.append((i, c))
                nots.append(neg(c))
        default = [i for i, v in labels if v is None]
        conds.append((default[0] if default else len(stmts), conj(*nots)))
        outs = []
        ctx = {"kind": "switch", "brk": [], "cont": []}
        self.loopstack.append(ctx)
        for i, c in conds:
            b = st.copy()
            self.assume(b, c)
            if b.dead:
                continue
            for y in stmts[i:]:
                if b.dead:
                    break
                self.exec(y, b)
            if not b.dead:
                outs.append(b)
        self.loopstack.pop()
        outs += ctx["brk"]
        self._join_into(st, base, outs)

    def _join_into(self, st, base, outs):
        if not outs:
            st.dead = True
            return
        cur = outs[0]
        for o in outs[1:]:
            cur = self.merge(base, cur, o)
        st.S, st.pc, st.dead = cur.S, cur.pc, cur.dead

    def s_case(self, s, st):
        self.exec(s["b"], st)

    s_default = s_case
    s_label = s_case

    def s_goto(self, s, st):
        self.note("goto")
        st.dead = True

    def s_otherstmt(self, s, st):
        for c in s["c"]:
            self.exec(c, st)

    # ------------------------------------------------------------ loops
    def s_rfor(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        coll = self.eval(s["r"], st)
        if st.dead:
            return

        def setvar(el, x):
            v = s["v"]
            loc = self.varloc(v)
            self.alias.pop(loc, None)
            x.S[loc] = el
            for i, b in enumerate(v.get("bind", ())):
                x.S[T("var", self.frame()["id"], b["id"], b["n"])] = self.tuple_get(el, i)
        self.over(coll, setvar, lambda x: self.exec(s["b"], x), st, s["b"])

    def over(self, coll, setvar, body, st, bodynode=None):
        """Iterate body over collection value coll."""
        coll = self.reify(coll, st) if coll.op in ("obj", "addr") else coll
        if coll.op == "addr":
            coll = self.read(coll.a[0], st)
        if coll.op == "ite" and (coll.a[1].op in ("seq", "null") or coll.a[2].op in ("seq", "null")):
            c = simp(coll.a[0], st.pc)
            if is_bool(c):
                return self.over(coll.a[1 if c is TRUE else 2], setvar, body, st, bodynode)
            if not (bodynode and _has_break(bodynode)):
                return self.branch(st, c, lambda x: self.over(coll.a[1], setvar, body, x, bodynode),
                                   lambda x: self.over(coll.a[2], setvar, body, x, bodynode))
        if coll.op == "null":
            return
        if coll.op == "seq" and not (bodynode and _has_break(bodynode)):
            # loop fusion over a sequence whose construction is known
            ok = all(p.op in ("one", "when", "splice", "kv", "kvnew", "jnull") or (p.op == "each" and p.a[3] is FALSE) for p in coll.a)
            if ok and (len(coll.a) <= 12 or len(coll.a) <= 128 and all(p.op == "one" for p in coll.a)):
                body = self.iteration(body)
                for p in coll.a:
                    if st.dead:
                        return
                    self._over_piece(p, setvar, body, st)
                return
        if coll.op == "seq" and self.lens and len(coll.a) <= 12 and all(p.op in ("one", "jnull") for p in coll.a):
            broken = []
            body = self.iteration(body, broken)
            base = st.pc
            for p in coll.a:
                if not st.dead and p.op == "one":
                    self._over_piece(p, setvar, body, st)
            self.rejoin(st, base, broken)
            return
        self.loop(coll, setvar, body, st)

    def iteration(self, body, broken=None):
        """One turn of a loop that is followed turn by turn: `continue` ends it, `break` leaves the loop (with the state added to broken)."""
        def f(x):
            base = x.pc
            ctx = {"kind": "loop", "brk": [], "cont": [], "base": base, "el": None}
            self.loopstack.append(ctx)
            body(x)
            self.loopstack.pop()
            self.rejoin(x, base, ctx["cont"])
            if broken is not None:
                broken.extend(ctx["brk"])
        return f

    def rejoin(self, st, base, others):
        if others:
            cur = None if st.dead else st
            for o in others:
                cur = o if cur is None else self.merge(base, cur, o)
            st.S, st.pc, st.dead = cur.S, cur.pc, cur.dead

    def _over_piece(self, p, setvar, body, st):
        if p.op == "one":
            setvar(p.a[0], st)
            body(st)
        elif p.op in ("kv", "kvnew"):
            setvar(T("kv", *p.a), st)
            body(st)
        elif p.op == "when":
            def f(x):
                for q in p.a[1].a:
                    if not x.dead:
                        self._over_piece(q, setvar, body, x)
            self.branch(st, p.a[0], f, lambda x: None)
        elif p.op == "splice":
            self.loop(p.a[0], setvar, body, st)
        elif p.op == "each":
            h, coll, sq, brk = p.a

            def inner(el_outer):
                def sv(el, x):
                    pass
                return sv
            # loop over coll with elements mapped through sq
            holder = {}

            def setvar2(el, x):
                holder["el"] = el

            def body2(x):
                m = {T("bv", h): holder["el"]}
                memo = {}
                for q in sq.a:
                    if x.dead:
                        return
                    self._over_piece(subst(q, m, memo), setvar, body, x)
            self.loop(coll, setvar2, body2, st)

    def s_for(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        r = self._counter(s, st)
        if r:
            coll, var, mk, end = r

            def setvar(el, x):
                x.S[var] = mk(el)
            self.over(coll, setvar, lambda x: self.exec(s["b"], x), st, s["b"])
            if end is not None and not st.dead:
                st.S[var] = end
            return
        self._generic_loop(s, st, s.get("c"), s.get("inc"), False)

    def s_while(self, s, st):
        self._generic_loop(s, st, s.get("c"), None, False)

    def s_do(self, s, st):
        self._generic_loop(s, st, s.get("c"), None, True)

    def _generic_loop(self, s, st, c, inc, post):
        self.nloop += 1
        coll = T("app", "while#", num(s.get("l", 0)))

        def body(x):
            if c is not None and not post:
                cv = s.get("cv")
                if cv:
                    self.declvar(cv, x)
                cc = self.cond(c, x)
                cc = simp(cc, x.pc)
                if cc is not TRUE:
                    out = x.copy()
                    self.assume(out, neg(cc))
                    if not out.dead:
                        self.loopstack[-1]["brk"].append(out)
                    self.assume(x, cc)
            if x.dead:
                return
            self.exec(s["b"], x)
            # continue joins here, before inc
            ctx = self.loopstack[-1]
            outs = ([] if x.dead else [x.copy()]) + ctx["cont"]
            ctx["cont"] = []
            self._join_into(x, ctx["base"], outs)
            if x.dead:
                return
            if inc is not None:
                self.eval(inc, x)
            if post and c is not None:
                self.cond(c, x)
        self.loop(coll, lambda el, x: None, body, st)

    def _counter(self, s, st):
        """Recognise counted / iterator loops: (collection, var loc, elem->var value, end value)."""
        c, inc = s.get("c"), s.get("inc")
        if not c or not inc:
            return None
        # increment
        v = None
        if inc["k"] == "un" and inc["op"] in ("++", "p++"):
            v = inc["e"]
        elif inc["k"] == "asg" and inc["op"] == "+=" and _lit(inc["b"]) == 1:
            v = inc["a"]
        elif inc["k"] == "call" and inc.get("op") == "++":
            v = inc.get("o") or (inc["a"][0] if inc["a"] else None)
        if not v or v["k"] != "ref" or v.get("dk") not in ("local",):
            return None
        vid = v["id"]
        loc = T("var", self.frame()["id"], vid, v["n"])
        init = st.S.get(loc)
        if init is None:
            return None
        if _assigns(s["b"], vid):
            return None
        # condition
        a = b = None
        strict = True
        if c["k"] == "bin" and c["op"] in ("<", "!=", ">", "<="):
            a, b, op = c["a"], c["b"], c["op"]
        elif c["k"] == "call" and c.get("op") in ("!=", "<"):
            xs = ([c["o"]] if c.get("o") else []) + c["a"]
            if len(xs) != 2:
                return None
            a, b, op = xs[0], xs[1], c["op"]
        else:
            return None

        def isv(e):
            while e and e["k"] == "cast":
                e = e["e"]
            return e and e["k"] == "ref" and e.get("id") == vid
        if op == ">":
            a, b = b, a
        plus = 0
        if not isv(a):
            if op == "!=" and isv(b):
                a, b = b, a
            elif op != "!=" and a["k"] == "bin" and a["op"] == "+" and isv(a["a"]) and _lit(a["b"]) is not None:
                plus = _lit(a["b"])         # i + c < n
            else:
                return None
        bound = self.eval(b, st)
        if plus:
            bound = self.arith("-", bound, num(plus))
        if op == "<=":
            bound = self.arith("+", bound, num(1))
        if init.op == "int" and init.a[0] == 0:
            n = bound
            if n.op == "app" and n.a[0] == "size":
                coll = n.a[1]
                return coll, loc, (lambda el: app("indexof", el) if el.op == "elem" else app("indexof", el)), bound
            if n.op == "int" and False:
                pass
            coll = app("range", n)
            return coll, loc, (lambda el: el), bound
        if init.op == "app" and init.a[0] == "begin" and bound.op == "app" and bound.a[0] == "end" and init.a[1] is bound.a[1]:
            return init.a[1], loc, (lambda el: app("iter", el)), None
        if init.op == "app" and init.a[0] == "rbegin" and bound.op == "app" and bound.a[0] == "rend" and init.a[1] is bound.a[1]:
            return app("reversed", init.a[1]), loc, (lambda el: app("iter", el)), None
        if init.op == "int" or True:
            coll = app("range2", init, bound)
            return coll, loc, (lambda el: el), bound

    def loop(self, coll, setvar, body, st):
        if coll.op == "seq" and not coll.a:
            return
        self.nloop += 1
        lid = self.nloop
        # alpha-canonical collection of elem: the collection itself
        el = T("elem", lid, coll)
        base = st.pc
        changed = {}
        frame = self.frame()
        nrets0 = len(frame["rets"])
        final = None
        for it in range(4):
            mark = len(self.trace)
            tmark = len(self.throws)
            frame["rets"] = frame["rets"][:nrets0]
            b = st.copy()
            for k, lv in changed.items():
                b.S[k] = lv
            setvar(el, b)
            before = dict(b.S)
            ctx = {"kind": "loop", "brk": [], "cont": [], "base": b.pc, "el": el}
            self.loopstack.append(ctx)
            body(b)
            self.loopstack.pop()
            outs = ([] if b.dead else [b]) + ctx["cont"]
            allouts = outs + ctx["brk"]
            new = False
            for o in allouts:
                for k, v in o.S.items():
                    if k in changed:
                        continue
                    if k in before:
                        if before[k] is v:
                            continue
                        if k not in st.S and k.op == "var":
                            continue    # loop-local variable
                    elif k.op == "fld" and k.a[0].op != "obj" or k.op in ("deref", "glob"):
                        if el in free_elems(k):
                            continue
                    else:
                        continue
                    changed[k] = T("lv", lid, k)
                    new = True
            if not new:
                final = (b, outs, ctx["brk"], mark, tmark)
                break
            if it < 3:
                del self.trace[mark:]
                del self.throws[tmark:]
        else:
            self.note("loop did not stabilise")
            final = (b, outs, ctx["brk"], mark, tmark)
        b, outs, brks, mark, tmark = final
        # returns inside the loop
        inner = frame["rets"][nrets0:]
        frame["rets"] = frame["rets"][:nrets0]
        survive = []
        for o in outs + brks:
            survive.append(relpc(o.pc, base))
        brkc = disj(*[relpc(o.pc, base) for o in brks]) if brks else FALSE
        surv = disj(*survive) if survive else FALSE
        retc = FALSE
        for (pc, v, rs, ln) in inner:
            c = relpc(pc, base)
            retc = disj(retc, c)
        # drop lv-dependence: conditions over other loop-carried values stay opaque
        def ex(c):
            return exists(el, coll, c)
        for (pc, v, rs, ln) in inner:
            c = relpc(pc, base)
            v2 = v
            if v is not None:
                v2 = self.reify(v, rs)
                if el in free_elems(v2):
                    h, (c2, v3) = bind(el, c, v2)
                    v2 = T("app", "pick", num(h), coll, c2, v3)
            rs2 = rs.copy()
            rs2.S = dict(st.S)
            for k in changed:
                if k in rs.S:
                    x = self.reify(rs.S[k], rs)
                    if el in free_elems(x) or any(f.op == "lv" for f in free_elems(x)):
                        h, (c2, v3) = bind(el, c, x)
                        x = T("app", "pick", num(h), coll, c2, v3)
                    rs2.S[k] = x
            rs2.pc = conj(base, ex(c))
            frame["rets"].append((rs2.pc, v2, rs2, ln))
        # values after the loop
        S = dict(st.S)
        if outs or brks:
            cur = None
            for o in outs + brks:
                cur = o if cur is None else self.merge(base, cur, o)
            for k, lv in changed.items():
                v0 = st.S.get(k)
                if v0 is None:
                    v0 = self.read(k, st)
                bv = cur.S.get(k, lv)
                bv = self.reify(bv, cur)
                self.lvinfo[lv] = (v0, bv, coll, brkc)
                S[k] = self.close(v0, bv, lv, el, coll, brkc, st)
        st.S = S
        if not outs and not brks:
            # every iteration leaves: code after the loop only runs for an empty collection
            self.assume(st, app("empty", coll))
            return
        if coll.op == "app" and coll.a[0] == "while#":
            st.pc = base
        else:
            if brkc is FALSE:
                self.assume(st, neg(ex(neg(surv))))
            else:
                self.assume(st, neg(ex(conj(neg(surv), retc)))) if retc is not FALSE else None

    def close(self, v0, b, lv, el, coll, brk, st):
        """Value of a loop-carried location after the loop."""
        if b is lv:
            return v0
        isw = coll.op == "app" and coll.a[0] == "while#"
        # sequence append
        ps = pieces(b)
        if b.op == "seq" and ps and ps[0].op == "splice" and ps[0].a[0] is lv:
            rest = T("seq", *ps[1:])
            if lv not in free_elems(rest):
                if len(rest.a) == 1 and rest.a[0].op == "one" and rest.a[0].a[0] is el and brk is FALSE and not isw:
                    return append(v0 if v0.op != "unk" else EMPTY, T("splice", coll))
                h, (r2, b2) = bind(el, rest, brk)
                return append(v0 if v0.op != "unk" else EMPTY, T("each", h, coll, r2, b2))
        if not isw:
            def some(c, kb):
                """Some iteration that runs has c."""
                if kb is FALSE or implies(kb, c):
                    return exists(el, coll, c)
                if any(f.op == "lv" for f in free_elems(kb)):
                    return None
                h, (k2, c2) = bind(el, kb, c)
                return T("app", "upto", num(h), coll, k2, c2)
            if b.op == "ite" and lv in (b.a[1], b.a[2]):
                # a flag that some paths leave alone
                keep, t = (b.a[0], b.a[2]) if b.a[1] is lv else (neg(b.a[0]), b.a[1])
                if t.op == "and" and lv in t.a:
                    b = conj(lv, disj(keep, conj(*[x for x in t.a if x is not lv])))
                elif t.op == "or" and lv in t.a:
                    b = disj(lv, conj(neg(keep), disj(*[x for x in t.a if x is not lv])))
            if b.op == "or" and lv in b.a:
                c = disj(*[x for x in b.a if x is not lv])
                if lv not in free_elems(c):
                    x = some(c, subst(brk, {lv: FALSE}))
                    if x is not None:
                        return disj(v0, x)
            if b.op == "and" and lv in b.a:
                c = conj(*[x for x in b.a if x is not lv])
                if lv not in free_elems(c):
                    x = some(neg(c), subst(brk, {lv: TRUE}))
                    if x is not None:
                        return conj(v0, neg(x))
            if b.op == "ite" and lv in (b.a[1], b.a[2]):
                c, t = (b.a[0], b.a[1]) if b.a[2] is lv else (neg(b.a[0]), b.a[2])
                if lv not in free_elems(c) and lv not in free_elems(t):
                    if el not in free_elems(t):
                        x = some(c, subst(brk, {lv: neg(t)}) if t in (TRUE, FALSE) else brk)
                        if x is not None:
                            return ite(x, t, v0)
                    h, (c2, t2) = bind(el, c, t)
                    last = "first" if (brk is not FALSE and implies(c, brk)) else "last"
                    return ite(exists(el, coll, c), T("app", last, num(h), coll, c2, t2), v0)
            if is_bool(b) or not free_elems(b) & {lv, el}:
                # assigned the same value in every iteration
                if not any(f.op == "lv" for f in free_elems(b)):
                    return ite(app("empty", coll), v0, b)
            if not any(f.op == "lv" for f in free_elems(b)):
                # assigned anew in every iteration: the last one that runs decides
                if brk is FALSE:
                    h, (t2,) = bind(el, b)
                    return ite(app("empty", coll), v0, T("app", "last", num(h), coll, TRUE, t2))
                if brk is neg(b):
                    return ite(app("empty", coll), v0, forall(el, coll, b))
                if brk is b:
                    return ite(app("empty", coll), v0, exists(el, coll, b))
        r = self._fold(v0, b, lv, el, coll, brk)
        if r is not None:
            return r
        h, (b2, k2) = bind(el, b, brk)
        b2 = subst(b2, {lv: T("bv", h + 1)})
        if not isw and brk is FALSE and v0 in (TRUE, FALSE) and not any(f.op == "lv" and f is not lv for f in free_elems(b)):
            on, off = simp(subst(b, {lv: TRUE}), TRUE), simp(subst(b, {lv: FALSE}), TRUE)
            if on is not TRUE and off is not FALSE and on is not off and not contains(b, _vague):
                return T("app", "latest", num(h), coll, v0, b2, k2)     # a flag later elements set and clear again
        return T("app", "loop", num(h), coll, v0, b2, k2)

    def _fold(self, v0, b, lv, el, coll, brk):
        cond = TRUE
        t = b
        if t.op == "ite" and t.a[2] is lv:
            cond, t = t.a[0], t.a[1]
        elif t.op == "ite" and t.a[1] is lv:
            cond, t = neg(t.a[0]), t.a[2]
        if t.op == "app" and lv in t.a[1:] and len(t.a) >= 3:
            op = t.a[0]
            others = list(t.a[1:])
            pos = others.index(lv)
            others.pop(pos)
            if any(not isinstance(o, T) or lv in free_elems(o) for o in others) or lv in free_elems(cond):
                return None
            if op in ASSOC or op in COMM:
                piece = T("one", others[0]) if len(others) == 1 else T("one", app(op, *others))
                sq = T("seq", piece) if cond is TRUE else T("seq", T("when", cond, T("seq", piece)))
                h, (s2, k2) = bind(el, sq, brk)
                return T("app", "fold", op, v0, T("each", h, coll, s2, k2))
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        if e is None:
            return None
        if st.dead:
            return unk("dead")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.note("expr " + e["k"])
            return unk(e["k"])
        v = m(e, st)
        return v if v is not None else unk("void")

    def lval(self, e, st):
        """Location denoted by e, or None if e is not an lvalue we track."""
        k = e["k"]
        if k == "ref":
            if e.get("dk") in ("local", "param", "binding"):
                loc = self._reflocation(e)
                return loc
            if e.get("dk") in ("global", "static"):
                return T("glob", e.get("u") or e["n"], e["n"])
            return None
        if k == "mem":
            if e.get("static"):
                return T("glob", e.get("u") or e["n"], e["n"])
            base = self.eval(e["b"], st)
            if base.op == "addr":
                base = self.read(base.a[0], st)
            return T("fld", base, shortcls(e["n"]))
        if k == "un" and e["op"] == "*":
            p = self.eval(e["e"], st)
            return self.pointee(p)
        if k == "un" and e["op"] in ("++", "--"):
            self.eval(e, st)
            return self.lval(e["e"], st)
        if k == "sub":
            b = self.lval(e["a"], st)
            i = self.eval(e["b"], st)
            if b is None:
                return T("idx", self.eval(e["a"], st), i)
            return T("idx", self.resolve(b), i)
        if k == "cast":
            return self.lval(e["e"], st)
        if k == "defarg":
            return self.lval(e["e"], st)
        if k == "cond":
            return None
        if k == "asg":
            self.eval(e, st)
            return self.lval(e["a"], st)
        if k == "call":
            n = strip_targs(e.get("n", ""))
            if n in ("std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::as_const") and e["a"]:
                return self.lval(e["a"][0], st)
            if e.get("op") == "*" and e.get("o") is not None and not e["a"]:
                p = self.eval(e["o"], st)
                return self.pointee(p)
            last = n.split("::")[-1]
            if last in ("get", "value") and e.get("o") is not None and _smart(e["o"].get("t", "")):
                if e["o"].get("t", "").find("reference_wrapper") >= 0:
                    return self.pointee(self.eval(e["o"], st))
                return None
            if "reference_wrapper::operator " in n:
                return self.pointee(self.eval(e["o"], st))
            if e.get("op") == "[]" or last == "at":
                b = self.lval(e["o"], st) if e.get("o") else None
                if b is None:
                    return None
                i = self.eval(e["a"][0], st)
                return T("idx", self.resolve(b), i)
            v = self.eval(e, st)
            if v.op == "addr":
                return v.a[0]
            return T("val", v)
        if k == "this":
            return None
        return None

    def pointee(self, p):
        if p.op == "addr":
            return p.a[0]
        if p.op == "sym" and not p.a[0] == "this":
            return T("deref", p)
        if p.op in ("app",) and p.a[0] == "iter":
            return T("val", p.a[1])
        return T("val", p)

    def _reflocation(self, e):
        fr = self.frame()
        fid = fr["id"]
        loc = T("var", fid, e["id"], e["n"].split("::")[-1])
        f = fr
        while f is not None:
            l2 = T("var", f["id"], e["id"], e["n"].split("::")[-1])
            if l2 in self.alias or l2 in f.get("known", ()):
                return l2
            if f.get("lamparent") is None:
                break
            if e["id"] in f.get("own", ()):
                return l2
            f = f["lamparent"]
            loc = T("var", f["id"], e["id"], e["n"].split("::")[-1])
        return loc

    def e_ref(self, e, st):
        dk = e.get("dk")
        if dk in ("local", "param", "binding"):
            loc = self._reflocation(e)
            return self.read(loc, st)
        if dk == "enum":
            return num(int(e["v"]))
        if dk == "func":
            return T("fn", e["f"], e["n"])
        if dk in ("global", "static"):
            g = T("glob", e.get("u") or e["n"], e["n"])
            v = st.S.get(g)
            if v is not None:
                return v
            gi = self.p.globals.get(e.get("u"))
            if gi and gi.get("i") is not None and gi["t"].startswith("const "):
                i = gi["i"]
                while i["k"] == "cast":
                    i = i["e"]
                if i["k"] in ("int", "bool", "str"):
                    return self.eval(i, st)
                if i["k"] == "ref" and i.get("dk") == "enum":
                    return num(int(i["v"]))
            return self.gvalue(g, st)
        return unk("ref " + str(dk))

    def e_this(self, e, st):
        f = self.frame()
        return f["this"] if f["this"] is not None else sym("this")

    def e_int(self, e, st):
        return num(int(e["v"]))

    def e_float(self, e, st):
        return T("float", e["v"])

    def e_str(self, e, st):
        return string(e["v"])

    def e_bool(self, e, st):
        return boolean(e.get("v"))

    def e_null(self, e, st):
        return NULL

    def e_zero(self, e, st):
        t = e.get("t", "")
        if wty(t):
            return num(0) if t != "bool" else FALSE
        return self.default_value(t)

    def e_defarg(self, e, st):
        return self.eval(e["e"], st)

    def e_sizeof(self, e, st):
        return num(int(e["v"])) if "v" in e else unk("sizeof")

    def e_typeid(self, e, st):
        return unk("typeid")

    def e_other(self, e, st):
        if e.get("sc") == "SourceLocExpr":
            return string("")
        for x in e.get("a", ()):
            self.eval(x, st)
        return unk("other " + str(e.get("sc")))

    def e_stmtexpr(self, e, st):
        self.exec(e["b"], st)
        return unk("stmtexpr")

    def e_mem(self, e, st):
        l = self.lval(e, st)
        return self.read(l, st)

    def e_sub(self, e, st):
        l = self.lval(e, st)
        return self.read(l, st)

    def e_un(self, e, st):
        op = e["op"]
        if op == "*":
            p = self.eval(e["e"], st)
            return self.read(self.pointee(p), st)
        if op == "&":
            l = self.lval(e["e"], st)
            if l is None:
                return self.eval(e["e"], st)
            l = self.resolve(l)
            if l.op == "val":
                return l.a[0]
            if l.op == "deref":
                return l.a[0]
            v = self.read(l, st) if not (l.op == "var" and l not in st.S) else None
            if v is not None and v.op in ("obj",):
                return v
            if l.op == "fld" and l not in st.S:
                return self.read(l, st)
            return T("addr", l)
        if op in ("++", "--", "p++", "p--"):
            l = self.lval(e["e"], st)
            old = self.read(l, st) if l is not None else self.eval(e["e"], st)
            if old.op == "app" and old.a[0] in ("begin", "iter", "rbegin"):
                new = app("next" + op[-2:], old)
            else:
                new = self.arith(op[-1], old, num(1))
            if l is not None:
                self.write(l, new, st)
            return old if op[0] == "p" else new
        v = self.eval(e["e"], st)
        if op == "!":
            return neg(self.tobool(v, e["e"]))
        if op == "-":
            return num(-v.a[0]) if v.op == "int" else app("neg", v)
        if op == "+":
            return v
        if op == "~":
            return app("~", v)
        return app("un" + op, v)

    def arith(self, op, a, b):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                if op == "+":
                    return num(x + y)
                if op == "-":
                    return num(x - y)
                if op == "*":
                    return num(x * y)
                if op == "/":
                    return num(x // y) if y else unk("div0")
                if op == "%":
                    return num(x % y) if y else unk("div0")
                if op == "<<" and 0 <= y < 8192:
                    return num(x << y)
                if op == ">>" and 0 <= y < 8192:
                    return num(x >> y)
                if op == "&":
                    return num(x & y)
                if op == "|":
                    return num(x | y)
                if op == "^":
                    return num(x ^ y)
            except Exception:
                pass
        if op in ("+", "-") and b.op == "int" and b.a[0] == 0:
            return a
        if op == "+" and a.op == "int" and a.a[0] == 0:
            return b
        if op == "*" and b.op == "int" and b.a[0] == 1:
            return a
        if op == "*" and a.op == "int" and a.a[0] == 1:
            return b
        if op in ("+", "*", "&", "|", "^"):
            xs = []
            for x in (a, b):
                if x.op == "app" and x.a[0] == op:
                    xs.extend(x.a[1:])
                else:
                    xs.append(x)
            ints = [x for x in xs if x.op == "int"]
            if len(ints) > 1 and op in ("+", "*"):
                acc = ints[0].a[0]
                for i in ints[1:]:
                    acc = acc + i.a[0] if op == "+" else acc * i.a[0]
                xs = [x for x in xs if x.op != "int"] + [num(acc)]
            xs.sort(key=lambda t: t.id)
            return app(op, *xs)
        return app(op, a, b)

    def eq(self, a, b):
        if a is b and a.op != "unk":
            return TRUE
        if a.op == "null":
            a, b = b, a
        if b.op == "null":
            return neg(self.nonnull(a))
        consts = ("int", "str", "b")
        if a.op in consts and b.op in consts:
            if a.op == "b" or b.op == "b":
                return boolean(bool(a.a[0]) == bool(b.a[0]))
            return boolean(a is b)
        if is_bool(b):
            return a if b is TRUE else neg(a)
        if is_bool(a):
            return b if a is TRUE else neg(b)
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (y.op in consts or y.op == "null") and \
                    (x.a[1].op in consts + ("ite",) or x.a[2].op in consts + ("ite",)):
                return ite(x.a[0], self.eq(x.a[1], y), self.eq(x.a[2], y))
            if x.op == "app" and x.a[0] == "size" and y.op == "int" and y.a[0] == 0:
                return app("empty", x.a[1])
            if x.op == "app" and x.a[0] in ("iter?", ) and y.op == "app" and y.a[0] == "end":
                return x.a[1] if False else app("eq", x, y)
            if x.op == "app" and x.a[0] == "find" and y.op == "app" and y.a[0] == "end":
                # find(h, coll, cond)
                return neg(T("exists", x.a[1].a[0], x.a[2], x.a[3]))
            if y.op == "int" and y.a[0] in (0, 1) and isboolean(x):
                return x if y.a[0] else neg(x)
            if x.op == "str" and x.a[0] == "" and y.op != "str":
                return app("empty", y)
        if a.id > b.id:
            a, b = b, a
        return T("eq", a, b)

    def lt(self, a, b):
        for x, y, w in ((a, b, 0), (b, a, 1)):
            if x.op == "int" and x.a[0] == w and isboolean(y):
                return y if w == 0 else neg(y)      # 0 < b, b < 1
        if a.op == "int" and b.op == "int":
            return boolean(a.a[0] < b.a[0])
        if a is b:
            return FALSE
        if a.op == "int" and a.a[0] == 0 and b.op == "app" and b.a[0] == "size":
            return neg(app("empty", b.a[1]))
        if b.op == "int" and b.a[0] == 1 and a.op == "app" and a.a[0] == "size":
            return app("empty", a.a[1])
        return T("lt", a, b)

    def binop(self, op, a, b, e=None):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return neg(self.eq(a, b))
        if op == "<":
            return self.lt(a, b)
        if op == ">":
            return self.lt(b, a)
        if op == "<=":
            return neg(self.lt(b, a))
        if op == ">=":
            return neg(self.lt(a, b))
        if op == ",":
            return b
        return self.arith(op, a, b)

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(e["a"], st)
            if st.dead:
                return a
            if op == "&&":
                return self.branch(st, a, lambda x: self.cond(e["b"], x), lambda x: FALSE)
            return self.branch(st, a, lambda x: TRUE, lambda x: self.cond(e["b"], x))
        a = self.eval(e["a"], st)
        b = self.eval(e["b"], st)
        if op in ("&", "|", "^") and (isboolean(a) and isboolean(b)):
            if op == "&":
                return conj(a, b)
            if op == "|":
                return disj(a, b)
            return disj(conj(a, neg(b)), conj(neg(a), b))
        a, b = self.plain(a, st), self.plain(b, st)
        return self.binop(op, a, b, e)

    def plain(self, v, st):
        """Strip address-of a tracked location for value comparison."""
        if v.op == "addr":
            return self.read(v.a[0], st)
        return v

    def e_asg(self, e, st):
        op = e["op"]
        l = self.lval(e["a"], st)
        v = self.eval(e["b"], st)
        if op != "=":
            old = self.read(l, st) if l is not None else self.eval(e["a"], st)
            o = op[:-1]
            if isboolean(old) or isboolean(v) or (e["a"].get("t") == "bool"):
                if o == "&":
                    v = conj(old, self.tobool(v, e["b"]))
                elif o == "|":
                    v = disj(old, self.tobool(v, e["b"]))
                else:
                    v = self.arith(o, old, v)
            else:
                v = self.binop(o, old, v)
        elif e["a"].get("t") == "bool":
            v = self.tobool(v, e["b"])
        if l is not None:
            self.write(self.resolve(l), v, st)
        return v

    def e_cond(self, e, st):
        c = self.cond(e["c"], st)
        if st.dead:
            return c
        return self.branch(st, c, lambda x: self.eval(e["a"], x), lambda x: self.eval(e["b"], x))

    def e_cast(self, e, st):
        ck = e["ck"]
        v = self.eval(e["e"], st)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return self.nonnull(v)
        if ck == "IntegralToBoolean":
            if v.op == "int":
                return boolean(v.a[0] != 0)
            if isboolean(v):
                return v
            return neg(self.eq(v, num(0)))
        if ck == "NullToPointer":
            return NULL
        if ck == "IntegralCast":
            w0, w1 = wty(e["e"].get("t", "")), wty(e.get("t", ""))
            if v.op == "int":
                if w1 and w1 < 64 and not -(1 << (w1 - 1)) <= v.a[0] < (1 << w1):
                    return num(v.a[0] & ((1 << w1) - 1))
                if v.a[0] < 0 and e.get("t", "").replace("const ", "").startswith("unsigned") and w1:
                    return num(v.a[0] & ((1 << w1) - 1))
                return v
            if isboolean(v):
                return v
            if w0 and w1 and w1 < w0:
                return app("trunc%d" % w1, v)
            return v
        return v

    def e_throw(self, e, st):
        v = self.eval(e["e"], st) if e.get("e") else T("rethrow")
        if st.dead:
            return v
        f = self.frame()
        self.throws.append((st.pc, self.reify(v, st) if v is not None else None, f["fn"], e.get("l")))
        st.dead = True
        return v

    def e_init(self, e, st):
        vs = [self.eval(x, st) for x in e["a"]]
        t = e.get("t", "")
        r = self.p.records.get(t.replace("const ", ""))
        if r is not None:
            o = self.newobj(t.replace("const ", ""))
            for f, v in zip(r["fields"], vs):
                st.S[T("fld", o, shortcls(f["n"]))] = v
            return o
        if wty(t) and len(vs) == 1:
            return vs[0]
        if not vs and e.get("fill"):
            return app("zeros", string(t))
        return T("seq", *[T("one", v) for v in vs])

    def e_new(self, e, st):
        if e.get("arr"):
            if e.get("n"):
                self.eval(e["n"], st)
            return app("newarray", self.eval(e["n"], st) if e.get("n") else num(0))
        if e.get("e") is None:
            return unk("new")
        v = self.eval(e["e"], st)
        return v

    def e_delete(self, e, st):
        v = self.eval(e["e"], st)
        self.effect(app("delete", v), e, st)
        return NULL

    def e_lambda(self, e, st):
        f = self.frame()
        t = T("lam", e["u"], f["id"])
        self.lams[t] = (e, f)
        for c in e["caps"]:
            if c.get("init") is not None:
                st.S[T("var", f["id"], c["id"], c["n"])] = self.eval(c["init"], st)
        return t

    def e_inhctor(self, e, st):
        return unk("inherited ctor")

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e, st):
        cls = strip_targs(e["cls"])
        args = e["a"]
        cp = e.get("cp")
        h = self.models.get("ctor:" + cls)
        if h is not None:
            return h(self, e, st)
        if e["cls"].startswith(("std::", "nlohmann::", "spdlog::", "date::")) or e["cls"].startswith("__gnu"):
            return self.std_ctor(cls, e, st)
        if cp and len(args) == 1 and cls not in self.no_copy_identity:
            v = self.eval(args[0], st)
            if v.op == "addr":
                v = self.read(v.a[0], st)
            if v.op == "obj":
                if cp == "copy":
                    return self.copyobj(v, st)
                return v
            return v
        fn = self.p.lookup(e["f"])
        vals = self.args(args, fn, st)
        return self.construct(e["cls"], fn, vals, st, e)

    def copyobj(self, v, st):
        o = self.newobj(self.objcls[v])
        for loc, x in list(st.S.items()):
            if loc.op == "fld" and loc.a[0] is v:
                if x.op == "obj" and loc.a[1].endswith("pimpl"):
                    x = self.copyobj(x, st)
                st.S[T("fld", o, loc.a[1])] = x
        return o

    def construct(self, cls, fn, vals, st, e):
        o = self.newobj(cls)
        if fn is None:
            if vals:
                self.note("ctor without body " + cls)
                return app("new " + cls, *[self.reify(v, st) for v in vals])
            return o
        self.run_ctor(fn, o, vals, st, e)
        return o

    def run_ctor(self, fn, o, vals, st, e):
        if fn.get("special") == "copyctor" and fn.get("defaulted") or fn.get("implicit"):
            if vals:
                src = vals[0]
                if src.op == "addr":
                    src = self.read(src.a[0], st)
                if src.op == "obj":
                    for loc, x in list(st.S.items()):
                        if loc.op == "fld" and loc.a[0] is src:
                            st.S[T("fld", o, loc.a[1])] = x
                else:
                    rec = self.p.records.get(fn.get("cls"))
                    for f in (rec or {}).get("fields", ()):
                        nm = shortcls(f["n"])
                        st.S[T("fld", o, nm)] = self.field(src, nm, st)
                return
        self.call_body(fn, o, vals, st, e)

    def init_fields(self, fn, this, st):
        for i in fn.get("inits", ()):
            if st.dead:
                return
            if "field" in i:
                nm = shortcls(i["field"])
                x = i["e"]
                if x is None:
                    continue
                rec = self.p.records.get(fn.get("cls"))
                ft = None
                for f in (rec or {}).get("fields", ()):
                    if f["n"] == i["field"]:
                        ft = f["t"]
                if ft and ft.endswith("&"):
                    l = self.lval(x, st)
                    v = self.eval(x, st)
                else:
                    v = self.eval(x, st)
                if v.op == "addr":
                    v = self.read(v.a[0], st) if not ft or not ft.endswith("&") else self.read(v.a[0], st)
                st.S[T("fld", this, nm)] = v
            else:
                # base or delegating initialiser
                x = i["e"]
                while x and x["k"] == "cast":
                    x = x["e"]
                if x and x["k"] == "ctor":
                    bf = self.p.lookup(x["f"])
                    vals = self.args(x["a"], bf, st)
                    if bf is not None:
                        self.run_ctor(bf, this, vals, st, x)
                    elif x["a"]:
                        self.note("base ctor " + x["n"])

    def std_ctor(self, cls, e, st):
        args = [a for a in e["a"] if a["k"] != "defarg"]
        vals = [self.eval(a, st) for a in args]
        vals = [self.read(v.a[0], st) if v.op == "addr" and not cls.endswith(("_ptr", "wrapper", "lock_guard", "unique_lock")) else v for v in vals]
        if cls in ("std::unique_ptr", "std::shared_ptr", "std::weak_ptr"):
            if not vals:
                return NULL
            return vals[0]
        if cls in ("std::reference_wrapper", "std::basic_string_view"):
            return vals[0] if vals else unk(cls)
        if cls in ("std::initializer_list",):
            return vals[0] if vals else EMPTY
        if cls in ("std::basic_string",):
            if not vals:
                return string("")
            if len(vals) == 1:
                return vals[0]
            return self.range_ctor(vals, cls)
        if cls in ("std::vector", "std::map", "std::unordered_map", "std::set", "std::unordered_set",
                   "std::deque", "std::list", "std::queue"):
            if not vals:
                return EMPTY
            if e.get("cp") or (e.get("il") and len(vals) == 1):
                return vals[0]
            if len(vals) == 1 and vals[0].op == "seq" and e.get("list"):
                return vals[0]
            return self.range_ctor(vals, cls)
        if cls in ("std::pair", "std::tuple"):
            if e.get("cp") or len(vals) == 1:
                return vals[0] if vals else unk("tuple")
            return app("tuple", *vals)
        if cls in ("std::optional", "std::any", "std::variant", "std::function", "std::allocator"):
            return vals[0] if vals else NULL
        if cls.startswith("nlohmann::") and cls.endswith(("basic_json", "json_ref")):
            if not vals:
                return mkseq([T("jnull")]) if e["cls"].find("basic_json") >= 0 else NULL
            v = vals[0]
            if v.op == "null":
                return NULL
            if v.op == "seq" and (e.get("il") or self._is_init_list(args[0])):
                return self.json_init(v)
            from .models import jwrap
            return jwrap(self, self.reify(v, st), args[0].get("t", ""))
        if e.get("cp") and len(vals) == 1:
            return vals[0]
        if len(vals) == 1 and e.get("cls", "").endswith(("duration", "time_point")):
            return vals[0]
        return app(cls, *[self.reify(v, st) for v in vals])

    def _is_init_list(self, a):
        while a and a["k"] == "cast":
            a = a["e"]
        if a and a["k"] == "init":
            return True
        if a and a["k"] == "ctor" and "initializer_list" in a.get("t", ""):
            return True
        return bool(a and "initializer_list" in a.get("t", ""))

    def json_init(self, v):
        """nlohmann initializer-list semantics: list of [string, value] pairs is an object."""
        items = [p.a[0] for p in v.a if p.op == "one"]
        if len(items) == len(v.a) and items and all(
                i.op == "seq" and len(i.a) == 2 and all(q.op == "one" for q in i.a) and i.a[0].a[0].op == "str" for i in items):
            return mkseq([T("kv", i.a[0].a[0], i.a[1].a[0]) for i in items])
        return v

    def range_ctor(self, vals, cls):
        if len(vals) >= 2 and vals[0].op == "app" and vals[0].a[0] == "begin" and vals[1].op == "app" and vals[1].a[0] == "end" \
                and vals[0].a[1] is vals[1].a[1]:
            return vals[0].a[1]
        return app(cls, *vals)

    # ------------------------------------------------------------ calls
    def args(self, es, fn, st):
        out = []
        for i, a in enumerate(es):
            pt = fn["ps"][i]["t"] if fn and i < len(fn["ps"]) else ""
            if pt.endswith("&") or pt.endswith("&&"):
                l = self.lval(a, st)
                if l is not None:
                    l = self.resolve(l)
                    if l.op == "val":
                        out.append(l.a[0])
                    else:
                        out.append(T("addr", l))
                    continue
            v = self.eval(a, st)
            if v.op == "addr" and not pt.endswith("*"):
                v = self.read(v.a[0], st)
            out.append(v)
        return out

    def indexing(self, e, st):
        """Records v[i] on a vector: nothing checks that index but the code before it."""
        if self.indexed is None or not strip_targs(e.get("n") or "").startswith("std::vector::") or e.get("o") is None:
            return
        n = len(self.trace)
        b, i = self.reify(self.eval(e["o"], st), st), self.eval(e["a"][0], st)
        if b.op == "addr":
            b = self.reify(self.read(b.a[0], st), st)
        del self.trace[n:]
        ev = self.effect(app("index", b, i), e, st)
        self.trace.pop()
        self.indexed.append(ev)

    def effect(self, t, e, st):
        ev = Ev()
        ev.pc = st.pc
        ev.t = t
        ev.line = e.get("l") if e else None
        fr = self.frame() if self.frames else None
        ev.fn = fr["fn"] if fr else None
        ev.file = fr["fn"].get("file") if fr else None
        ev.node = e
        ev.stack = [f["fn"]["n"] for f in self.frames]
        ev.seqno = len(self.trace)
        self.trace.append(ev)
        return ev

    def e_call(self, e, st):
        name = strip_targs(e.get("n", "") or "")
        if "fe" in e and not e.get("n"):
            fv = self.eval(e["fe"], st)
            return self.call_value(fv, self.args(e["a"], self.target(fv), st), st, e)
        last = name.split("::")[-1]
        h = self.models.get(name)
        if h is None and "variant_cast_proxy" in name and e.get("o") is not None:
            return self.eval(e["o"], st)
        if h is None and "reference_wrapper::operator " in name and e.get("o") is not None:
            return self.eval(e["o"], st)
        if h is None and name.startswith(("std::", "nlohmann::", "__gnu_cxx::")):
            h = self.models.get("*::" + last)
        if h is not None:
            return h(self, e, st)
        if e.get("o") is not None and self._lambda_obj(e, st):
            fv = self.eval(e["o"], st)
            return self.call_value(fv, self.args(e["a"], self.target(fv), st), st, e)
        fn = self.p.lookup(e.get("f", ""), self.frame()["fn"].get("file") if self.frames else None)
        if fn is None and name not in self.opaque:
            fn = self.p.lookup(e.get("f", ""))
        # dynamic dispatch: unique override for the static type is the static callee
        op = name in self.opaque or (self.opaque_pred and self.opaque_pred(name, fn))
        if fn is not None and fn.get("b") and not op:
            if name in self.identity:
                pass
            return self.call_fn(fn, e, st)
        if last == "clone" and self.transparent_clone and e.get("o") is not None and name.rsplit("::", 1)[0] not in self.no_copy_identity:
            return self.eval(e["o"], st)
        return self.opaque_call(name, fn, e, st)

    def _lambda_obj(self, e, st):
        o = e["o"]
        while o["k"] == "cast":
            o = o["e"]
        return e.get("op") == "()" and ("(lambda" in e.get("n", "") or "(anonymous class)" in e.get("n", "") or "(lambda" in o.get("t", "") or o["k"] == "lambda" or "std::function" in e.get("n", ""))

    def target(self, fv):
        """What a function value runs, for binding its parameters."""
        return self.lams[fv][0] if fv.op == "lam" else self.p.lookup(fv.a[0]) if fv.op == "fn" else None

    def call_value(self, fv, vals, st, e):
        if fv.op == "lam":
            return self.call_lambda(fv, vals, st)
        if fv.op == "fn":
            fn = self.p.lookup(fv.a[0])
            n = strip_targs(fv.a[1])
            if fn is not None and fn.get("b") and n not in self.opaque:
                return self.call_body(fn, None, vals, st, e)
            t = app(n, *[self.reify(v, st) for v in vals])
            self.effect(t, e, st)
            return t
        t = app("callptr", self.reify(fv, st), *[self.reify(v, st) for v in vals])
        self.effect(t, e, st)
        return t

    def call_lambda(self, fv, vals, st):
        e, parent = self.lams[fv]
        self.nframe += 1
        fr = {"id": self.nframe, "this": parent["this"], "fn": parent["fn"], "rets": [], "rt": e["rt"],
              "lamparent": parent, "own": set(), "known": set()}
        if len(self.frames) > self.maxdepth:
            return unk("depth")
        own = fr["own"]
        for p in e["ps"]:
            own.add(p["id"])
        for n in _walk(e["b"]):
            if n.get("k") in ("decl",):
                for v in n["vars"]:
                    own.add(v["id"])
            for key in ("cv", "v"):
                v = n.get(key)
                if isinstance(v, dict) and "id" in v:
                    own.add(v["id"])
        self.frames.append(fr)
        saved, self.loopstack = self.loopstack, []
        self.loopsaved.append(saved)
        try:
            for p, v in zip(e["ps"], vals):
                loc = T("var", fr["id"], p["id"], p["n"])
                if v.op == "addr" and not p["t"].endswith("*"):
                    if p["t"].endswith("&"):
                        self.alias[loc] = self.resolve(v.a[0])
                        continue
                    v = self.read(v.a[0], st)
                st.S[loc] = v
            base = st.pc
            body = st.copy()
            self.exec(e["b"], body)
            return self._finish(fr, body, base, st)
        finally:
            self.frames.pop()
            self.loopstack = saved
            self.loopsaved.pop()

    def call_fn(self, fn, e, st):
        this = None
        if e.get("o") is not None:
            this = self.eval(e["o"], st)
            if this.op == "addr":
                this = self.read(this.a[0], st)
        vals = self.args(e["a"], fn, st)
        if st.dead:
            return unk("dead")
        name = strip_targs(fn["n"])
        last = name.split("::")[-1]
        if this is not None and self.transparent_clone and last == "clone" and not vals and fn.get("cls") not in self.no_copy_identity:
            if this.op == "obj":
                return self.copyobj(this, st)
            return this
        if sum(1 for f in self.frames if f["fn"] is fn) >= 2 or len(self.frames) > self.maxdepth:
            self.note("recursion " + name)
            t = app(name, *([self.reify(this, st)] if this is not None else []), *[self.reify(v, st) for v in vals])
            self.effect(t, e, st)
            return t
        return self.call_body(fn, this, vals, st, e)

    def call_body(self, fn, this, vals, st, e, entry=False):
        self.analysed.add(fn["u"])
        self.nframe += 1
        fr = {"id": self.nframe, "this": this, "fn": fn, "rets": [], "rt": fn.get("rt", ""), "lamparent": None}
        self.frames.append(fr)
        saved, self.loopstack = self.loopstack, []
        self.loopsaved.append(saved)
        try:
            for i, p in enumerate(fn["ps"]):
                loc = T("var", fr["id"], p["id"], p["n"])
                if i < len(vals):
                    v = vals[i]
                elif p.get("d"):
                    v = self.eval(p["d"], st)
                else:
                    v = unk("missing arg")
                if v.op == "addr" and not p["t"].endswith("*"):
                    if p["t"].endswith("&"):
                        l = self.resolve(v.a[0])
                        self.alias[loc] = l
                        if l.op == "var" and l not in st.S:
                            pass
                        continue
                    v = self.read(v.a[0], st)
                st.S[loc] = v
            base = st.pc
            body = st.copy()
            if fn.get("ctor"):
                self.init_fields(fn, this, body)
            if not body.dead and fn.get("b"):
                self.exec(fn["b"], body)
            r = self._finish(fr, body, base, st)
            return r
        finally:
            self.frames.pop()
            self.loopstack = saved
            self.loopsaved.pop()

    def _finish(self, fr, body, base, st):
        rets = fr["rets"]
        if not body.dead:
            rets.append((body.pc, None, body, None))
        self._last_returns = rets
        if not rets:
            st.dead = True
            return unk("noreturn")
        # join
        cur = None
        val = None
        common = None
        for pc, v, s, ln in rets:
            c = set(conjuncts(relpc(pc, base)))
            common = c if common is None else common & c
        for pc, v, s, ln in reversed(rets):
            s = s.copy()
            s.dead = False
            s.pc = pc
            if cur is None:
                cur, val = s, v
            else:
                c = conj(*[x for x in conjuncts(relpc(pc, base)) if x not in common])
                if v is not None and val is not None:
                    if v.op == "addr" or val.op == "addr":
                        v = self.plain(v, s)
                        val = self.plain(val, cur)
                    val = ite(c, v, val)
                elif val is None:
                    val = v
                cur = self.merge(base, s, cur)
        # drop the frame's variables
        fid = fr["id"]
        S = {k: v for k, v in cur.S.items() if not (k.op == "var" and k.a[0] == fid)}
        if val is not None and val.op == "addr" and val.a[0].op == "var" and val.a[0].a[0] == fid:
            val = self.read(val.a[0], cur)
        st.S, st.pc, st.dead = S, cur.pc, False
        return val if val is not None else unk("void")

    def opaque_call(self, name, fn, e, st):
        vals = []
        if e.get("o") is not None:
            ol = self.lval(e["o"], st)
            o = self.read(ol, st) if ol is not None else self.eval(e["o"], st)
            vals.append(o)
        else:
            ol = None
        raw = []
        for a in e["a"]:
            v = self.eval(a, st)
            raw.append((a, v))
            vals.append(v)
        if st.dead:
            return unk("dead")
        vals = [self.reify(v, st) for v in vals]
        nm = name or "?"
        if e.get("t") == "bool":
            _t.BOOLAPPS.add(nm)
        if nm in self.fresh or last(nm) in self.fresh:
            self.nfresh += 1
            vals = vals + [T("fresh", self.nfresh)] + [c["el"] for c in self.allloops() if c.get("el") is not None]
        t = app(nm, *vals)
        self.effect(t, e, st)
        # unknown library object with non-const method: the object changes
        isrepo = fn is not None or nm.startswith("electionguard::")
        if ol is not None and e.get("cm") is False and not isrepo:
            self.write(self.resolve(ol), app("after:" + nm, *vals), st)
        # out parameters of external C functions
        d = fn or self.p.decls.get(nm)
        if not nm.startswith("electionguard::"):
            for i, (a, v) in enumerate(raw):
                out = False
                if d is not None and i < len(d["ps"]):
                    pt = d["ps"][i]["t"]
                    out = pt.endswith("*") and not pt.startswith("const ")
                if out:
                    l = None
                    if v.op == "addr":
                        l = v.a[0]
                    else:
                        aa = a
                        while aa["k"] == "cast":
                            aa = aa["e"]
                        if aa["k"] in ("ref", "mem"):
                            l = self.lval(aa, st)
                        elif aa["k"] == "call" and aa.get("n", "").endswith("::data"):
                            l = self.lval(aa["o"], st)
                    if l is not None:
                        l = self.resolve(l)
                        if l.op in ("var", "fld", "idx", "glob"):
                            self.write(l, app("out%d:%s" % (i, nm), *vals), st)
        return t


def _walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(x)


def instance(loc, n):
    """A list of n elements of which nothing else is known."""
    return mkseq([T("one", app("nth", loc, num(i))) for i in range(n)])


def _has_break(n, depth=0):
    if isinstance(n, list):
        return any(_has_break(x, depth) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get("k")
    if k == "break" and depth == 0:
        return True
    if k == "lambda":
        return False
    d = depth + (1 if k in ("for", "while", "do", "rfor", "switch") else 0)
    return any(_has_break(v, d) for v in n.values() if isinstance(v, (dict, list)))


def _vague(q):
    return q.op == "unk" or q.op == "app" and (q.a[0] in ("loop", "copyinto", "upto") or str(q.a[0]).startswith("after:"))


def _lit(e):
    while e["k"] == "cast":
        e = e["e"]
    return int(e["v"]) if e["k"] == "int" else None


def _assigns(n, vid):
    for x in _walk(n):
        if x.get("k") == "asg" and x["a"].get("k") == "ref" and x["a"].get("id") == vid:
            return True
        if x.get("k") == "un" and x["op"] in ("++", "--", "p++", "p--") and x["e"].get("k") == "ref" and x["e"].get("id") == vid:
            return True
    return False


def _smart(t):
    return "reference_wrapper" in t or "_ptr<" in t or "optional<" in t


class Result:
    def __init__(self, ip, fn, ret, st, rets, throws):
        self.ip = ip
        self.fn = fn
        self.st = st
        self.ret = ip.reify(ret, st) if ret is not None and not st.dead else ret
        self.rets = [(pc, ip.reify(ip.plain(v, s), s) if v is not None else None, s, ln) for pc, v, s, ln in rets]
        self.throws = throws
        self.trace = list(ip.trace)


COMM = set()
NONNULL = set()

from .models import MODELS  # noqa: E402
