"""The C headers, the library and the .NET declarations name the same functions with the same signatures and codes."""
import glob
import hashlib
import json
import os
import re
import subprocess
import tempfile

from ..check import check
from ..prog import AnalysisBroken, FLAGS, REPO, VERIF, includes, norm_type, rel, tool
from .r_capi import cmap, flatn
from .r_own import related

NET = "bindings/netstandard/ElectionGuard/ElectionGuard.Encryption"


def headers():
    return sorted(glob.glob(REPO + "/include/electionguard/*.h"))


def declared():
    """What the C headers declare, read as C."""
    hs = headers()
    if not hs:
        raise AnalysisBroken("no C headers under include/electionguard")
    with tempfile.TemporaryDirectory(dir=VERIF + "/build", prefix="h-") as d:
        src = d + "/all.c"
        with open(src, "w") as f:
            f.write("#include <stdint.h>\n#include <stdbool.h>\n#include <stddef.h>\n")
            for h in hs:
                f.write('#include "%s"\n' % h)
        out = d + "/out.json"
        r = subprocess.run([tool(), "--root=" + REPO, "--out=" + out, src, "--", "-xc", "-std=gnu17"] + FLAGS + includes(),
                           capture_output=True, text=True)
        if not os.path.exists(out):
            raise AnalysisBroken("the C headers cannot be read: " + r.stderr[-800:])
        t = json.load(open(out))
    types = [norm_type(x) for x in t["types"]]
    res = {}

    def ty(x):
        return types[x] if isinstance(x, int) else x
    for f in t["decls"]:
        f["rt"] = ty(f["rt"])
        for q in f["ps"]:
            q["t"] = ty(q["t"])
        res.setdefault(f["n"], f)
    return res, {e["n"]: e for e in t["enums"]}, bool(t.get("errors")), r.stderr


def plain(t):
    t = re.sub(r"\b(struct|enum) ", "", t)
    t = re.sub(r"\s+", " ", t).replace("_Bool", "bool").replace(" *", "*").replace("* ", "*").strip()
    t = re.sub(r"\[\d*\]$", "*", t)
    return t


def params(f):
    # top-level const of a parameter is not part of the type
    return [re.sub(r"^const (?!.*\*)", "", re.sub(r"\*const$", "*", plain(q["t"]))) for q in f["ps"]]


def uncomment(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)


def csharp():
    """(entry point, method, return type, [(modifiers, type, name)], file, line) for every DllImport."""
    out = []
    enums = {}
    for path in sorted(glob.glob(os.path.join(REPO, NET, "*.cs"))):
        s = uncomment(open(path, errors="replace").read())
        raw = open(path, errors="replace").read()
        for m in re.finditer(r"\[DllImport\(([^\]]*?)\)\]\s*((?:\[[^\]]*\]\s*)*)([\w\s<>\.\*]*?)\bextern\s+([\w\.\*]+)\s+(\w+)\s*\((.*?)\)\s*;", s, re.S):
            ep = re.search(r'EntryPoint\s*=\s*"(\w+)"', m.group(1))
            name = ep.group(1) if ep else m.group(5)
            line = raw[:raw.find('"%s"' % name)].count("\n") + 1 if '"%s"' % name in raw else 0
            ps = []
            body = re.sub(r"\[\s*\w[^\]]*\]", " ", m.group(6))
            for q in [x.strip() for x in body.split(",") if x.strip()]:
                w = q.split()
                mods = [x for x in w if x in ("out", "ref", "in", "params")]
                w = [x for x in w if x not in mods and x not in ("unsafe",)]
                if len(w) < 2:
                    raise AnalysisBroken("parameter not understood: %r" % q)
                ps.append((mods, " ".join(w[:-1]), w[-1]))
            out.append((name, m.group(5), m.group(4), ps, rel(path), line))
        for m in re.finditer(r"\benum\s+(\w+)\s*(?::\s*\w+\s*)?\{([^{}]*)\}", s):
            vals, cur = {}, 0
            for x in m.group(2).split(","):
                x = re.sub(r"\[[^\]]*\]", "", x).strip()
                if not x:
                    continue
                a = re.match(r"^(\w+)\s*(?:=\s*(-?\w+))?$", x)
                if not a:
                    vals = None
                    break
                if a.group(2) is not None:
                    try:
                        cur = int(a.group(2), 0)
                    except ValueError:
                        vals = None
                        break
                vals[a.group(1)] = cur
                cur += 1
            if vals is not None:
                enums[m.group(1)] = (vals, rel(path))
    return out, enums


INTS = {"ulong": {"unsigned long", "unsigned long long"}, "long": {"long", "long long"}, "uint": {"unsigned int"},
        "int": {"int"}, "bool": {"bool"}, "byte": {"unsigned char"}, "ushort": {"unsigned short"}, "short": {"short"}}
BITS = {"ulong": 64, "long": 64, "uint": 32, "int": 32, "ushort": 16, "short": 16, "byte": 8}
CBITS = {"unsigned long": 64, "long": 64, "unsigned long long": 64, "long long": 64, "unsigned int": 32, "int": 32, "unsigned short": 16,
         "short": 16, "unsigned char": 8, "char": 8}


def fits(p, mods, t, c, cm):
    """Does a .NET parameter agree with the C type?  None: not judged."""
    ind = c.count("*")
    base = c.replace("*", "").replace("const ", "").replace(" const", "").strip()
    last = t.split(".")[-1]
    if mods and "out" in mods or "ref" in mods:
        if ind == 0:
            return False
        ind -= 1
    if last.endswith("[]"):
        last = last[:-2]
        if ind == 0:
            return False
        ind -= 1
    if last == "IntPtr" or last == "void*" or last.endswith("*") and last[:-1] in ("void", "char", "byte", "ulong"):
        return ind >= 1
    if last == "string":
        return ind == 1 and base == "char"
    if last.endswith("Handle") or last.endswith("Type*"):
        if ind != 1:
            return False
        h = last[:-6] if last.endswith("Handle") else last[:-5]
        m = re.match(r"^eg_(\w+)_s$", base)
        if not m:
            return None if base in ("void",) else False
        a, b = cm.get(flatn(m.group(1))), cm.get(flatn(h))
        if flatn(h) == flatn(m.group(1)):
            return True
        if a is None or b is None:
            return None
        # an object may be passed as, or handed out as, one of its base class
        return a == b or (related(p, a, b) if "out" in mods else related(p, b, a))
    if last == "bool":
        return ind == 0 and base == "bool"
    if last in BITS:
        return ind == 0 and CBITS.get(base) == BITS[last]
    if base.startswith("eg_") and base.endswith("_e"):
        return ind == 0 and (flatn(base[3:-2]) in (flatn(last), "electionguard" + flatn(last)))
    return None


@check("C27", "cross-language declaration comparison: the C headers parsed as C, the library's resolved definitions with their linkage, and the .NET DllImport declarations",
       "Every function a C header declares is defined by the library's sources under C linkage with the declared parameter and result types; every C enumerator has the value of the C++ enumerator it is cast to; every .NET import names a declared function with the same number of parameters, each of a type of the same size and direction, and every .NET enumerator has the value of the C one.")
def c27(ctx):
    p = ctx.p
    decl, enums, errors, err = declared()
    cm = cmap(p)
    if errors:
        ctx.undecide("the C headers as C", "include/electionguard", err[-300:])

    def defined():
        for n, d in sorted(decl.items()):
            if not n.startswith("eg_"):
                continue
            where = "%s:%s" % (rel(d["file"]), d["l"])
            fs = [f for f in p.funcs.values() if f["n"] == n and f.get("b") is not None and not f.get("cls")]
            ctx.tally("declared functions")
            cs = [f for f in fs if f.get("c") and not f.get("internal")]
            what = "%s is in the library" % n
            if not fs:
                ctx.bad(what, where, "the header declares it but nothing defines it", key=n + " is not defined")
                continue
            if not cs:
                ctx.bad(what, ctx.loc(fs[0]), "the header declares (%s) but the definition takes (%s): it gets another name in the library, and callers of the declared function do not link"
                        % (", ".join(params(d)), ", ".join(params(fs[0]))))
                continue
            f = cs[0]
            ctx.saw(f)
            ctx.ok(what, ctx.loc(f))
            ctx.need(params(d) == params(f) and plain(d["rt"]) == plain(f["rt"]), "%s has the declared signature" % n, ctx.loc(f),
                     "declared %s(%s), defined %s(%s)" % (plain(d["rt"]), ", ".join(params(d)), plain(f["rt"]), ", ".join(params(f))))

    def enumerators():
        for n, e in sorted(enums.items()):
            m = re.match(r"^eg_(\w+)_e$", n)
            if not m:
                continue
            cpp = [x for x in p.enums.values() if x["n"].startswith("electionguard::") and flatn(x["n"].split("::")[-1]) == flatn(m.group(1))]
            if not cpp:
                continue
            c = {flatn(x["n"].replace("ELECTIONGUARD_" + m.group(1).upper() + "_", "")): int(x["v"]) for x in e["c"]}
            for x in cpp[0]["c"]:
                k = flatn(x["n"].split("::")[-1])
                ctx.tally("enumerators")
                if k not in c:
                    if int(x["v"]) in c.values():
                        ctx.undecide("%s of %s" % (x["n"], n), "", "no C enumerator of that name")
                    else:
                        ctx.bad("%s has the value of its C enumerator" % x["n"], rel(e["file"]), "no C enumerator has its value")
                    continue
                ctx.need(c[k] == int(x["v"]), "%s has the value of its C enumerator" % x["n"], "%s:%s" % (rel(e["file"]), e["l"]),
                         "%s in C++, %d in C" % (x["v"], c[k]))
        return

    def net():
        if not os.path.isdir(os.path.join(REPO, NET)):
            return
        imports, cs = csharp()
        if len(imports) < 10:
            ctx.undecide(".NET declarations", NET, "only %d imports understood" % len(imports))
            return
        for ep, meth, rt, ps, path, line in imports:
            where = "%s:%s (%s)" % (path, line, meth)
            ctx.tally(".NET imports")
            d = decl.get(ep)
            if d is None:
                ctx.bad(".NET import of %s" % ep, where, "no C header declares it", key=".NET import of %s: not declared" % ep)
                continue
            want = params(d)
            if not ctx.need(len(ps) == len(want), ".NET import %s of %s takes its parameters" % (meth, ep), where,
                            "it passes %d, the function takes %d (%s)" % (len(ps), len(want), ", ".join(want)), key=".NET import of %s: number of parameters" % ep):
                continue
            for (mods, t, n), w in zip(ps, want):
                ok = fits(p, mods, t, w, cm)
                if ok is None:
                    continue
                ctx.tally(".NET parameters")
                ctx.need(ok, ".NET import %s of %s: parameter %s" % (meth, ep, n), where, "%s %s for %s" % (" ".join(mods), t, w),
                         key=".NET import of %s: parameter %s" % (ep, n))
            # a .NET method is named for what it gets: GetX binds eg_..._get_x
            g = re.match(r"^(Get|Set)(\w+)$", meth)
            o = re.search(r"_get_(\w+)$", ep)
            if g and o:
                ctx.tally(".NET getters")
                same = flatn(g.group(2)) == flatn(o.group(1))
                if not same and any(re.search(r"_get_(\w+)$", x) and flatn(re.search(r"_get_(\w+)$", x).group(1)) == flatn(g.group(2))
                                    and x.split("_get_")[0] == ep.split("_get_")[0] for x in decl):
                    ctx.bad(".NET %s is bound to what it names" % meth, where, "bound to %s although the function of its name exists" % ep)
                elif same:
                    ctx.ok(".NET %s is bound to what it names" % meth, where)
        for n, (vals, path) in sorted(cs.items()):
            ce = [(k, e) for k, e in enums.items() if re.match(r"^eg_\w+_e$", k) and flatn(k[3:-2]) in (flatn(n), "electionguard" + flatn(n))]
            if not ce:
                continue
            k, e = ce[0]
            pre = "ELECTIONGUARD_" + k[3:-2].upper().replace("ELECTIONGUARD_", "") + "_"
            c = {flatn(x["n"].replace(pre, "")): int(x["v"]) for x in e["c"]}
            for a, v in vals.items():
                b = flatn(a.replace(pre, ""))
                ctx.tally(".NET enumerators")
                if b in c:
                    ctx.need(c[b] == v, ".NET %s.%s has the C value" % (n, a), path, "%d in .NET, %d in C" % (v, c[b]))
    ctx.part("definitions", defined)
    ctx.part("enumerators", enumerators)
    ctx.part(".NET", net)
