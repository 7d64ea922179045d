"""Build the extractor, extract /repo's current tree, load the resolved program."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EG_REPO", "/repo")
ROOT = REPO

FLAGS = ["-w", "-DLOG_DEBUG", "-DEXPORT_INTERNALS", "-DHACL_CAN_COMPILE_VEC128",
         "-DHACL_CAN_COMPILE_VEC256", "-DUSE_STANDARD_PRIMES",
         "-DELECTIONGUARD_BUILD_SHARED", "-fPIC"]


class AnalysisBroken(Exception):
    """The analysis itself cannot be carried out (not a verdict)."""


def includes():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src",
            "-I" + REPO + "/src/electionguard", "-I" + REPO + "/src/karamel"]


def sources():
    """The library's source list, read as the build reads it."""
    txt = open(REPO + "/src/CMakeLists.txt").read()
    txt = re.sub(r"#[^\n]*", "", txt)
    i = txt.find("set(PROJECT_SOURCE_FILES")
    if i < 0:
        raise AnalysisBroken("PROJECT_SOURCE_FILES not found in src/CMakeLists.txt")
    txt = txt[i:txt.index(")", i)]
    txt = txt.replace("${PROJECT_SOURCE_DIR}", REPO)
    fs = re.findall(r"/[^ \n\t]+\.(?:cpp|c|hpp|h)", txt)
    return [f for f in fs if f.endswith((".cpp", ".c"))]


def tool():
    """Path of the extractor, built on demand."""
    src = VERIF + "/tool/egx.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = VERIF + "/build/egx-" + h
    if os.path.exists(out):
        return out
    os.makedirs(VERIF + "/build", exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    cxx = shutil.which("clang++-18") or "clang++"
    lc = shutil.which("llvm-config-18") or "/usr/lib/llvm-18/bin/llvm-config"
    flags = subprocess.check_output([lc, "--cxxflags"], text=True).split()
    r = subprocess.run([cxx, "-O1"] + flags + ["-o", tmp, src, "-L/usr/lib/llvm-18/lib",
                        "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def _tree_hash(files):
    h = hashlib.sha256()
    for root in ("include", "src"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    h.update(open(VERIF + "/tool/egx.cpp", "rb").read())
    h.update(" ".join(FLAGS + files).encode())
    return h.hexdigest()[:20]


def extract(want_karamel=True):
    """Extract every translation unit of the library; returns list of JSON dicts."""
    files = sources()
    t = tool()
    key = _tree_hash(files)
    cache = VERIF + "/build/facts-" + key
    if not os.path.isdir(cache):
        for old in os.listdir(VERIF + "/build"):
            if old.startswith("facts-"):
                shutil.rmtree(VERIF + "/build/" + old, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=VERIF + "/build", prefix="x-")

        def one(a):
            i, f = a
            std = ["-std=c++17"] if f.endswith(".cpp") else ["-xc", "-std=gnu17"]
            out = "%s/%03d.json" % (tmp, i)
            r = subprocess.run([t, "--root=" + REPO, "--out=" + out, f, "--"] + std + FLAGS + includes(),
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisBroken("cannot analyse %s: %s" % (f, r.stderr[-1500:]))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, enumerate(files)))
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    res = []
    for fn in sorted(os.listdir(cache)):
        res.append(json.load(open(cache + "/" + fn)))
    return res


def strip_targs(n):
    """Remove template argument lists from a qualified name."""
    out = []
    depth = 0
    i = 0
    L = len(n)
    while i < L:
        if n.startswith("operator", i) and (i == 0 or not (n[i - 1].isalnum() or n[i - 1] == "_")) and depth == 0:
            m = re.match(r"operator(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>)", n[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        c = n[i]
        if c == "<":
            depth += 1
        elif c == ">" and not (i and n[i - 1] == "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("std::__cxx11::", "std::").replace("std::__1::", "std::")


_ty = {}


def norm_type(t):
    r = _ty.get(t)
    if r is None:
        r = t.replace("std::__cxx11::", "std::")
        r = r.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
        r = r.replace("nlohmann::json_abi_v3_11_3::", "nlohmann::")
        _ty[t] = r
    return r


class Prog:
    def __init__(self, tus):
        self.funcs = {}     # usr -> function (definition)
        self.by_name = {}   # stripped qualified name -> [function]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.decls = {}     # extern "C" declarations: name -> decl
        self.tus = [t["main"] for t in tus]
        self.ntu = len(tus)
        self.cdefs = {}
        for t in tus:
            if t.get("errors"):
                raise AnalysisBroken("errors while parsing " + t["main"])
            types = [norm_type(x) for x in t["types"]]
            for f in t["funcs"]:
                self._fix(f, types)
                u = f["u"]
                if f.get("internal"):
                    u = u + "@" + f["file"]
                    f["u"] = u
                old = self.funcs.get(u)
                if old is not None and (old.get("b") or not f.get("b")):
                    continue
                if u.endswith("#S"):
                    f["static"] = True
                self.funcs[u] = f
            for f in t["decls"]:
                self._fix(f, types)
                self.decls.setdefault(f["n"], f)
            for r in t["records"]:
                self._fix(r, types)
                n = r["n"]
                if n not in self.records or len(r.get("methods", ())) > len(self.records[n].get("methods", ())):
                    self.records[n] = r
            for e in t["enums"]:
                self.enums.setdefault(e["n"], e)
            for g in t["globals"]:
                self._fix(g, types)
                self.globals.setdefault(g["u"], g)
        for f in self.funcs.values():
            self.by_name.setdefault(strip_targs(f["n"]), []).append(f)

    def _fix(self, n, types):
        # resolve type indices in place
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("t", "rt", "at") and isinstance(v, int):
                        x[k] = types[v]
                    elif isinstance(v, (dict, list)):
                        if k == "ps" and v and isinstance(v[0], int):
                            x[k] = [types[i] for i in v]
                        else:
                            stack.append(v)
            elif isinstance(x, list):
                stack.extend(x)

    def fn(self, name, nparams=None, pred=None):
        """All definitions with that stripped qualified name."""
        fs = self.by_name.get(name, [])
        if nparams is not None:
            fs = [f for f in fs if len(f["ps"]) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs

    def one(self, name, nparams=None, pred=None):
        fs = self.fn(name, nparams, pred)
        fs = [f for f in fs if f.get("b")]
        if len(fs) != 1:
            raise AnalysisBroken("anchor %s/%s: %d definitions" % (name, nparams, len(fs)))
        return fs[0]

    def lookup(self, usr, file=None):
        f = self.funcs.get(usr)
        if f is None and file:
            f = self.funcs.get(usr + "@" + file)
        return f


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Prog(extract())
    return _prog


def walk(n):
    """All dict nodes below n (inclusive), pre-order."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            stack.extend(reversed(x))


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path
