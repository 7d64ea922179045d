"""Operand values that follow one path of the number interpreter: confirms that a difference it reports can happen."""
import random

from .poly import *


class NoValue(Exception):
    pass


class Memo(dict):
    """Values of the operands, and of what was computed from them."""


def evala(x, env):
    if x in env:
        return env[x]
    v = evala1(x, env)
    if isinstance(env, Memo):
        env[x] = v
    return v


def evala1(x, env):
    k = x.kind
    if k == "part":
        v, i, n = x.a
        return (evalp(v, env) >> (8 * i)) & ((1 << (8 * n)) - 1)
    if k == "rev":
        v, n = x.a
        return int.from_bytes((evalp(v, env) % (1 << (8 * n))).to_bytes(n, "little"), "big")
    if k == "mod":
        return evalp(x.a[1], env, x.a[0]) % x.a[0]
    if k == "mont":
        m = x.a[0]
        return evalp(x.a[1], env, m) * (1 << (64 * ((m.bit_length() + 63) // 64))) % m
    if k == "sel":
        i = evalp(x.a[0], env) - x.a[1]
        if not 0 <= i < len(x.a[2]):
            raise NoValue("index")
        return evalp(x.a[2][i], env)
    if k == "sum":
        return evalp(x.a[0], env)
    raise NoValue(repr(x)[:80])


def evalp(p, env, m=None):
    out = 0
    for mo, c in p.d.items():
        t = c
        for x, e in mo:
            b = evala(x, env)
            if not isinstance(e, int):
                e = evalp(e, env)
            if m is None:
                if e > 4096:
                    raise NoValue("power")
                t *= b ** e
            else:
                t = t * pow(b % m, e, m) % m
        out += t
    return out if m is None else out % m


def bases(ps):
    """The operand symbols in these polynomials."""
    out, seen = set(), set()

    def go(p):
        for mo in p.d:
            for x, e in mo:
                if not isinstance(e, int):
                    go(e)
                if x in seen:
                    continue
                seen.add(x)
                if x.kind == "sym":
                    out.add(x)
                for y in x.a:
                    if isinstance(y, Poly):
                        go(y)
                    elif isinstance(y, tuple):
                        for q in y:
                            if isinstance(q, Poly):
                                go(q)
    for p in ps:
        go(p)
    return sorted(out, key=repr)


def fix(K, lo, hi, env, rnd):
    """Moves one operand so that lo <= K <= hi."""
    v = evalp(K, env)
    target = rnd.choice((lo, hi, rnd.randint(lo, hi)))
    cand = []
    for mo, c in K.d.items():
        if len(mo) == 1 and mo[0][1] == 1:
            x = mo[0][0]
            if x.kind == "sym":
                cand.append((x, 0, None, c))
            elif x.kind == "part" and x.a[0].single() is not None and x.a[0].single().kind == "sym":
                cand.append((x.a[0].single(), x.a[1], x.a[2], c))
    rnd.shuffle(cand)
    for s, i, n, c in cand:
        d = target - v
        if d % c:
            t2 = v + (d // c) * c
            if not lo <= t2 <= hi:
                t2 += c
            if not lo <= t2 <= hi:
                continue
            d = t2 - v
        cur = env[s] if n is None else (env[s] >> (8 * i)) & ((1 << (8 * n)) - 1)
        new = cur + d // c
        if n is not None:
            if not 0 <= new < 1 << (8 * n):
                continue
            new = env[s] + ((new - cur) << (8 * i))
        if s.lo <= new <= s.hi:
            env[s] = new
            return


def settled(dis, env):
    """Every entry has an alternative that holds; otherwise the constraints of one to aim for."""
    for alts in dis:
        if not any(all(l <= evalp(K, env) <= h for K, l, h in c) and settled(d, env) is None for c, d in alts):
            return alts
    return None


def find(syms, st, good, tries=400, seed=1, extra=()):
    """Values of the operands (inside their ranges and the constraints of the path) for which good(env) is true."""
    if st.vague:
        return None
    cons = list(st.cons) + list(extra)
    rnd = random.Random(seed)
    for t in range(tries):
        env = {}
        for s in syms:
            n = s.hi.bit_length()
            env[s] = min(max(s.lo, rnd.choice((rnd.randint(s.lo, s.hi), rnd.randint(s.lo, s.hi), s.hi, s.hi - 1, s.lo, s.lo + 1,
                                               rnd.randrange(1 << max(1, n // 2)), s.hi - rnd.randrange(1 << max(1, n // 2)), 1 << rnd.randrange(max(1, n))))), s.hi)
        try:
            ok = False
            for _ in range(14):
                badc = [(K, l, h) for K, l, h in cons if not l <= evalp(K, env) <= h]
                if badc:
                    K, l, h = rnd.choice(badc)
                    fix(K, l, h, env, rnd)
                    continue
                alts = settled(st.dis, env)
                if alts is None:
                    ok = True
                    break
                c, d = rnd.choice(alts)
                while d and rnd.random() < 0.7:
                    c2, d = rnd.choice(rnd.choice(d))
                    c = c + c2
                for K, l, h in c:
                    if not l <= evalp(K, env) <= h:
                        fix(K, l, h, env, rnd)
            if ok and good(env):
                return env
        except NoValue:
            return None
    return None


def paths(st, cap=3000):
    """The alternatives of a merged state, one list of constraints each; None if there are too many."""
    out = [list(st.cons)]

    def expand(acc, dis):
        for alts in dis:
            nxt = []
            for c, d in alts:
                sub = expand([list(c)], d)
                if sub is None:
                    return None
                for a in acc:
                    for b in sub:
                        nxt.append(a + b)
                        if len(nxt) > cap:
                            return None
            acc = nxt
        return acc
    return expand(out, st.dis)
