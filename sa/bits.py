"""Bit-level normal form of machine integers: which bit of which value each bit is."""
from .terms import *
from .flow import INT

OPS = ("band", "bor", "bxor", "shl", "shr", "cast", "rol")


def width(t):
    ty = tyof.get(t)
    if ty == "bool":
        return 1
    if ty in INT:
        return (INT[ty][1] - INT[ty][0]).bit_length()
    return 64


def bitvec(t, memo=None):
    """64 entries: 0, 1 or (atom, bit). Bits that are neither are those of the term itself."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = r = _bv(t, memo)
    return r


def _own(t):
    w = width(t)
    return tuple((t, i) if i < w else 0 for i in range(64))


def _bv(t, memo):
    o = t.op
    if o == "bits":
        return t.a + (0,) * (64 - len(t.a))
    if o == "c":
        return tuple((t.a[0] >> i) & 1 for i in range(64))
    if o in ("band", "bor", "bxor"):
        a, b = bitvec(t.a[0], memo), bitvec(t.a[1], memo)
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if x in (0, 1) and y in (0, 1):
                out.append({"band": x & y, "bor": x | y, "bxor": x ^ y}[o])
                continue
            if x in (0, 1):
                x, y = y, x
            if o == "band" and y == 0 or o == "bxor" and x == y:
                out.append(0)
            elif o == "bor" and y == 1:
                out.append(1)
            elif y == 0 or x == y or o == "band" and y == 1:
                out.append(x)
            else:
                out.append((t, i))
        return tuple(out)
    if o == "shr" and t.a[1].op == "c":
        a = bitvec(t.a[0], memo)
        k = t.a[1].a[0]
        return a[k:] + (0,) * min(k, 64)
    if o == "shl" and t.a[1].op == "c":
        a = bitvec(t.a[0], memo)
        k = t.a[1].a[0]
        w = 64 if len(t.a) < 3 or t.a[2] not in INT else (INT[t.a[2]][1] - INT[t.a[2]][0]).bit_length()
        v = ((0,) * k + a)[:64]
        return tuple(x if i < w else 0 for i, x in enumerate(v))
    if o == "cast" and t.a[0] in INT and INT[t.a[0]][0] == 0:
        w = INT[t.a[0]][1].bit_length()
        return tuple(x if i < w else 0 for i, x in enumerate(bitvec(t.a[1], memo)))
    if o == "lin" and len(t.a[1]) and all(k > 0 and k & (k - 1) == 0 for _, k in t.a[1]) and t.a[0] >= 0:
        # a sum whose summands share no bit
        acc = [(t.a[0] >> i) & 1 for i in range(64)]
        for x, k in t.a[1]:
            v = bitvec(x, memo)
            s = k.bit_length() - 1
            v = ((0,) * s + v)[:64]
            for i in range(64):
                if v[i] == 0:
                    continue
                if acc[i] != 0:
                    return _own(t)
                acc[i] = v[i]
        return tuple(acc)
    return _own(t)


def normal(t, memo=None):
    """the term with its bits normalised: a constant, the atom itself, or bits((atom,bit)...)"""
    v = bitvec(t, memo)
    if all(x in (0, 1) for x in v):
        return C(sum(x << i for i, x in enumerate(v)))
    ats = {x[0] for x in v if x not in (0, 1)}
    if len(ats) == 1:
        a = next(iter(ats))
        if v == _own(a):
            return a
    n = 64
    while n and v[n - 1] == 0:
        n -= 1
    return mk("bits", *v[:n])


def canon(t, f=None, memo=None):
    """rewrite with every bit operation in normal form"""
    bm = {}

    def g(x):
        if f is not None:
            r = f(x)
            if r is not None:
                return r
        if x.op in OPS:
            y = mk(x.op, *[go(a) for a in x.a])
            if x in tyof:
                tyof.setdefault(y, tyof[x])
            return normal(y, bm)
        return None

    m = {} if memo is None else memo

    def go(x):
        return rewrite(x, g, m) if isinstance(x, T) else x
    return go(t)
