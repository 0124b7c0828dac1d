"""Value of an extracted expression for given values of its free terms."""
from .terms import *
from .flow import INT


DISCR = {}      # enum -> {variant: number}, filled in by steps.System


def wrap(v, ty):
    if ty not in INT:
        return v
    lo, hi = INT[ty]
    return (v - lo) % (hi - lo + 1) + lo


def value(t, env):
    """int, or None when the expression uses a term without a value"""
    if t in env:
        return env[t]
    o = t.op
    if o == "c":
        return t.a[0]
    if o == "lin":
        s = t.a[0]
        for k, c in t.a[1]:
            v = value(k, env)
            if v is None:
                return None
            s += c * v
        return s
    if o == "cast":
        v = value(t.a[1], env)
        return None if v is None else wrap(v, t.a[0])
    if o in ("band", "bor", "bxor", "shl", "shr", "div", "rem", "mul", "min", "max"):
        x, y = value(t.a[0], env), value(t.a[1], env)
        if x is None or y is None:
            return None
        if o in ("div", "rem") and (y <= 0 or x < 0):
            return None
        if o == "shl":
            return wrap(x << y, t.a[2] if len(t.a) > 2 else tyof.get(t, ""))
        return {"band": lambda: x & y, "bor": lambda: x | y, "bxor": lambda: x ^ y, "shr": lambda: x >> y, "div": lambda: x // y,
                "rem": lambda: x % y, "mul": lambda: x * y, "min": lambda: min(x, y), "max": lambda: max(x, y)}[o]()
    if o == "pure":
        return pure(t, env)
    if o == "e":
        return element(t.a[0], value(t.a[1], env), env)
    if o == "len":
        u = length(t.a[0])
        return value(u, env) if u is not t else None
    if o in ("ge0", "eq0", "ne0", "not", "and"):
        v = holds(t, env)
        return None if v is None else int(v)
    if o == "discr":
        return DISCR.get(t.a[1], {}).get(variant(t.a[0]) or env.get(mk("variant", t.a[0])))
    if o == "bnot":
        x = value(t.a[0], env)
        return None if x is None else wrap(~x, t.a[1] if len(t.a) > 1 else tyof.get(t, ""))
    return None


def typ(t):
    """integer type of a term"""
    if t.op == "cast":
        return t.a[0]
    if t.op == "lin":
        ts = {typ(k) for k, _ in t.a[1]}
        return ts.pop() if len(ts) == 1 else None
    return tyof.get(t)


def pure(t, env):
    n = t.a[0].split("::")[-1]
    if "pure" in env:       # the meaning given to a function of the arguments alone
        v = env["pure"](t, env)
        if v is not None:
            return v
    if n in ("from_le_bytes", "from_be_bytes"):
        w = value(length(t.a[1]), env)
        bs = [element(t.a[1], i, env) for i in range(w)] if w is not None and w <= 16 else [None]
        if None in bs:
            return None
        return int.from_bytes(bytes(b & 255 for b in bs), n[5:7] == "le" and "little" or "big")
    vs = [value(x, env) for x in t.a[1:]]
    if None in vs:
        return None
    ty = tyof.get(t) or tyof.get(t.a[1])
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul") and ty in INT:
        return wrap({"wrapping_add": vs[0] + vs[-1], "wrapping_sub": vs[0] - vs[-1], "wrapping_mul": vs[0] * vs[-1]}[n], ty)
    ty = typ(t.a[1])
    if n == "ilog2":
        return vs[0].bit_length() - 1 if vs[0] > 0 else None
    if n == "count_ones" and vs[0] >= 0:
        return bin(vs[0]).count("1")
    if n in ("leading_ones", "trailing_ones") and ty in INT:
        vs = [~vs[0]]
        n = n.replace("ones", "zeros")
    if n in ("leading_zeros", "trailing_zeros") and ty in INT:
        w = (INT[ty][1] - INT[ty][0] + 1).bit_length() - 1
        v = vs[0] & ((1 << w) - 1)
        if n == "leading_zeros":
            return w - v.bit_length()
        return w if not v else (v & -v).bit_length() - 1
    return None


def element(b, i, env):
    """element i of sequence b"""
    if i is None:
        return None
    while True:
        x = elem(b, C(i))
        if x in env:
            return env[x]
        if b.op == "ue":
            j = value(b.a[1], env)
            if j is None:
                return None
            if j == i:
                return value(b.a[2], env)
            b = b.a[0]
            continue
        if b.op == "usl":
            lo, hi = value(b.a[1], env), value(b.a[2], env)
            if lo is None or hi is None:
                return None
            if lo <= i < hi:
                b, i = b.a[3], i - lo
                continue
            b = b.a[0]
            continue
        if b.op == "sl":
            lo = value(b.a[1], env)
            if lo is None:
                return None
            b, i = b.a[0], i + lo
            continue
        if b.op == "bytes":
            v = value(b.a[2], env)
            k = i if b.a[1] == "le" else b.a[0] - 1 - i
            return None if v is None or not 0 <= k < b.a[0] else v >> 8 * k & 255
        if b.op == "cat":
            n = value(length(b.a[0]), env)
            if n is None:
                return None
            b, i = (b.a[0], i) if i < n else (b.a[1], i - n)
            continue
        return value(x, env) if x.op != "e" else None


def holds(f, env):
    """True/False/None of a fact"""
    o = f.op
    if o == "not":
        v = holds(f.a[0], env)
        return None if v is None else not v
    if o == "is":
        v = env.get(mk("variant", f.a[0]))
        return None if v is None else v == f.a[1]
    if o == "and":
        vs = [holds(x, env) for x in f.a]
        return False if False in vs else None if None in vs else True
    if o in ("eq0", "ne0", "ge0"):
        v = value(f.a[0], env)
        return None if v is None else v == 0 if o == "eq0" else v != 0 if o == "ne0" else v >= 0
    if o == "c":
        return bool(f.a[0])
    if o == "eq":
        x, y = value(f.a[0], env), value(f.a[1], env)
        return None if x is None or y is None else x == y
    v = value(f, env)
    return None if v is None else bool(v)
