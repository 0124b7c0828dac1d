"""Byte sequences as ordered pieces of the sequences they were copied from."""
from .terms import *
from .prov import origin


def eqq(p, a, b):
    return a is b or p.entails(eqi(a, b))


def parts(p, t, same=None):
    """[(base, lo, hi)] in order; a repeated value is ("rep" term, 0, n). `same` maps a base to the base it stands for."""
    o = t.op
    if o == "empty":
        return []
    if o == "cat":
        return join(p, parts(p, t.a[0], same), parts(p, t.a[1], same))
    if o == "push":
        return join(p, parts(p, t.a[0], same), [(mk("byte", t.a[1]), ZERO, ONE)])
    if o == "sl":
        return cut(p, parts(p, t.a[0], same), t.a[1], t.a[2])
    if o == "usl":
        b = parts(p, t.a[0], same)
        return join(p, join(p, cut(p, b, ZERO, t.a[1]), parts(p, t.a[3], same)), cut(p, b, t.a[2], length(t.a[0])))
    if o == "ue":
        b = parts(p, t.a[0], same)
        return join(p, join(p, cut(p, b, ZERO, t.a[1]), [(mk("byte", t.a[2]), ZERO, ONE)]), cut(p, b, add(t.a[1], ONE), length(t.a[0])))
    if o == "resized":
        return join(p, parts(p, t.a[0], same), [(mk("rep", t.a[2]), ZERO, sub(t.a[1], length(t.a[0])))])
    if o == "rep":
        return tidy(p, [(mk("rep", t.a[0]), ZERO, t.a[1])])
    n = length(t)
    if same:
        t = same(t)
    return tidy(p, [(t, ZERO, n)])


def tidy(p, l):
    return [x for x in l if not p.entails(le(x[2], x[1]))]


def join(p, a, b):
    a, b = tidy(p, a), tidy(p, b)
    while a and b and a[-1][0] is b[0][0] and (a[-1][0].op == "rep" or eqq(p, a[-1][2], b[0][1])):
        x, y = a[-1], b[0]
        a, b = a[:-1], [(x[0], x[1], add(x[2], sub(y[2], y[1])))] + b[1:]
    return a + b


def cut(p, l, lo, hi):
    out, pos = [], ZERO
    for base, x, y in l:
        n = sub(y, x)
        end = add(pos, n)
        a = lo if p.entails(le(pos, lo)) else pos if p.entails(le(lo, pos)) else None
        b = hi if p.entails(le(hi, end)) else end if p.entails(le(end, hi)) else None
        if a is None or b is None:
            return [(mk("?", base, x, y, lo, hi), ZERO, sub(hi, lo))]
        if not p.entails(le(b, a)):
            out.append((base, add(x, sub(a, pos)), add(x, sub(b, pos))))
        pos = end
    return tidy(p, out)


def same_parts(p, a, b):
    a, b = tidy(p, a), tidy(p, b)
    return len(a) == len(b) and all(x[0] is y[0] and eqq(p, sub(x[2], x[1]), sub(y[2], y[1])) and (x[0].op == "rep" or eqq(p, x[1], y[1])) for x, y in zip(a, b))


def take(p, rest, block):
    """what is left of `rest` after `block`, or None when block is not its beginning"""
    rest = tidy(p, list(rest))
    for base, lo, hi in tidy(p, block):
        if not rest or rest[0][0] is not base or base.op != "rep" and not eqq(p, rest[0][1], lo):
            return None
        b, x, y = rest[0]
        z = add(x, sub(hi, lo))
        if not p.entails(le(z, y)):
            return None
        rest = tidy(p, [(b, z, y)]) + rest[1:]
    return rest


def total(l):
    n = ZERO
    for _, x, y in l:
        n = add(n, sub(y, x))
    return n


def show(l):
    return " ++ ".join("%s[%s..%s]" % (pp(b)[:60], pp(x)[:40], pp(y)[:60]) for b, x, y in l) or "nothing"
