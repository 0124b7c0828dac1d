"""Linear facts: a small polyhedral domain (Fourier-Motzkin elimination)."""
from .terms import *

BIG = 2**63 - 1


def abounds(t):
    """Interval of an atom from its type and structure: (lo|None, hi|None)."""
    lo = hi = None
    ty = tyof.get(t)
    if ty in INT:
        lo, hi = INT[ty]
    o = t.op
    if o == "len":
        lo, hi = 0, BIG
    elif o == "cast" and t.a[0] in INT:
        l2, h2 = INT[t.a[0]]
        lo = l2 if lo is None else max(lo, l2)
        hi = h2 if hi is None else min(hi, h2)
    elif o == "band":
        for x in t.a[:2]:
            if x.op == "c" and x.a[0] >= 0:
                lo, hi = 0, min(x.a[0], hi) if hi is not None else x.a[0]
    elif o == "rem":
        if t.a[1].op == "c" and t.a[1].a[0] > 0 and (lo == 0 or lo is None and False):
            hi = t.a[1].a[0] - 1
    elif o in ("ge0", "eq0", "ne0", "not", "eq"):
        lo, hi = 0, 1
    return lo, hi


def extra(t):
    """Linear consequences of an atom's structure: list of lin terms >= 0."""
    o, out = t.op, []
    if o == "div" and t.a[1].op == "c" and t.a[1].a[0] > 0 and nonneg(t.a[0]):
        n = t.a[1].a[0]
        out += [sub(t.a[0], scale(t, n)), sub(add(scale(t, n), C(n - 1)), t.a[0])]
    elif o == "shr" and t.a[1].op == "c" and nonneg(t.a[0]):
        n = 1 << t.a[1].a[0]
        out += [sub(t.a[0], scale(t, n)), sub(add(scale(t, n), C(n - 1)), t.a[0])]
    elif o == "rem" and nonneg(t.a[0]):
        out += [sub(t.a[0], t), t, sub(sub(t.a[1], ONE), t)]
    elif o == "band":
        for x in t.a[:2]:
            if nonneg(x):
                out.append(sub(x, t))
            if x.op == "bnot" and x.a[0].op == "c" and (x.a[0].a[0] & (x.a[0].a[0] + 1)) == 0:
                y = t.a[1] if x is t.a[0] else t.a[0]
                if nonneg(y):
                    out.append(sub(t, sub(y, x.a[0])))
    elif o == "mul" and nonneg(t.a[0]) and nonneg(t.a[1]):
        out.append(t)
    elif o == "f" and t.a[1] == "0" and t.a[0].op == "v" and t.a[0].a[1] == "Ok":
        c = t.a[0].a[0]
        # contract of Read::read / Write::write: at most buf.len() bytes
        if c.op == "call" and c.a[0] in ("Read::read", "Write::write") and len(c.a[2]) == 2:
            out += [sub(length(c.a[2][1]), t), t]
    elif o == "div" and nonneg(t.a[0]) and nonneg(t.a[1]):
        out += [t, sub(t.a[0], t)]
    return out


def nonneg(t):
    if t.op == "c":
        return t.a[0] >= 0
    c, d = lin(t)
    if t.op == "lin":
        return c >= 0 and all(v > 0 and nonneg(k) for k, v in d.items())
    lo, _ = abounds(t)
    return lo is not None and lo >= 0


def atoms(b):
    if b.op in ("ge0", "eq0", "ne0"):
        return set(lin(b.a[0])[1])
    return set()


LIMIT = 400


def fm_unsat(cons):
    """cons: list of (const, {atom:coeff}) meaning >= 0. True if no rational solution."""
    cur = {}
    for c, d in cons:
        if not d:
            if c < 0:
                return True
            continue
        k = tuple(sorted(((a.id, v) for a, v in d.items())))
        if k not in cur or cur[k][0] > c:
            cur[k] = (c, d)
    cur = list(cur.values())
    while True:
        vs = {}
        for c, d in cur:
            for a, v in d.items():
                p = vs.setdefault(a, [0, 0])
                p[v < 0] += 1
        if not vs:
            return any(c < 0 for c, d in cur)
        a = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1], x.id))
        pos = [(c, d) for c, d in cur if d.get(a, 0) > 0]
        ng = [(c, d) for c, d in cur if d.get(a, 0) < 0]
        new = {}
        for c, d in cur:
            if a not in d:
                k = tuple(sorted(((x.id, v) for x, v in d.items())))
                if k not in new or new[k][0] > c:
                    new[k] = (c, d)
        for cp, dp in pos:
            for cn, dn in ng:
                p, n = dp[a], -dn[a]
                d = {}
                for x, v in dp.items():
                    d[x] = d.get(x, 0) + v * n
                for x, v in dn.items():
                    d[x] = d.get(x, 0) + v * p
                d = {x: v for x, v in d.items() if v}
                c = cp * n + cn * p
                if not d:
                    if c < 0:
                        return True
                    continue
                g = abs(next(iter(d.values())))
                if g > 1 and all(v % g == 0 for v in d.values()):
                    d = {x: v // g for x, v in d.items()}
                    c = c // g          # integer tightening
                k = tuple(sorted(((x.id, v) for x, v in d.items())))
                if k not in new or new[k][0] > c:
                    new[k] = (c, d)
        cur = list(new.values())
        if len(cur) > LIMIT:
            return False


def constraints(facts, seed, depth=3):
    """Linear constraints of the facts connected to the seed atoms."""
    ats = set(seed)
    used, out = set(), []
    ne = []
    for _ in range(depth):
        grew = False
        for f in facts:
            if f in used or f.op not in ("ge0", "eq0", "ne0"):
                continue
            fa = atoms(f)
            if fa & ats:
                used.add(f)
                if f.op == "ge0":
                    out.append(lin(f.a[0]))
                elif f.op == "eq0":
                    out.append(lin(f.a[0]))
                    out.append(lin(scale(f.a[0], -1)))
                else:
                    ne.append(f.a[0])
                if not fa <= ats:
                    ats |= fa
                    grew = True
        for a in list(ats):
            for x in extra(a):
                k = ("x", x)
                if k not in used:
                    used.add(k)
                    out.append(lin(x))
                    na = set(lin(x)[1])
                    if not na <= ats:
                        ats |= na
                        grew = True
        if not grew:
            break
    for a in ats:
        lo, hi = abounds(a)
        if lo is not None:
            out.append((-lo, {a: 1}))
        if hi is not None:
            out.append((hi, {a: -1}))
    return out, ne


def unsat(facts, extra_lins):
    seed = set()
    for l in extra_lins:
        seed |= set(lin(l)[1])
    cons, ne = constraints(facts, seed)
    cons += [lin(l) for l in extra_lins]
    if fm_unsat(cons):
        return True
    # integer disequalities: x != 0 and x >= 0  =>  x >= 1
    for _ in range(2):
        changed = False
        for l in list(ne):
            for s in (l, scale(l, -1)):
                if fm_unsat(cons + [lin(sub(scale(s, -1), ONE))]):   # s < 0 impossible
                    cons.append(lin(sub(s, ONE)))
                    ne.remove(l)
                    changed = True
                    if fm_unsat(cons):
                        return True
                    break
        if not changed:
            break
    return False


def entails(facts, b):
    o = b.op
    if o == "c":
        return bool(b.a[0])
    if b in facts:
        return True
    if o == "ge0":
        return unsat(facts, [neg(b).a[0]] if neg(b).op == "ge0" else [C(-1 if not neg(b).a[0] else 0)])
    if o == "eq0":
        return entails(facts, ge0(b.a[0])) and entails(facts, ge0(scale(b.a[0], -1)))
    if o == "ne0":
        return unsat(facts, [b.a[0], scale(b.a[0], -1)])
    if o == "not" and b.a[0].op == "or":
        return all(entails(facts, neg(x)) for x in b.a[0].a)
    if o == "or":
        return any(entails(facts, x) for x in b.a)
    if o == "and":
        return all(entails(facts, x) for x in b.a)
    return False


def refutes(facts, b):
    return entails(facts, neg(b))
