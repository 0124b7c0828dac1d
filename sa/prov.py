"""Provenance of values: which memory cell, call or constant a term was taken from."""
from .terms import *


def origin(t):
    """(root, path) of the memory cell a term is the (havoc'd or updated) content of, or None."""
    op = t.op
    if op in ("f", "v"):
        o = origin(t.a[0])
        if o is None:
            return None
        return (o[0], o[1] + ((op, t.a[1]),)) if op == "f" else o
    if op == "out":
        return t.a[2], t.a[3]
    if op == "oute":
        return t.a[3], t.a[4]
    if op == "lv":
        return t.a[2], t.a[3]
    if op == "lve":
        return t.a[3], t.a[4]
    if op == "u":
        return origin(t.a[0])
    if op == "d":
        return mk("D", t.a[0]), ()
    return None


def refcell(a):
    if a.op == "r":
        return a.a[1], a.a[2]
    return None


def after_loop(p, ctx):
    """events of the current iteration of the loop `ctx` (key used in p.x['loop'])."""
    last = 0
    for i, e in enumerate(p.ev):
        if e.kind == "loop" and e.x == ctx:
            last = i + 1
    return p.ev[last:]


def strip(t):
    """Lossless casts leave no trace in a term; a cast that is still there may lose bits and is kept."""
    return t


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def pieces(p, t):
    """A sequence value as the list of what it was built from, in order:
    ("push", v), ("extend", value, event), ("lv", term), ("base", term)."""
    out = []
    while True:
        if t.op == "push":
            out.append(("push", t.a[1]))
            t = t.a[0]
        elif t.op == "cat":
            out.append(("cat", t.a[1]))
            t = t.a[0]
        elif t.op in ("out", "oute"):
            c = t.a[0] if t.op == "out" else t.a[1]
            if c.op == "call" and c.a[0] in ("Extend::extend", "Vec::extend_from_slice", "Vec::append"):
                out.append(("extend", c.a[2][1], c))
                t = c.a[2][0]
            else:
                out.append(("base", t))
                break
        elif t.op == "empty":
            break
        elif t.op in ("lv", "lve"):
            out.append(("lv", t))
            break
        elif t.op == "call" and t.a[0] in ("Iterator::collect", "FromIterator::from_iter"):
            out.append(("extend", t.a[2][0], t))
            break
        else:
            out.append(("base", t))
            break
    out.reverse()
    return out


def lvctx(t):
    """(ctx, bb, root, path) of a loop-carried value."""
    return t.a[:4] if t.op == "lv" else t.a[1:5]


def pushed_per_iteration(ps, t):
    """For a loop-carried vector: [(loop path, [values pushed in that iteration])]; None if something else happens to it."""
    ctx, bb, root, path = lvctx(t)
    res = []
    for q in ps:
        if q.kind == "loop" and q.x["loop"] == (ctx, bb):
            v = q.load(root, path)
            vals = []
            while v.op == "push":
                vals.append(v.a[1])
                v = v.a[0]
            if v is not t and not (v.op == t.op and lvctx(v) == lvctx(t)):
                return None
            res.append((q, vals[::-1]))
    return res


def seq_source(it):
    """(cell, closures) of an iterator chain over a whole sequence in order, or None"""
    clos = []
    while it.op == "it":
        k = it.a[0]
        if k == "map":
            clos.append(it.a[2])
            it = it.a[1]
        elif k == "seq":
            return refcell(it.a[1]) if it.a[1].op == "r" else None, clos
        elif k in ("enumerate", "copied", "cloned"):
            it = it.a[1]
        else:
            return None
    return (None, clos) if it.op != "r" else (refcell(it), clos)


def closure_ret(P, rule, clo):
    """Values a closure returns for its item (list, one per path)."""
    from . import flow
    e = flow.Engine(P)
    k = P.by_id.get(clo.a[1]) if clo.op == "a" and clo.a[0] == "closure" else None
    if k is None:
        return None
    ps = e.run(k["key"] if isinstance(k, dict) else k)
    rule.ran(e, ps)
    return [p.ret for p in ps if p.kind == "return"]


def cname(t):
    return t.a[0] if t.op in ("call", "pure") else None


def cvals(t):
    """values of the arguments of a call term"""
    if t.op == "call":
        return t.a[2]
    if t.op == "pure":
        return t.a[1] if isinstance(t.a[1], tuple) else t.a[1:]
    return ()


def iterations(ps, e):
    """the paths through one iteration of the loop or iterator method whose `next` event is e"""
    out = []
    for q in ps:
        if q.kind != "loop":
            continue
        lp = q.x["loop"]
        hit = [x for x in q.ev if x.kind == "next" and x.name == "item" and (x.ctx, x.bb) == (e.ctx, e.bb)]
        if not hit:
            continue
        if lp[0] == "it":
            if lp[1] == "%s@%d" % (e.ctx, e.bb):
                out.append((q, hit[-1]))
        elif lp[0] == e.ctx:
            # the item was taken in the round of this very loop, not in one left before
            i = max([i for i, x in enumerate(q.ev) if x.kind == "loop" and x.x == lp] or [-1])
            if any(x is hit[-1] for x in q.ev[i + 1:]):
                out.append((q, hit[-1]))
    return out


def seq_of(e):
    """content, at that time, of the sequence a `next` event iterates over"""
    return e.vals[2] if len(e.vals) > 2 else None


def every_item(ps, p, e, pred):
    """e: a `next done` event of p. pred(iteration path, item event) holds for every iteration that goes on."""
    its = iterations(ps, e)
    return bool(its) and all(pred(q, x) for q, x in its)


def decided(p, lv):
    """True/False when p knows the value of the boolean lv"""
    if p.entails(lv) or lv in p.fset or ne0(lv) in p.fset:
        return True
    if neg(lv) in p.fset or p.entails(eq0(lv)):
        return False
    return None


def sticky(rounds, h, b):
    """once the flag has the value it does not end with, it keeps it to the end of the loop"""
    root, path, lv, old = h
    for r in rounds:
        t = r.copy()
        if t.assume(neg(lv) if b else lv):
            v = t.load(root, path)
            if v is lv:
                continue
            if t.assume(v if b else neg(v)):
                return False
    return True


def flagged(p, q, flags, rounds=None):
    """q restricted by what p knows about flags the loop maintains (None: no such iteration)"""
    q = q.copy()
    for root, path, lv, old in flags:
        if rounds is not None and old is ZERO and tyof.get(lv, tyof.get(old)) != "bool" and p.entails(ge0(sub(ZERO, lv))) and grows(rounds, root, path, lv):
            if not (q.assume(eq0(lv)) and q.assume(eq0(q.load(root, path)))):
                return None      # a count that ended at zero was not raised
            continue
        if not is_bool(p, (root, path, lv, old)):
            continue
        b = decided(p, lv)
        if b is None or rounds is not None and not sticky(rounds, (root, path, lv, old), b):
            continue
        v = q.load(root, path)
        t = q.copy()
        if not t.assume(v if b else neg(v)):
            return None
        if decided(t, lv) is b or not t.copy().assume(neg(lv) if b else lv):
            q = t       # the flag only moves away from the value it ended with
    return q


def grows(rounds, root, path, lv):
    """no round makes the number smaller"""
    for q in rounds:
        v = q.load(root, path)
        if not (v is lv or v.op == "bor" and lv in v.a[:2] or q.entails(ge0(sub(v, lv)))):
            return False
    return True


def scans(ps, p):
    """Every loop or iterator method of path p that visited a whole sequence:
    [(event, content, [(iteration path with the flags p knows at the end, item)])]"""
    out = []
    for i, e in enumerate(p.ev):
        if e.kind == "next" and e.name == "done" and seq_of(e) is not None:
            lo = [x for x in p.ev[:i] if x.kind == "loop" and x.ctx == e.ctx]
            flags = [h for h in lo[-1].havoc if h[2].op == "lv" and len(h) == 4] if lo and e.x in (None, "sum", "fold", "count") else []
            its = []
            rs = iterations(ps, e)
            for q, x in rs:
                q2 = flagged(p, q, flags, [r for r, _ in rs])
                if q2 is not None and seq_of(x) is not None:
                    its.append((q2, elem(seq_of(x), x.vals[1])))
            out.append((e, seq_of(e), its))
        if e.kind == "loop":
            # while loop over an index that starts at 0 and goes up by 1
            qs = [q for q in ps if q.kind == "loop" and q.x["loop"] == e.x]
            for root, path, lv, old in e.havoc:
                if not isc(old, 0) or lv.op != "lv" or not qs:
                    continue
                if not all(isc(sub(q.load(root, path), lv), 1) for q in qs):
                    continue
                bound = {s.a[0] for f in p.facts for s in subterms(f) if s.op == "len" and any(x is lv for x in subterms(f))}
                cs = set()
                for q in qs:
                    for f in q.facts:
                        for s in subterms(f):
                            if s.op == "e" and s.a[1] is lv:
                                cs.add(s.a[0])
                for c in cs:
                    if p.entails(ge0(sub(lv, length(c)))):
                        its = []
                        for q in qs:
                            q2 = flagged(p, q, [h for h in e.havoc if h[2].op == "lv" and len(h) == 4], qs)
                            if q2 is not None:
                                its.append((q2, elem(c, lv)))
                        out.append((e, c, its))
    return out


def is_bool(p, h):
    return tyof.get(h[2]) == "bool" or tyof.get(h[3]) == "bool" or h[3] is TRUE or h[3] is FALSE or any(
        f is h[2] or f.op == "not" and f.a[0] is h[2] or f.op in ("eq0", "ne0") and f.a[0] is h[2] for f in p.facts)


def empty_reader(rd):
    """a reader that gives no byte"""
    if rd.op == "box":
        return empty_reader(rd.a[0])
    if rd.op == "a" and rd.a[0] == "array" and not rd.a[3] or length(rd) is ZERO or rd.op == "empty" or rd.op == "b" and not rd.a[0]:
        return True
    if cname(rd) in ("util::empty", "io::empty"):
        return True
    if cname(rd) in ("Read::take", "Cursor::new", "BufReader::new"):
        v = cvals(rd)
        return cname(rd) == "Read::take" and len(v) > 1 and isc(v[1], 0) or cname(rd) != "Read::take" and empty_reader(v[0])
    return False
