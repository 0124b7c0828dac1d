"""Counted loops, tables filled by them, and the atoms a header writer emits."""
from sa.terms import *
from sa import flow
from sa.flow import project, elem
from sa.prov import *
from checks.hgram import *


def base_of(t):
    """innermost iterator of a chain of adapters that keep number and order of the items, and how many items are left out in front"""
    skip = ZERO
    while t.op == "it" and t.a[0] in ("enumerate", "map", "deref", "peekable", "fuse", "inspect", "filter", "take", "filter_map"):
        t = t.a[1]
    return t


def items_of(p, ev):
    """number of items the iterator of a `next` event gives"""
    def go(t):
        if t.op != "it":
            return None
        k = t.a[0]
        if k == "range":
            return sub(t.a[2], t.a[1])
        if k == "seq":
            c = ev.vals[2]
            if c is not None and c.op != "c":
                return length(c)
            return length(p.load(t.a[1].a[1], t.a[1].a[2]) if t.a[1].op == "r" else t.a[1])
        if k == "vec":
            return length(t.a[1])
        if k in ("enumerate", "map", "deref", "peekable", "fuse", "inspect", "rev"):
            return go(t.a[1])
        if k == "take":
            n = go(t.a[1])
            if n is None:
                return None
            return t.a[2] if p.entails(le(t.a[2], n)) else n if p.entails(le(n, t.a[2])) else None
        if k == "skip":
            n = go(t.a[1])
            return None if n is None else sub(n, t.a[2]) if p.entails(le(t.a[2], n)) else None
        if k == "zip":
            n, m = [length(x.a[1]) if x.op == "it" and x.a[0] == "seq" and x.a[1].op != "r" else go(x) if x.op == "it" and x.a[0] != "seq" else None for x in t.a[1:3]]
            if n is None or m is None:
                return None
            return n if n is m or p.entails(le(n, m)) else m if p.entails(le(m, n)) else None
        return None
    t = ev.vals[3] if len(ev.vals) > 3 else ev.vals[0]
    n = go(t)
    return n if n is not None else go(ev.vals[0])


def filters(t):
    while t.op == "it":
        if t.a[0] in ("filter", "filter_map"):
            return True
        t = t.a[1] if t.a[0] not in ("range", "rangefrom", "seq", "vec") else ZERO
    return False


def item_event(q, start, le):
    for e in q.ev[start:]:
        if e.kind == "next" and e.name == "item" and (le.x[0] == "it" and "%s@%d" % (e.ctx, e.bb) == le.x[1] or le.x[0] == e.ctx):
            return e
        if e.kind == "loop":
            return None
    return None


def rounds(ps, p, le, H, allow_filter=False):
    """The loop of event le, when it is known on p to have run for each of 0..H in order and to its end:
    [(path of one round, number of the round, index of its first event)], else None. A round left out by a filter is a path of its own."""
    its = []
    for q in ps:
        if q.kind == "loop" and q.x["loop"] == le.x:
            i = max([i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == le.x] or [-1])
            if i >= 0:
                its.append((q, i + 1))
    if not its:
        return None
    H = uncast(H)
    its = [(q, s) for q, s in its if compatible(p, q)] or its
    evs = [item_event(q, s, le) for q, s in its]
    i0 = [i for i, e in enumerate(p.ev) if e is le] or [i for i, e in enumerate(p.ev) if e.kind == "loop" and e.x == le.x]
    if all(e is not None for e in evs):
        site = (evs[0].ctx, evs[0].bb)
        if any((e.ctx, e.bb) != site for e in evs):
            return None
        done = [e for e in p.ev[i0[-1]:] if e.kind == "next" and e.name == "done" and (e.ctx, e.bb) == site]
        if not done:
            return None
        d = done[0]
        if filters(d.vals[0]) and not allow_filter:
            pass
        t = d.vals[0]
        n = count_unfiltered(p, d)
        if n is None or not (n is H or p.entails(eqi(uncast(n), H))):
            return None
        b = base_of(t)
        lo = b.a[1] if b.op == "it" and b.a[0] == "range" else ZERO
        if reversed_(t):
            return None
        # rounds of the loop as it was entered on p
        own = [(x, e) for x, e in zip(its, evs) if e.vals[0] is t] or list(zip(its, evs))
        return [(q, sub(e.vals[1], lo), s) for (q, s), e in own]
    if any(e is not None for e in evs):
        return None
    return counted(p, its, le, H)


def counted(p, its, le, H):
    """rounds of a loop that keeps count itself: a number that goes up by one to H more than its start, or down by one from H to 0,
    or a vector that gets one element in each round"""
    for root, path, lv, *rest in le.havoc:
        old = rest[0] if rest else None
        if old is None or lv.op != "lv":
            continue
        for here, was, get in ((lv, old, lambda q: q.load(root, path)), (length(lv), length(old), lambda q: length(q.load(root, path)))):
            if here is not lv and not all(grown(q.load(root, path), lv) for q, s in its):
                continue
            d = [sub(get(q), here) for q, s in its]
            if all(isc(x, 1) for x in d):
                top = add(was, H)
                if all(q.entails(lt(here, top)) for q, s in its) and p.entails(ge0(sub(here, top))):
                    return [(q, sub(here, was), s) for q, s in its]
            elif here is lv and all(isc(x, -1) for x in d):
                if (was is H or uncast(was) is H or p.entails(eqi(uncast(was), H))) and all(q.entails(ge0(sub(here, ONE))) for q, s in its) and p.entails(ge0(sub(ZERO, here))):
                    return [(q, sub(H, here), s) for q, s in its]
    return None


def grown(v, lv):
    """v: the vector lv with elements pushed to its end"""
    n = 0
    while v.op == "push":
        v = v.a[0]
        n += 1
    return v is lv and n > 0


def reversed_(t):
    while t.op == "it":
        if t.a[0] in ("rev", "skip", "step_by", "chain", "skip_while", "take_while", "zip"):
            return t.a[0] != "zip"
        t = t.a[1] if t.a[0] not in ("range", "rangefrom", "seq", "vec") else ZERO
    return False


def count_unfiltered(p, ev):
    def strip_(t):
        if t.op == "it" and t.a[0] in ("filter", "filter_map"):
            return strip_(t.a[1])
        if t.op == "it" and t.a[0] in ("enumerate", "map", "deref", "peekable", "fuse", "inspect", "rev"):
            return mk("it", t.a[0], strip_(t.a[1]), *t.a[2:])
        return t

    class V:
        vals = tuple(strip_(v) if v is not None and hasattr(v, "op") and v.op == "it" else v for v in ev.vals)
    return items_of(p, V)


def chain(p, root, path, start=0):
    """How the content of a cell came about since the beginning of the current round: (what it was then, [segments]):
    ("one", index or None, value), ("loop", loop event)"""
    return chain_of(p, p.load(root, path))


def at_start(q, le, root, path):
    """content of a cell when the round q of loop le begins"""
    for h in le.havoc:
        if h[0] is root and path[:len(h[1])] == h[1]:
            return project(h[2], path[len(h[1]):])
    return q.load(root, path)


def projection(v):
    """a part of a loop-carried value: (that value, path of the part)"""
    steps = []
    while v.op in ("f", "e", "v"):
        steps.append(("f", v.a[1]) if v.op == "f" else ("i", v.a[1]) if v.op == "e" else ("v", v.a[1]))
        v = v.a[0]
    return v, tuple(reversed(steps))


def chain_of(p, v):
    own = p.x.get("loop") if p.kind == "loop" else None
    segs = []
    while True:
        if v.op == "ue":
            segs.append(("one", v.a[1], v.a[2]))
            v = v.a[0]
            continue
        if v.op == "push":
            segs.append(("one", None, v.a[1]))
            v = v.a[0]
            continue
        if v.op == "out" and touchless(v):
            v = v.a[1].a[2][v.a[0]] if isinstance(v.a[0], int) else v
            break
        b, rest = projection(v)
        if b.op not in ("lv", "lve"):
            break
        ctx, bb, r, pa = lvctx(b)
        le = [e for e in p.ev if e.kind == "loop" and e.x in ((ctx, bb), ("it", ctx))]
        h = [h for h in le[-1].havoc if (h[0], h[1]) == (r, pa)] if le else []
        if not h or le[-1].x == own or len(h[0]) < 4:
            break
        segs.append(("loop", le[-1], (r, pa + rest)))
        v = project(h[0][3], rest) if rest else h[0][3]
    segs.reverse()
    return v, segs


def touchless(v):
    return False


def fills(ps, p, v, H, fresh=False):
    """(error, [(round, number, first event, value stored or None)]) for a table with content v, which one loop over 0..H wrote in order"""
    base, segs = chain_of(p, v)
    if len(segs) != 1 or segs[0][0] != "loop":
        return "not filled by one loop over the whole table", []
    its = rounds(ps, p, segs[0][1], H)
    if its is None:
        return "filled by a loop that is not known to run over 0..%s" % pp(H)[:60], []
    out = []
    root, path = segs[0][2]
    for q, k, s in its:
        b, sg = chain(q, root, path)
        if projection(b)[0].op not in ("lv", "lve") or len(sg) > 1 or sg and sg[0][0] != "one":
            return "changed otherwise than by one record per round", []
        if not sg:
            out.append((q, k, s, None))
            continue
        _, idx, x = sg[0]
        if idx is None and not fresh and not (length(base) is ZERO or p.entails(eq0(length(base)))):
            return "appended to a table that is not empty", []
        if idx is not None and not (idx is k or q.entails(eqi(idx, k))):
            return "record %s stored at index %s" % (pp(k), pp(idx)), []
        if idx is None and any(not chain(r, root, path)[1] for r, _, _ in its):
            return "appended in some rounds only", []
        out.append((q, k, s, x))
    return None, out


def place(ps, p, segs, pos):
    """Position after the segments when their records are at consecutive positions from pos on, else None"""
    for s in segs:
        if s[0] == "one":
            if s[1] is not None and not (s[1] is pos or p.entails(eqi(s[1], pos))):
                return None
            pos = add(pos, ONE)
            continue
        le, (root, path) = s[1], s[2]
        its = [q for q in ps if q.kind == "loop" and q.x["loop"] == le.x]
        subs = [(q, chain(q, root, path)[1]) for q in its]
        if all(not sg for _, sg in subs):
            continue
        nxt = None
        if all(x[0] == "one" and x[1] is None for _, sg in subs for x in sg):
            nxt = mk("sum", pos)            # appended: no position to get wrong
        for h in le.havoc:
            if nxt is not None:
                break
            if len(h) < 4 or h[2].op != "lv" or h[3] is None or not (h[3] is pos or p.entails(eqi(h[3], pos))):
                continue
            good = True
            for q, sg in subs:
                e = place(ps, q, sg, h[2])
                if e is None or not (e is q.load(h[0], h[1]) or q.entails(eqi(e, q.load(h[0], h[1])))):
                    good = False
                    break
            if good:
                nxt = h[2]
        if nxt is None:
            # the number of the round is the position
            ok_ = True
            for q, sg in subs:
                i = max(i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == le.x)
                ev = item_event(q, i + 1, le)
                b = base_of(ev.vals[0]) if ev is not None else None
                lo = b.a[1] if b is not None and b.op == "it" and b.a[0] == "range" else ZERO
                if ev is None or len(sg) != 1 or sg[0][0] != "one" or not q.entails(eqi(sg[0][1], add(pos, sub(ev.vals[1], lo)))):
                    ok_ = False
            if not ok_:
                return None
            d = [e for e in p.ev if e.kind == "next" and e.name == "done" and e.ctx == le.x[0]]
            nxt = mk("sum", pos)
        pos = nxt
    return pos


# ---- writers

def atoms(p, root, start=0, le32="byteorder::LittleEndian"):
    """What is written to the stream at root, in order: (kind, value, token)"""
    out = []
    for t in tokens(p, root, start):
        if t.kind == "loop":
            out.append(("loop", None, t))
        elif t.name == "write_u8":
            out.append(("byte", t.vals[1], t))
        elif t.name in ("write_u32", "write_u64", "write_u16") and "WriteBytesExt" in t.ev.name:
            if le32 in (t.ev.callee or {}).get("args", ()):
                out.append(("le%s" % t.name[7:], t.vals[1], t))
            else:
                out.append(("?", t.vals[1], t))
        elif t.name == "write_u64":
            out.append(("num", t.vals[1], t))
        elif t.name == "write_bit_set":
            out.append(("bits", t.vals[1], t))
        elif t.name in ("write_all", "write"):
            v = t.vals[1]
            if v.op == "bytes" and v.a[0] > 1:
                out.append(("le%d" % (8 * v.a[0]) if v.a[1] == "le" else "?", v.a[2], t))
            elif v.op == "a" and v.a[0] == "array" and v.a[3]:
                out += [("byte", x, t) for x in v.a[3]]
            elif v.op == "b":
                out += [("byte", C(x), t) for x in v.a[0]]
            else:
                out.append(("raw", v, t))
        else:
            out.append((t.name, None, t))
    return out


def value_atoms(p, v, tok=None):
    """the same for bytes appended to a buffer, from its content"""
    out = []
    for x in pieces(p, v):
        if x[0] == "lv":
            continue
        y = x[1]
        if x[0] == "push":
            out.append(("byte", y, tok))
        elif x[0] == "cat" and y.op == "bytes":
            out.append(("byte" if y.a[0] == 1 else "le%d" % (8 * y.a[0]) if y.a[1] == "le" else "?", y.a[2], tok))
        elif x[0] in ("cat", "extend") and y.op == "a" and y.a[0] == "array" and y.a[3]:
            out += [("byte", z, tok) for z in y.a[3]]
        elif x[0] in ("cat", "extend"):
            out.append(("raw", y, tok))
        else:
            out.append(("?", y, tok))
    return out


class Cur:
    """Walks over the atoms of one path (or round) and reports what does not fit"""

    def __init__(self, rule, key, ps, p, ats, where):
        self.rule, self.key, self.ps, self.p, self.ats, self.where, self.i, self.bad_ = rule, key, ps, p, ats, where, 0, False

    def fail(self, what):
        if not self.bad_:
            at = self.ats[self.i] if self.i < len(self.ats) else None
            got = "%s %s" % (at[0], pp(at[1])[:80] if at[1] is not None else "") if at else "the end"
            self.rule.bad(self.key, at[2].where if at else self.where, "%s expected here, the writer emits %s" % (what, got))
        self.bad_ = True
        return None

    def peek(self):
        while self.i < len(self.ats) and self.ats[self.i][0] == "loop" and not self.live(self.ats[self.i][2]):
            self.i += 1
        return self.ats[self.i] if self.i < len(self.ats) else (None, None, None)

    def live(self, t):
        return bool([1 for q in self.ps if q.kind == "loop" and q.x["loop"] == t.ev.x])

    def eq(self, a, b):
        a, b = uncast(a), uncast(b)
        return a is b or self.p.entails(eqi(a, b))

    def byte(self, c, what):
        k, v, t = self.peek()
        if k != "byte" or not self.eq(v, C(c) if isinstance(c, int) else c):
            return self.fail("byte %s (%s)" % (c if isinstance(c, int) else pp(c), what))
        self.i += 1
        return t

    def num(self, v, what):
        k, x, t = self.peek()
        if k != "num" or not self.eq(x, v):
            return self.fail("number %s (%s)" % (pp(v)[:60], what))
        self.i += 1
        return t

    def u32(self, v, what):
        k, x, t = self.peek()
        if k not in ("le32", "le") or not self.eq(x, v):
            return self.fail("32 bits %s (%s)" % (pp(v)[:60], what))
        self.i += 1
        return t

    def call(self, name, what=None):
        k, x, t = self.peek()
        if k != name:
            return self.fail(what or name)
        self.i += 1
        return t

    def raw(self, what):
        k, x, t = self.peek()
        if k != "raw":
            return self.fail(what)
        self.i += 1
        return t

    def rep(self, H, what, body, opt=None):
        """a loop over 0..H; body(cur of one round, number of the round)"""
        k, x, t = self.peek()
        if k != "loop":
            if isc(H, 0) or self.p.entails(eq0(uncast(H))) or opt and opt(self.p):
                return True
            return self.fail("loop over %s (%s)" % (pp(H)[:60], what))
        its = rounds(self.ps, self.p, t.ev, H)
        if its is None:
            return self.fail("a loop over all of 0..%s in order (%s)" % (pp(H)[:60], what))
        self.i += 1
        root = self.root
        for q, n, s in its:
            c = Cur(self.rule, self.key, self.ps, q, atoms(q, root, s), t.where)
            c.root, c.start = root, s
            body(c, n)
            if not c.bad_ and c.peek()[0] is not None:
                c.fail("the end of the record of %s" % what)
            self.rule.ok("rounds", "%s %s" % (self.key, what))
        return True

    def end(self):
        if not self.bad_ and self.peek()[0] is not None:
            self.fail("the end of the section")


def cursor(rule, key, ps, p, root, where, start=0):
    c = Cur(rule, key, ps, p, atoms(p, root, start), where)
    c.root, c.start = root, start
    return c
