"""Short reads and short writes never lose or invent data."""
from sa.terms import *
from sa import flow
from sa.prov import *

TECHNIQUE = "def-use and guard dataflow of transfer counts (abstract interpretation of MIR)"
RULE = """In every function of both crates, on every path through it, for every call that may transfer fewer bytes than it
was asked for (Read::read, Write::write, and library functions that hand such a count on): where it succeeds with a
count n, n is part of the function's result, or bounds or advances something afterwards (an argument of a later call, a
location that outlives the function or is carried round a loop), or nothing was asked for (empty buffer) or transferred
(n = 0), or n is known to be everything that was asked for. No decision separates a short transfer from a full one: n is
compared with zero or combined with accumulated positions, never with the length asked for or another constant, and an error is never returned because accumulated data is still
too little while more may come. What
was read is afterwards handed on only up to n bytes. Everything else is moved by all-or-error operations (read_exact,
write_all, copy, read_to_end), whose contract the standard library gives."""
NOTE = RULE + """ That what the readers and writers themselves hand out keeps to the Read/Write contract is C03 and C04;
an ErrorKind::Interrupted from a source is passed to the caller, as the contract of Read allows."""
LEVEL = "other"
BASE = ("std::io::read::Read::read", "std::io::write::Write::write", "std::io::read::Read::read_vectored", "std::io::write::Write::write_vectored", "std::io::read::Read::read_buf")
LOOP = "std::io::read::Read::read", "std::io::write::Write::write"


def check(rule, P):
    work = {k for k, b in P.bodies.items() if "#" not in k}
    forward, paths = set(), {}
    while True:
        more = set()
        for k in sorted(work):
            if k in forward and k in paths:
                continue
            b = P.bodies[k]
            if not any(transfer(c, forward) for _, c in P.call_sites(b)):
                continue
            if k not in paths:
                e = flow.Engine(P, inline_filter=lambda x: leaf(P, x), max_paths=4000)
                paths[k] = (e, e.run(k))
            if "Result<usize" in b.locals[0][0] and any(hands_on(p, forward) for p in paths[k][1]):
                more.add(k)
        if more <= forward:
            break
        forward |= more
    for k in sorted(paths):
        e, ps = paths[k]
        rule.ran(e, ps, k)
        sites = set()
        for p in ps:
            if p.kind == "panic":
                continue
            for i, ev in enumerate(p.ev):
                if ev.kind == "call" and isinstance(ev.callee, dict) and transfer(ev.callee, forward) and p.variant_of(ev.ret) == "Ok":
                    sites.add((ev.name, ev.bb))
                    judge(rule, k, p, i, ev)
        rule.ok("function", "%s: %d partial transfers on %d paths" % (k, len(sites), len(ps)))
        for s in sites:
            rule.ok("transfer", "%s: %s" % (k, s[0]))
    rule.floor("function", 17)
    rule.floor("transfer", 16)


def transfer(c, forward):
    if c.get("fn") in BASE:
        return True
    return c.get("res") in forward or c.get("fn") in forward


def hands_on(p, forward):
    if p.kind != "return" or p.variant_of(p.ret) != "Ok":
        return p.kind == "return" and any(ev.kind == "call" and p.ret is ev.ret and isinstance(ev.callee, dict) and transfer(ev.callee, forward) for ev in p.ev)
    s = set(lin(field(p.ret if p.ret.op == "a" else vfield(p.ret, "Ok"), "0"))[1])
    return any(ev.kind == "call" and isinstance(ev.callee, dict) and transfer(ev.callee, forward) and count(ev) in s for ev in p.ev)


def count(ev):
    return field(vfield(ev.ret, "Ok"), "0")


def asked(p, ev):
    v = ev.vals[1] if ev.callee.get("fn") in BASE and len(ev.vals) > 1 else None
    return None if v is None else length(v)


def judge(rule, k, p, i, ev):
    n, L = count(ev), asked(p, ev)
    key = "%s:%s" % (k, ev.name)
    if p.entails(le(n, ZERO)) or L is not None and p.entails(le(L, ZERO)):
        return
    if not used(p, i, ev, n) and not (L is not None and p.entails(le(L, n))):
        rule.bad(key, ev.where, "%s may have transferred fewer bytes than asked for, and the count is ignored (the path %s)" % (
            ev.name, "goes on" if p.kind == "loop" else "returns %s" % pp(p.ret)[:80]))
    if L is not None and not isc(L) and not p.entails(le(L, n)):
        for root, v in p.store.items():
            if root.op == "D" and any(moved(x, L, n) for x in subterms(v)):
                rule.bad(key, ev.where, "a position or counter moves by the number of bytes asked for, %s, and not by the number transferred" % pp(L)[:60])
                break
    for f in p.facts:
        if f.op in ("ge0", "eq0", "ne0") and n in atoms(f) and separates(f, n, L):
            rule.bad(key, ev.where, "a decision here separates a short transfer from a full one: %s" % pp(f)[:160])
    if p.kind == "return" and p.variant_of(p.ret) == "Err" and not any(q.kind == "call" and isinstance(q.callee, dict) and q.ret is not None and p.variant_of(q.ret) == "Err" for q in p.ev[i + 1:]):
        for f in p.facts:
            if f.op == "ge0" and lin(f.a[0])[1].get(n, 0) < 0 and lin(f.a[0])[0] < 1 << 31:
                rule.bad(key, ev.where, "a transfer shorter than what was asked for ends in an error: %s" % pp(f)[:160])
    for q in p.ev[i + 1:]:
        if q.kind != "call" or ev.callee.get("fn") != BASE[0] or q.name == ev.name:
            continue
        for v in q.vals or ():
            hi = None
            if v.op in ("out", "oute") and from_call(v, ev):
                hi = length(v)
            elif v.op == "sl" and v.a[0].op in ("out", "oute") and from_call(v.a[0], ev):
                hi = v.a[2]
            if hi is not None and not p.entails(le(hi, n)):
                rule.bad(key, q.where, "%s is given more of the buffer than the %s before it has read" % (q.name, ev.name))


def moved(x, L, n):
    """x: another quantity and the whole of L"""
    if x.op != "lin":
        return False
    xs, ls = lin(x)[1], lin(L)[1]
    return n not in xs and len(xs) > len(ls) and (all(xs.get(t) == c for t, c in ls.items()) or all(xs.get(t) == -c for t, c in ls.items()))


def from_call(v, ev):
    return any(x is ev.ret for x in v.a)


def atoms(f):
    return set(lin(f.a[0])[1])


def separates(f, n, L):
    k, ts = lin(f.a[0])
    c = ts.pop(n)
    if abs(c) != 1:
        return True
    rest = ts
    if rest:
        return False
    if f.op in ("eq0", "ne0"):
        return k != 0
    if L is None and c == -1:
        return False        # n <= k: the check of a slice bound; the other side of a decision is seen on another path
    return not (c == 1 and k in (0, -1) or c == -1 and k == 0)


def used(p, i, ev, n):
    if p.kind == "return" and p.ret is not None and (n in set(subterms(p.ret)) or p.ret is ev.ret):
        return True
    for q in p.ev[i + 1:]:
        if q.kind == "loop" and any(len(h) > 3 and n in set(subterms(h[3])) for h in q.havoc):
            return True         # what the rounds do with it is judged there
        if q.kind != "call" or q.name.startswith(("overflow",)):
            continue
        if any(n in set(subterms(a)) for a in tuple(q.vals or ()) + tuple(q.args or ())):
            return True
    for root, v in p.store.items():
        if root.op != "D" and (p.kind == "return" or v is n or v.op == "pure" and v.a[0] in ("ovf", "discr")):
            continue
        if n in set(subterms(v)):
            return True
    return False


def leaf(P, k):
    """a function of a few blocks that calls nothing"""
    b = P.bodies.get(k)
    return b is not None and len(b.blocks) <= 8 and not P.call_sites(b)
