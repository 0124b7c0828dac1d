"""Evaluation of an extracted transition system.

A function's path summaries (one transition per path through it, one per way round each of its loops) form a transition
system over its variables. `System.run` follows it for given values of the inputs: at each point the transitions whose
conditions are not refuted are kept, so that the outcome is the one every matching path has. Nothing of the program is run.
"""
from .terms import *
from .evalt import value, holds, element, DISCR
from . import flow


class Stuck(Exception):
    pass


class Node:
    __slots__ = ("facts", "evs", "ends")

    def __init__(self):
        self.facts, self.evs, self.ends = {}, {}, []


class System:
    def __init__(self, P, key, opaque=(), rule=None, **kw):
        self.P, self.key = P, key
        if not DISCR:
            DISCR.update({k: {v["name"]: v["discr"] for v in a["variants"]} for k, a in P.adts.items() if a["kind"] == "enum"})
        e = flow.Engine(P, opaque=set(opaque), **kw)
        self.paths = [p for p in e.run(key) if p.kind in ("return", "loop", "panic", "abort")]
        if rule is not None:
            rule.ran(e, self.paths, key)
        self.steps = 0
        self.root = Node()
        self.parts = {}      # loop variable -> terms for what lies inside it
        seen = {}
        for p in self.paths:
            for t in list(p.facts) + [v for x in p.ev for v in x.vals or ()] + [v for r, v in p.store.items() if r.op != "L"] + ([p.ret] if p.ret is not None else []) + [
                    v for x in p.ev if x.kind == "loop" for h in x.havoc for v in h[2:4]]:
                subterms(t, seen)
        for s in seen:
            if s.op in ("f", "len", "e", "d"):
                b = s.a[0]
                while b.op in ("f", "v", "e", "d"):
                    b = b.a[0]
                if b.op == "lv":
                    self.parts.setdefault(b, set()).add(s)
        for p in self.paths:
            n, k = self.root, 0
            for x in p.ev:
                if not (x.kind in ("loop", "next") or x.kind == "call" and x.ret is not None and x.ret.op != "pure"):
                    continue
                n, k = self.grow(n, p, k, x.nf), x.nf
                n = n.evs.setdefault(ident(x), (x, p, Node()))[2]
            self.grow(n, p, k, len(p.facts)).ends.append(p)

    def grow(self, n, p, a, b):
        for f in p.facts[a:b]:
            n = n.facts.setdefault(f, Node())
        return n

    def param(self, n):
        return self.P.bodies[self.key].locals[1 + n][1]

    def advance(self, nodes, env):
        """[(node, every condition on the way is known to hold)] reached without a further event"""
        out, todo = [], list(nodes)
        while todo:
            n, sure = todo.pop()
            out.append((n, sure))
            for f, m in n.facts.items():
                v = holds(f, env)
                if v is not False:
                    todo.append((m, sure and (v is True or f.op not in ("is", "not"))))
        return out

    def unknown(self, nodes, env):
        fs = sorted({pp(f)[:120] for n, _ in nodes for f in n.facts if holds(f, env) is None and f.op not in ("is", "not")})
        return ": " + "; ".join(fs[:2]) if fs else ""

    def run(self, env, oracle, limit=20000):
        """(path, env at its end); oracle(event, env) -> value of a call that is not followed"""
        env = dict(env)
        nodes = [(self.root, True)]
        snaps, inside = {}, []
        while True:
            limit -= 1
            self.steps += 1
            if limit < 0:
                raise Stuck("no end")
            nodes = self.advance(nodes, env)
            end = [p for n, sure in nodes if sure for p in n.ends]
            end = [p for p in end if p.kind not in ("panic", "abort") or all(holds(f, env) for f in p.facts)]
            end = end[:1] + [p for p in end[1:] if not alike(p, end[0])]
            evs = {}
            for n, sure in nodes:
                for i, (e, p, m) in n.evs.items():
                    evs.setdefault(i, (e, p, []))[2].append((m, sure))
            if end and (evs or len(end) > 1):
                alive = {i: x for i, x in evs.items() if any(s for _, s in x[2])}
                if alive or len(end) > 1:
                    raise Stuck("undecided condition" + self.unknown(nodes, env))
            if end:
                p = end[0]
                if p.kind != "loop":
                    return p, env
                lid = p.x["loop"]
                base, le, start, k = snaps[lid]
                new = dict(base)
                for root, path, lv, old in le.havoc:
                    bindv(new, lv, p.load(root, path), env, self.parts.get(lv, ()), p)
                env = new
                snaps[lid] = (base, le, start, k + 1)
                inside = inside[:inside.index(lid) + 1]
                nodes = start
                continue
            if not evs:
                raise Stuck("no path for these values")
            if len({i[:3] for i in evs}) > 1:
                evs = {i: x for i, x in evs.items() if any(s for _, s in x[2])}
                if len({i[:3] for i in evs}) != 1:
                    raise Stuck("undecided condition" + self.unknown(nodes, env))
            e, p, nodes = next(iter(evs.values()))
            if e.kind == "loop":
                for root, path, lv, old in e.havoc:
                    bindv(env, lv, old, dict(env), self.parts.get(lv, ()), p)
                snaps[e.x] = (dict(env), e, nodes, 0)
                inside = [x for x in inside if x != e.x] + [e.x]
            elif e.kind == "next":
                k = snaps[inside[-1]][3] if inside else 0
                n = rounds(p, e.vals[0], env)
                if n is None and len(e.vals) > 3:
                    n = rounds(p, e.vals[3], env)
                if n is None:
                    raise Stuck("unknown number of rounds")
                want = "item" if k < n else "done"
                nodes = [x for i, t in evs.items() if i[3] == want for x in t[2]]
                if k < n:
                    env[e.vals[1]] = k
                elif not nodes:
                    raise Stuck("no path for the end of an iteration")
            else:
                v = oracle(e, env)
                if v is not None:
                    env[e.ret] = v
                    env[mk("variant", e.ret)] = "Ok"
                    env[field(vfield(e.ret, "Ok"), "0")] = v


def went_well(p, env):
    """the path ends in success, its own or that of the call whose result it returns"""
    return (p.variant_of(p.ret) or env.get(mk("variant", p.ret))) == "Ok"


def rounds(p, t, env):
    """number of items of an iterator"""
    if t.op == "r":
        t = p.pointee(t)
    k = t.a[0] if t.op == "it" else None
    if k in ("enumerate", "rev", "map", "deref", "peekable", "fuse", "inspect"):
        return rounds(p, t.a[1], env)
    if k == "take":
        a, b = rounds(p, t.a[1], env), value(t.a[2], env)
        return b if a is None and t.a[1].op == "it" and t.a[1].a[0] in ("rangefrom", "repeat", "cycle") else None if a is None or b is None else min(a, b)
    if k == "zip":
        a, b = rounds(p, t.a[1], env), rounds(p, t.a[2], env)
        if a is not None and b is not None:
            return min(a, b)
    if k == "seq" and t.a[1].op != "r":
        n = value(length(t.a[1]), env)
        if n is not None:
            return n
    if k == "step_by":
        a, b = rounds(p, t.a[1], env), value(t.a[2], env)
        return None if a is None or not b else -(-a // b)
    if k == "skip":
        a, b = rounds(p, t.a[1], env), value(t.a[2], env)
        return None if a is None or b is None else max(a - b, 0)
    n = flow.it_count(p, t)
    n = None if n is None else value(n, env)
    return None if n is None else max(n, 0)


def bindv(new, lv, t, env, parts=(), p=None):
    """what a loop variable stands for is t, evaluated in env"""
    v = value(t, env)
    new.pop(lv, None)
    if v is not None:
        new[lv] = v
    for s in parts:
        u = inside(s, lv, t, p)
        v = value(u, env)
        new.pop(s, None)
        if v is not None:
            new[s] = v
        for i in range(16 if s.op == "d" else 0):       # the first elements of what a reference points to
            v = element(u, i, env)
            new.pop(elem(s, C(i)), None)
            if v is not None:
                new[elem(s, C(i))] = v
    if lv.op == "lve":
        b = t
        while b.op in ("ue", "usl", "sl"):
            b = b.a[0]
        some = any(k.op == "e" and k.a[0] is b for k in env) or b is not t or t.op in ("a", "rep")
        for i in range(16 if some else 0):
            x = elem(lv, C(i))
            v = element(t, i, env)
            new.pop(x, None)
            if v is not None:
                new[x] = v


def inside(s, lv, t, p=None):
    """the part s of lv, taken of t"""
    if s is lv:
        return t
    if s.op == "f":
        return field(inside(s.a[0], lv, t, p), s.a[1])
    if s.op == "v":
        return vfield(inside(s.a[0], lv, t, p), s.a[1])
    if s.op == "len":
        return length(inside(s.a[0], lv, t, p))
    if s.op == "e":
        return elem(inside(s.a[0], lv, t, p), s.a[1])
    if s.op == "d":
        b = inside(s.a[0], lv, t, p)
        return p.load(b.a[1], b.a[2]) if b.op == "r" and p is not None else mk("d", b)
    return s


def alike(p, q):
    """two paths that differ only in conditions, not in what they do"""
    return p.kind == q.kind and p.ret is q.ret and p.x.get("loop") == q.x.get("loop") and all(
        p.load(r, ()) is q.load(r, ()) for r in {r for r in list(p.store) + list(q.store) if r.op != "L"})


def ident(e):
    """events with the same first three parts are the same step of the program"""
    if e.kind == "call":
        return ("call", e.name, e.ret)
    if e.kind == "loop":
        return ("loop", e.x, "")
    return ("next", e.ctx, e.bb, e.name)


def place(t, env):
    """(root, fields and index values) of the place a reference points to"""
    if t.op != "r":
        return None
    return (rootname(t.a[1]),) + path_of(t.a[2], env)


def rootname(r):
    if r.op == "D" and r.a[0].op == "p":
        return r.a[0].a[0]
    return pp(r)


def path_of(path, env):
    out = []
    for p in path:
        if p[0] == "f":
            out.append(p[1])
        elif p[0] == "i":
            out.append(value(p[1], env))
        elif p[0] == "sl":
            out.append((value(p[1], env), value(p[2], env)))
    return tuple(out)
