"""Fields a header reader takes from, or a header writer puts into, the byte stream, in order, on every path."""
from sa.terms import *
from sa import flow
from sa.prov import *

PRIMS = ("read_u8", "read_u64", "read_usize", "read_u32", "read_u64le", "read_bits", "read_all_or_bits")
HANDLERS = ("read_archive_properties", "read_streams_info", "read_files_info", "read_pack_info", "read_unpack_info",
            "read_sub_streams_info", "read_folder", "read_header", "read_encoded_header")
PLAIN = ("calculate_stream_map", "find_bind_pair_for_in_stream", "is_acyclic", "get_unpack_size", "packed_stream", "bad_password")


class Tok:
    """One step of a path: kind `call` (name, values, ret), `loop` (the header is used inside)"""

    def __init__(self, kind, name, ev, i):
        self.kind, self.name, self.ev, self.i = kind, name, ev, i
        self.vals = ev.vals if kind == "call" else ()
        self.ret = ev.ret if kind == "call" else None
        self.where = ev.where

    @property
    def value(self):
        """what the read gives when it succeeds"""
        return field(vfield(self.ret, "Ok"), "0")

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(pp(v)[:30] for v in self.vals[1:])) if self.kind == "call" else "loop@%s" % self.ev.bb


def find(P, name, cls="sevenz_rust"):
    return [k for k in P.bodies if k.split("::")[-1] == name and cls in k and "#" not in k and "{" not in k]


def one(rule, P, name, cls="sevenz_rust"):
    ks = find(P, name, cls)
    if len(ks) != 1:
        rule.bad("missing:" + name, "-", "function %s not found (or ambiguous): %s" % (name, ks))
        return None
    return ks[0]


def opaque(P, but):
    return {k for n in PRIMS + HANDLERS + PLAIN for k in find(P, n) if k != but}


def run(rule, P, key, extra=()):
    eng = flow.Engine(P, opaque=opaque(P, key) | set(extra))
    ps = eng.run(key)
    rule.ran(eng, ps)
    return ps


def header_root(P, key, local=1):
    return mk("D", mk("p", P.bodies[key].locals[local][1]))


def touches(a, root):
    """the argument is a reference to the stream (or to something that holds one)"""
    if a.op == "p":
        return mk("D", a) is root
    if a.op == "r":
        return a.a[1] is root
    if a.op == "a":
        return any(touches(x, root) for x in a.a[3])
    return False


def tokens(p, root, start=0):
    out = []
    for i, e in enumerate(p.ev):
        if i < start:
            continue
        if e.kind == "call" and any(touches(a, root) for a in e.args or ()):
            out.append(Tok("call", e.name.split("::")[-1], e, i))
        elif e.kind == "loop" and any(h[0] is root for h in e.havoc):
            out.append(Tok("loop", "loop", e, i))
    return out


def oks(ps):
    return [p for p in ps if p.kind == "return" and p.variant_of(p.ret) != "Err"]


def body_of(ps, tok):
    """[(path of one iteration, index of its first event)] of the loop of a token"""
    out = []
    for q in ps:
        if q.kind == "loop" and q.x["loop"] == tok.ev.x:
            i = max(i for i, e in enumerate(q.ev) if e.kind == "loop" and e.x == tok.ev.x)
            out.append((q, i + 1))
    return out


def const_of(p, t, consts):
    for c in consts:
        if p.entails(eqi(t, C(c))):
            return c
    return None


def compatible(p, q):
    """q (a path through a loop) can belong to the run p tells of: what both know does not exclude each other"""
    c = p.copy()
    own = q.x.get("loop") if q.kind == "loop" else None
    return all(c.assume(f) for f in q.facts if f not in c.fset and not (own and of_round(f, own)))


def of_round(t, lid):
    """says something of what the loop itself changes: true in one round, not after the loop"""
    return any(x.op in ("lv", "lve") and (lvctx(x)[:2] == lid or lid[0] == "it" and lvctx(x)[0] == lid[1]) for x in subterms(t))


def live(ps, p, root, tok):
    """the loop of tok may read something on path p"""
    return any(tokens(q, root, i) and compatible(p, q) for q, i in body_of(ps, tok))
