"""The writer's compression sections: create_writer -> data -> end-of-stream signal -> sizes and checksums."""
from sa.terms import *
from sa import flow
from sa.prov import *

CREATE = "SevenZWriter::create_writer"
W = "sevenz_rust::writer::SevenZWriter::<W>::"
SITES = ("push_archive_entry", "push_archive_entries", "write_encoded_header")
SELF = mk("D", mk("p", "self"))


def run(P, rule, fn):
    key = W + fn
    if key not in P.bodies:
        return None, None
    op = {CREATE, "SevenZWriter::write_header", "PackInfo::write_to", "UnpackInfo::write_to", "UnpackInfo::write_substreams",
          "<SeqReader as Read>::read"}
    for k in P.bodies:
        if "SeqReader<" in k and k.endswith("::read"):
            op.add(k)
    e = flow.Engine(P, opaque=op)
    ps = e.run(key)
    rule.ran(e, ps, key)
    return key, ps


class Section:
    """What one path does with the encoder chain it created."""

    def __init__(self, p):
        self.p = p
        self.cw = [e for e in p.ev if e.kind == "call" and e.name == CREATE]
        self.plain = self.packed = self.pcell = self.kcell = self.ktgt = None
        self.data, self.sig, self.lastsig = [], [], None
        if len(self.cw) != 1:
            return
        cw = self.cw[0]
        self.at = p.ev.index(cw)
        self.packed = refcell(cw.args[1])
        chain = set()          # cells that hold the chain, or an adapter in front of it
        loops = 0
        for i, e in enumerate(p.ev):
            if e.kind == "enter" and e.name.endswith("::new") and "CompressWrapWriter" in e.name and e.args[1].op == "r":
                if i < self.at:
                    self.kcell, self.ktgt = refcell(e.args[1]), refcell(e.args[0])
                elif self.holds(e.args[0], e.vals[0], chain):
                    self.pcell = refcell(e.args[1])
            if i > self.at and e.kind == "enter" and e.args and e.args[0].op == "r" and "CompressWrapWriter" in e.name and not e.name.endswith("::new"):
                if e.args[0].a[1] is not self.packed[0]:
                    self.plain = (e.args[0].a[1], e.args[0].a[2])
                    chain.add(self.plain)
            if i > self.at and e.kind == "call" and e.name in ("Write::write_all", "Write::write", "Write::flush"):
                if self.holds(e.args[0], e.vals[0], chain) or self.pcell and not any(self.same(e.args[0], x) for x in (self.packed, self.ktgt)) and e.args[0].op == "r" and e.args[0].a[1].op == "L":
                    if e.name == "Write::flush":
                        continue
                    ln = length_of(p, e.args[1])
                    if ln is not None and p.entails(eq0(ln)):
                        self.sig.append((i, e))
                    else:
                        self.data.append((i, e))
        last = self.data[-1][0] if self.data else self.at
        self.final = [(i, e) for i, e in self.sig if i > last]

    @staticmethod
    def same(a, cell):
        return cell and a.op == "r" and (a.a[1], a.a[2]) == cell

    def holds(self, a, v, chain):
        c = refcell(a)
        if c is None:
            return False
        if c in chain or origin_call(v) is self.cw[0].ret:
            chain.add(c)
            return True
        return False


def length_of(p, a):
    if a.op != "r":
        return None
    if a.a[2] and a.a[2][-1][0] == "sl":
        s = a.a[2][-1]
        return sub(s[2], s[1])
    return length(p.load(a.a[1], a.a[2]))


def origin_call(v):
    while v.op in ("f", "v"):
        v = v.a[0]
    if v.op == "out":
        return None
    return v if v.op == "call" else None
