"""Path summaries of Read/Write adapters."""
from .terms import *
from . import flow, mir

READ, WRITE = "std::io::read::Read", "std::io::write::Write"


def impls(P, trait, method):
    """{self type head: (key, item)}"""
    out = {}
    for k, it in P.find_impl_methods(trait, method):
        out[mir.adt_of(it["implself"])] = (k, it)
    return out


SELF = mk("D", mk("p", "self"))


class Path:
    """One path of an adapter's read/write method."""

    def __init__(self, P, st, body, mode):
        self.st, self.mode = st, mode
        self.kind = st.kind
        selfp = mk("p", body.locals[1][1] or "arg1")
        bufp = mk("p", body.locals[2][1] or "arg2") if body.argc > 1 else None
        self.self = mk("D", selfp)
        self.buf = mk("D", bufp) if bufp is not None else None
        self.buflen = length(mk("d", bufp)) if bufp is not None else None
        name = "Read::read" if mode == "r" else "Write::write"
        self.inner = [e for e in st.ev if e.kind == "call" and e.name == name]
        self.all_inner = [e for e in st.ev if e.kind == "call" and e.name.startswith(("Read::", "Write::"))]
        self.upd = [e for e in st.ev if e.kind == "call" and e.name == "crc32::update"]
        self.retv = st.variant_of(st.ret) if st.ret is not None else None
        self.ret = field(vfield(st.ret, self.retv), "0") if self.retv in ("Ok", "Err") else None

    def old(self, path):
        return project(mk("d", self.self.a[0]), path)

    def new(self, path):
        return self.st.load(self.self, path)

    def changes(self):
        """[(location, old, new)] of everything in self (and behind it) that changed."""
        out = []
        for root, v in self.st.store.items():
            if root.op == "D" and root is not self.buf:
                o = self.st.init(root)
                if o is v:
                    continue
                for path, kind in flow.diff(o, v, ()):
                    out.append(((root, path), project(o, path), project(v, path)))
        return out

    def n(self, ev):
        """Ok payload of an inner call."""
        return field(vfield(ev.ret, "Ok"), "0")

    def variant(self, ev):
        return self.st.variant_of(ev.ret)

    def bufarg(self, ev):
        """(lo, hi) of the part of the caller's buffer passed to an inner call, or None."""
        a = ev.args[1]
        if a.op != "r" or a.a[1] is not self.buf:
            return None
        p = a.a[2]
        if p == ():
            return ZERO, self.buflen
        if len(p) == 1 and p[0][0] == "sl":
            return p[0][1], p[0][2]
        return None


def paths(P, key, mode, rule=None, **kw):
    e = flow.Engine(P, **kw)
    body = P.bodies[key]
    ps = e.run(key)
    if rule is not None:
        rule.ran(e, ps, key)
    return [Path(P, p, body, mode) for p in ps], e


def slice_of(P, ev, i, root):
    """(lo, hi) if argument i is the buffer `root` or a slice of it."""
    a = ev.args[i]
    if a.op != "r" or a.a[1] is not root:
        return None
    p = a.a[2]
    if p == ():
        return ZERO, None
    if len(p) == 1 and p[0][0] == "sl":
        return p[0][1], p[0][2]
    return None
