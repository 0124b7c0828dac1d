"""Path-partitioned forward dataflow over value numbers.

Abstract interpretation of the compiler's MIR: every place holds an interned
value number, every branch adds a fact, loops are cut at their header after the
locations they modify were replaced by fresh loop values (the set is grown to a
fixpoint), local callees are analysed in context (inlined), everything else is
an uninterpreted event.  Nothing is executed and no model is asked for.
"""
from . import mir
from .terms import *
from . import arith

VARIANTS = {
    "std::option::Option": {0: "None", 1: "Some"},
    "std::result::Result": {0: "Ok", 1: "Err"},
    "std::ops::control_flow::ControlFlow": {0: "Continue", 1: "Break"},
    "std::cmp::Ordering": {-1: "Less", 0: "Equal", 1: "Greater", 255: "Less", 2**128 - 1: "Less"},
    "std::borrow::Cow": {0: "Borrowed", 1: "Owned"},
}
INTS = set(INT)


SIGN64 = {("u64", "i64"), ("usize", "i64"), ("u64", "isize"), ("usize", "isize"), ("i64", "u64"), ("i64", "usize"),
          ("isize", "usize"), ("isize", "u64")}


class Limit(Exception):
    pass


class Frame:
    __slots__ = ("body", "ctx", "sub", "bb", "dest", "ret_bb", "cont", "si")

    def __init__(self, body, ctx, sub, dest=None, ret_bb=-1, cont=None):
        self.body, self.ctx, self.sub = body, ctx, sub
        self.bb, self.si, self.dest, self.ret_bb, self.cont = 0, 0, dest, ret_bb, cont

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        return f


def seq_content(st, it):
    """what an iterator over a whole sequence visits: the content of the sequence at that time, or None"""
    while it.op == "it" and it.a[0] in ("rev", "copied", "cloned", "enumerate", "deref", "inspect", "peekable", "fuse", "map", "filter"):
        it = it.a[1]
    if it.op == "it" and it.a[0] == "seq":
        c = it.a[1]
        return st.load(c.a[1], c.a[2]) if c.op == "r" else c
    if it.op == "it" and it.a[0] == "vec":
        return it.a[1]
    return None


def itersnap(st, t):
    """the iterator with the references in it replaced by what they point to now"""
    # names of program points (an index, a loop value, a call) are left as they are
    return rewrite(t, lambda x: st.load(x.a[1], x.a[2]) if x.op == "r" else x if x.op in ("iv", "lv", "lve", "out", "oute", "call", "D", "L", "d") else None)


class Ev:
    __slots__ = ("kind", "name", "args", "vals", "ret", "ctx", "bb", "body", "callee", "nf", "x", "argtys", "havoc", "caps", "snap")

    def __init__(self, kind, name, args=(), vals=(), ret=None, ctx="", bb=0, body=None, callee=None, nf=0, x=None, argtys=()):
        self.kind, self.name, self.args, self.vals, self.ret = kind, name, args, vals, ret
        self.ctx, self.bb, self.body, self.callee, self.nf, self.x, self.argtys = ctx, bb, body, callee, nf, x, argtys
        self.havoc = ()
        self.snap = ()       # contents of the engine's watched places before the call
        self.caps = ()       # (closure, what its captured references point to) of closure arguments

    @property
    def where(self):
        return self.body.line(self.bb) if self.body else "?"

    @property
    def fn(self):
        return self.body.key if self.body else "?"

    def __repr__(self):
        return "%s:%s(%s)=%s @%s" % (self.kind, self.name, ", ".join(pp(a) for a in self.args), self.ret, self.where)


class St:
    __slots__ = ("frames", "store", "facts", "fset", "disc", "nd", "ev", "loops", "kind", "ret", "x")

    def __init__(self):
        self.frames, self.store, self.facts, self.fset = [], {}, [], set()
        self.disc, self.nd, self.ev, self.loops = {}, {}, [], {}
        self.kind, self.ret, self.x = None, None, {}

    def copy(self):
        s = St()
        s.frames = [f.copy() for f in self.frames]
        s.store, s.facts, s.fset = dict(self.store), list(self.facts), set(self.fset)
        s.disc, s.nd, s.ev, s.loops = dict(self.disc), dict(self.nd), list(self.ev), dict(self.loops)
        s.x = dict(self.x)
        return s

    # -- facts ---------------------------------------------------------
    def assume(self, b):
        """Add a boolean fact; False if the path is infeasible."""
        o = b.op
        if o == "c":
            return bool(b.a[0])
        if b in self.fset:
            return True
        nb = neg(b)
        if nb in self.fset:
            return False
        if o == "and":
            return all(self.assume(x) for x in b.a)
        if o == "not" and b.a[0].op == "or":
            return all(self.assume(neg(x)) for x in b.a[0].a)
        if o == "is":
            return self.assume_variant(b.a[0], b.a[1])
        if o == "not" and b.a[0].op == "is":
            return self.assume_not(b.a[0].a[0], (b.a[0].a[1],))
        if o == "eq0" and b.a[0].op == "bor" and not all(self.assume(eq0(x)) for x in b.a[0].a[:2]):
            return False
        if o in ("ge0", "eq0", "ne0"):
            if arith.entails(self.facts, nb):
                return False
            if o == "ge0" and arith.entails(self.facts, b):
                self.fset.add(b)
                return True
        self.facts.append(b)
        self.fset.add(b)
        return True

    def assume_variant(self, t, v):
        k = variant(t)
        if k is not None:
            return k == v
        if t in self.disc:
            return self.disc[t] == v
        if v in self.nd.get(t, ()):
            return False
        self.disc[t] = v
        f = mk("is", t, v)
        self.facts.append(f)
        self.fset.add(f)
        return True

    def assume_not(self, t, vs, total=None):
        k = variant(t)
        if k is not None:
            return k not in vs
        if t in self.disc:
            return self.disc[t] not in vs
        nd = self.nd.get(t, frozenset()) | set(vs)
        self.nd[t] = nd
        if total is not None:
            left = [x for x in total if x not in nd]
            if not left:
                return False
            if len(left) == 1:
                return self.assume_variant(t, left[0])
        for v in vs:
            f = neg(mk("is", t, v))
            if f not in self.fset:
                self.facts.append(f)
                self.fset.add(f)
        return True

    def variant_of(self, t):
        return variant(t) or self.disc.get(t)

    def entails(self, b):
        return arith.entails(self.facts, b)

    # -- memory ----------------------------------------------------------
    def init(self, root):
        if root.op == "D":
            t = root.a[0]
            if t.op == "box":
                return t.a[0]
            if t.op == "rc":
                return t.a[0]
            return mk("d", t)
        if root.op == "K":
            return root.a[0]
        return mk("uninit", root)

    def rootval(self, root):
        v = self.store.get(root)
        return self.init(root) if v is None else v

    def load(self, root, path=()):
        return project(self.rootval(root), path)

    def put(self, root, path, val):
        self.store[root] = update(self.rootval(root), path, val)

    def deref(self, t):
        """Location a pointer value points to."""
        if t.op == "r":
            return t.a[1], t.a[2]
        return mk("D", t), ()

    def pointee(self, t):
        return self.load(*self.deref(t))

    def val(self, t):
        """Value behind any number of references."""
        n = 0
        while t.op == "r" and n < 6:
            t = self.load(t.a[1], t.a[2])
            n += 1
        return t


def ref(root, path=(), mut=False):
    return mk("r", bool(mut), root, tuple(path))


def short(path):
    """`Trait::method` / `Type::method` from an absolute path."""
    p = mir.strip_generics(path)
    import re
    m = re.match(r"^<(.+) as (.+)>::(\w+)$", p)
    if m:
        return m.group(2).split("::")[-1] + "::" + m.group(3)
    p = re.sub(r"::<impl [^>]*>", "", p)
    return "::".join(p.split("::")[-2:])


def loopvalues(t):
    return [x for x in subterms(t) if x.op in ("lv", "iv", "lve")]


class Engine:
    def __init__(self, prog, opaque=(), inline=True, max_paths=6000, max_depth=24, hooks=None, models=None,
                 inline_filter=None, watch=()):
        self.P = prog
        self.watch = tuple(watch)          # (root, path): opaque calls record what is there
        self.opaque = set(opaque)          # keys or short names never inlined
        self.inline = inline
        self.inline_filter = inline_filter
        self.max_paths, self.max_depth = max_paths, max_depth
        self.hooks = hooks or {}
        self.havoc = {}                    # (ctx,bb) -> {(root,path): kind}
        self.mono = {}                     # (ctx,bb,loc) -> set of surviving candidates
        self.steps = {}
        self.visited_fns = set()
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self._prom = {}
        self.names = {}
        self.npaths = 0

    # -- entry -------------------------------------------------------------
    def run(self, key, args=None, setup=None, sub=None, raw=False):
        """All paths of a function. args: list of terms (default symbolic)."""
        for rnd in range(60):
            self.grew = False
            self.npaths = 0
            self.visited_fns = set()
            body = self.P.bodies[key]
            st = St()
            fr = Frame(body, short(key) if not key.startswith("<") else short(key), sub or {})
            st.frames.append(fr)
            for i in range(1, body.argc + 1):
                ty, nm = body.locals[i]
                a = args[i - 1] if args and i <= len(args) and args[i - 1] is not None else mk("p", nm or "arg%d" % i)
                if a.op == "p" and ty in INTS:
                    tyof.setdefault(a, ty)
                st.store[mk("L", fr.ctx, i)] = a
            if setup:
                setup(st)
            out = self.explore(st)
            if not self.grew:
                return out
        raise Limit("no loop fixpoint for " + key)

    def explore(self, st):
        work, done = [st], []
        while work:
            s = work.pop()
            for r in self.step(s):
                if r.kind:
                    done.append(r)
                    if len(done) > self.max_paths:
                        raise Limit("more than %d paths" % self.max_paths)
                else:
                    work.append(r)
        self.npaths = len(done)
        return done

    # -- places / operands ---------------------------------------------------
    def place(self, st, pl):
        fr = st.frames[-1]
        root, path = mk("L", fr.ctx, pl[0]), ()
        for e in pl[1]:
            k = e[0]
            if k == "*":
                root, path = st.deref(st.load(root, path))
            elif k == "f":
                path = path + (("f", e[1]),)
            elif k == "d":
                path = path + (("v", e[1]),)
            elif k == "i":
                path = path + (("i", st.load(mk("L", fr.ctx, e[1]))),)
            elif k == "ci":
                idx = C(e[1]) if not e[2] else sub(length(st.load(root, path)), C(e[1]))
                path = path + (("i", idx),)
            elif k == "ss":
                lo = C(e[1])
                hi = sub(length(st.load(root, path)), C(e[2])) if e[3] else C(e[2])
                path = path + (("sl", lo, hi),)
            else:
                path = path + ((k,),)
        return root, path

    def operand(self, st, o):
        if "p" in o:
            return st.load(*self.place(st, o["p"]))
        return self.const(st, o)

    def const(self, st, o):
        if "v" in o:
            v = o["v"]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return C(v)
            return mk("k", str(v))
        if "s" in o:
            return ref(mk("K", mk("s", o["s"])))
        if "b" in o:
            return ref(mk("K", mk("b", bytes(o["b"]))))
        if "fn" in o:
            fr = st.frames[-1]
            return mk("fn", o["fn"], o.get("id", ""), tuple(mir.subst_ty(a, fr.sub) for a in o.get("args", [])))
        if o["ty"] == "()":
            return UNIT
        if "static" in o:
            return ref(mk("D", mk("static", o["static"])))
        if "cid" in o:
            it = self.P.by_id.get(o["cid"])
            if it is not None:
                key = it["key"]
                if "prom" in o:
                    key += "#p%d" % o["prom"]
                if key in self.P.bodies:
                    return self.ctfe(st, key)
            return mk("k", o["path"])
        if "tyc" in o:
            return mk("k", "const " + o["tyc"])
        if "{closure" in o["ty"] or o["ty"].startswith("Closure"):
            return mk("k", o["ty"])
        if "path" in o:
            return mk("k", o["path"])
        return mk("k", o["ty"])

    def ctfe(self, st, key):
        """Value of a constant / promoted body (straight-line evaluation)."""
        if key not in self._prom:
            self._prom[key] = None
            e = Engine(self.P, max_paths=16, max_depth=4)
            try:
                ps = [p for p in e.run(key) if p.kind == "return"]
            except Exception:
                ps = []
            self._prom[key] = (ps[0].ret, ps[0].store) if len(ps) == 1 else None
        r = self._prom[key]
        if r is None:
            return mk("k", key)
        for root, v in r[1].items():
            if root.op == "L" and root not in st.store:
                st.store[root] = v
        return r[0]

    # -- rvalues -----------------------------------------------------------
    def rvalue(self, st, rv, dty=None):
        k = rv[0]
        fr = st.frames[-1]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref":
            root, path = self.place(st, rv[2])
            return ref(root, path, rv[1])
        if k == "raw":
            root, path = self.place(st, rv[2] if isinstance(rv[1], (bool, str, int)) else rv[1])
            return ref(root, path, True)
        if k == "agg":
            kind, name, var, fields, ops = rv[1], rv[2], rv[3], rv[4], rv[5]
            vals = [self.operand(st, o) for o in ops]
            if kind == "tuple" and not vals:
                return UNIT
            if kind in ("array", "tuple"):
                fields = [str(i) for i in range(len(vals))]
            return agg(kind if kind != "adt" else "adt", name or "", fields, vals)
        if k == "cast":
            return self.cast(st, rv)
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]), rv[4])
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                ty = rv[3] if len(rv) > 3 else dty
                if ty == "bool" or dty == "bool":
                    return neg(a)
                return mk("bnot", a, ty or "")
            if rv[1] == "Neg":
                return scale(a, -1)
            if rv[1] == "PtrMetadata":
                return length(st.pointee(a))
            return mk("un", rv[1], a)
        if k == "discr":
            root, path = self.place(st, rv[1])
            head = mir.adt_of(mir.subst_ty(rv[2], fr.sub))
            if len(rv) > 3 and rv[3] and head not in self.names:
                self.names[head] = {int(v): n for v, n in rv[3]}
            return mk("discr", st.load(root, path), head)
        if k == "repeat":
            n = rv[2]
            v = self.operand(st, rv[1])
            cnt = C(n) if isinstance(n, int) else (C(int(str(n))) if str(n).isdigit() else mk("k", str(n)))
            return mk("rep", v, cnt)
        if k == "tls":
            return ref(mk("D", mk("static", rv[1])))
        return mk("op", json_key(rv))

    def cast(self, st, rv):
        kind, o, fro, to = rv[1], rv[2], rv[3], rv[4]
        t = self.operand(st, o)
        fr = st.frames[-1]
        if kind == "IntToInt":
            return self.intcast(st, t, fro, to)
        if kind == "BoxDerefTransmute" or kind == "Transmute":
            # (box.0).0.pointer as *const T  ==  address of the boxed value
            x, names = t, []
            while x.op == "f" and x.a[1] in ("0", "pointer"):
                names.append(x.a[1])
                x = x.a[0]
            if names and "pointer" in names:
                return ref(mk("D", x), (), True)
            if t.op == "r":
                return t
            return mk("transmute", t, to)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "FnPtrToPtr"):
            return t
        return mk("xcast", kind, to, t)

    def signcast(self, st, t, fro, to, pl):
        """64-bit sign change: partition into the value-preserving and the wrapping case."""
        if t.op == "c":
            return None
        lo, hi = INT[to]
        if t.op not in ("lin", "c"):
            tyof.setdefault(t, fro)
        bad = lt(C(hi), t) if INT[fro][0] == 0 else lt(t, ZERO)
        if st.entails(neg(bad)):
            return None
        fr = st.frames[-1]
        st.ev.append(Ev("cast", to, (t,), (), None, fr.ctx, fr.bb, fr.body, None, len(st.facts), (fro, to, False)))
        out = []
        for i, (c, v) in enumerate(((bad, add(t, C(-2**64 if INT[fro][0] == 0 else 2**64))), (neg(bad), t))):
            s = st.copy() if i == 0 else st
            if s.assume(c):
                root, path = self.place(s, pl)
                s.put(root, path, v)
                out.append(s)
        return out

    def intcast(self, st, t, fro, to):
        if to not in INT:
            return t
        lo, hi = INT[to]
        if t.op == "c":
            v = t.a[0]
            if lo <= v <= hi:
                return t
            n = hi - lo + 1
            v = (v - lo) % n + lo
            return C(v)
        if fro in INT:
            l2, h2 = INT[fro]
            if t not in tyof and t.op not in ("lin", "c"):
                tyof[t] = fro
            if lo <= l2 and h2 <= hi:
                return t
        elif fro == "bool":
            return t
        fits = st.entails(le(C(lo), t)) and st.entails(le(t, C(hi)))
        fr = st.frames[-1]
        st.ev.append(Ev("cast", to, (t,), (), None, fr.ctx, fr.bb, fr.body, None, len(st.facts), (fro, to, fits)))
        if fits:
            return t
        return mk("cast", to, t)

    def binop(self, st, op, a, b, ty):
        isint = ty in INT
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            lo, hi = INT.get(ty, (0, 0))
            good = mk("and", le(C(lo), r), le(r, C(hi)))
            if r.op == "c":
                good = C(lo <= r.a[0] <= hi)
            elif nonneg_ty(ty):
                if op[0] == "S":
                    good = le(C(lo), r)
                else:
                    good = le(r, C(hi))
            if r.op not in ("c", "lin"):
                tyof.setdefault(r, ty)
            return mk("ovf", r, neg(good))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op in ("Lt", "Gt", "Le", "Ge", "Eq", "Ne"):
            if not isint and ty == "bool" and op in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if x.op == "c":
                        r = y if x.a[0] else neg(y)
                        return r if op == "Eq" else neg(r)
            if not isint:
                if op in ("Eq", "Ne"):
                    r = TRUE if a is b else mk("eq", *sorted((a, b), key=lambda t: t.id))
                    return r if op == "Eq" else neg(r)
                return mk("cmp", op, a, b)
            for x in (a, b):
                if x.op not in ("c", "lin"):
                    tyof.setdefault(x, ty)
            return {"Lt": lambda: lt(a, b), "Gt": lambda: lt(b, a), "Le": lambda: le(a, b), "Ge": lambda: le(b, a),
                    "Eq": lambda: eqi(a, b), "Ne": lambda: neg(eqi(a, b))}[op]()
        if ty == "bool":
            if op == "BitAnd":
                return simp_and(a, b)
            if op == "BitOr":
                return neg(simp_and(neg(a), neg(b)))
            if op == "BitXor":
                for x, y in ((a, b), (b, a)):
                    if x.op == "c":
                        return neg(y) if x.a[0] else y
                return mk("bxor", *sorted((a, b), key=lambda t: t.id))
        return self.bits(op, a, b, ty)

    def bits(self, op, a, b, ty):
        ca, cb = a.op == "c", b.op == "c"
        if ca and cb and ty in INT:
            x, y = a.a[0], b.a[0]
            lo, hi = INT[ty]
            try:
                v = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: (x << y), "Shr": lambda: x >> y, "ShlUnchecked": lambda: x << y,
                     "ShrUnchecked": lambda: x >> y, "Div": lambda: x // y if x >= 0 and y > 0 else None,
                     "Rem": lambda: x % y if x >= 0 and y > 0 else None}[op]()
                if v is not None:
                    n = hi - lo + 1
                    return C((v - lo) % n + lo)
            except (KeyError, ZeroDivisionError, ValueError):
                pass
        nm = {"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem",
              "ShlUnchecked": "shl", "ShrUnchecked": "shr"}.get(op, op)
        if nm in ("band", "bor", "bxor"):
            if a.id > b.id:
                a, b = b, a
            if nm == "band":
                for x, y in ((a, b), (b, a)):
                    if isc(x, 0):
                        return ZERO
                    if x.op == "c" and ty in INT and x.a[0] in (INT[ty][1], -1):
                        return y
            else:
                for x, y in ((a, b), (b, a)):
                    if isc(x, 0):
                        return y
        if nm in ("shl", "shr") and isc(b, 0):
            return a
        if nm == "div" and isc(b, 1):
            return a
        for x in (a, b):
            if x.op not in ("c", "lin") and nm not in ("shl", "shr"):
                tyof.setdefault(x, ty)
        if a.op not in ("c", "lin") and nm in ("shl", "shr"):
            tyof.setdefault(a, ty)
        r = mk(nm, a, b) if nm != "shl" else mk("shl", a, b, ty)
        tyof.setdefault(r, ty)
        return r

    # -- stepping ------------------------------------------------------------
    def step(self, st):
        """Run st until it ends or forks; returns resulting states."""
        while True:
            fr = st.frames[-1]
            blk = fr.body.blocks[fr.bb]
            stm = blk["s"]
            i, fr.si = fr.si, 0
            while i < len(stm):
                s = stm[i]
                i += 1
                if s[0] == "=":
                    pl = s[1]
                    ty = fr.body.locals[pl[0]][0] if not pl[1] else None
                    rv = s[2]
                    if rv[0] == "cast" and rv[1] == "IntToInt" and (rv[3], rv[4]) in SIGN64:
                        v = self.operand(st, rv[2])
                        out = self.signcast(st, v, rv[3], rv[4], pl)
                        if out is not None:
                            for o in out:
                                o.frames[-1].si = i
                            return out
                    v = self.rvalue(st, rv, ty)
                    if ty in INT and v.op not in ("c", "lin"):
                        tyof.setdefault(v, ty)
                    root, path = self.place(st, pl)
                    st.put(root, path, v)
                    if root.op != "L":
                        h = self.hooks.get("write")
                        if h:
                            h(st, root, path, v, s[3])
                elif s[0] == "setd":
                    pass
                elif s[0] == "dead":
                    st.store.pop(mk("L", fr.ctx, s[1]), None)
            t = blk["t"]
            k = t[0]
            if k == "goto":
                if not self.enter(st, t[1]):
                    return [st]
                continue
            if k == "switch":
                return self.switch(st, t)
            if k == "drop":
                root, path = self.place(st, t[1])
                v = st.load(root, path)
                if v.op != "uninit":
                    st.ev.append(Ev("drop", mir.adt_of(t[3]), (ref(root, path),), (v,), None, fr.ctx, fr.bb, fr.body, None, len(st.facts), t[3]))
                if not self.enter(st, t[2]):
                    return [st]
                continue
            if k == "assert":
                c = self.operand(st, t[1])
                want = c if t[2] else neg(c)
                proved = st.entails(want)
                ops = tuple(self.operand(st, o) for o in t[4])
                st.ev.append(Ev("assert", t[3], ops, (want,), None, fr.ctx, fr.bb, fr.body, None, len(st.facts), (proved, t[6] if len(t) > 6 else None)))
                if not st.assume(want):
                    st.kind, st.ret = "panic", None
                    return [st]
                if not self.enter(st, t[5]):
                    return [st]
                continue
            if k == "return":
                v = st.load(mk("L", fr.ctx, 0))
                if len(st.frames) == 1:
                    st.kind, st.ret = "return", v
                    return [st]
                return self.do_return(st, v)
            if k == "call":
                r = self.call(st, t)
                if len(r) == 1 and not r[0].kind:
                    st = r[0]
                    continue
                return r
            if k == "unreachable":
                if not self.dead_ok(st):
                    raise Limit("a feasible path reaches `unreachable` in " + fr.body.key)
                return []
            st.kind = "panic"
            return [st]

    def do_return(self, st, v):
        fr = st.frames.pop()
        pre = fr.ctx
        # forget the callee's locals unless something may point at them
        if fr.cont:
            outs = fr.cont(st, v)
        else:
            outs = [(st, v)]
        return self.finish(outs, fr.dest, fr.ret_bb)

    def finish(self, outs, dest, ret_bb):
        res = []
        for s, v in outs:
            if s is None:
                continue
            if s.kind:
                res.append(s)
                continue
            if v is INVOKED:
                res.append(s)
                continue
            if dest is not None:
                s.put(dest[0], dest[1], v)
            if ret_bb < 0:
                s.kind = "panic"
                res.append(s)
                continue
            self.enter(s, ret_bb)
            res.append(s)
        return res

    def switch(self, st, t):
        v = self.operand(st, t[1])
        ty = t[4]
        arms, other = t[2], t[3]
        body = st.frames[-1].body
        live_other = body.blocks[other]["t"][0] != "unreachable"
        if v.op == "c":
            for c, bb in arms:
                if c == v.a[0]:
                    self.enter(st, bb)
                    return [st]
            self.enter(st, other)
            return [st]
        if v.op == "discr":
            x, head = v.a
            names = self.variant_names(head)
            kn = st.variant_of(x)
            conds = []
            for c, bb in arms:
                conds.append((names.get(c, "v%s" % c), bb))
            if kn is not None:
                for n, bb in conds:
                    if n == kn:
                        self.enter(st, bb)
                        return [st]
                self.enter(st, other)
                return [st]
            out = []
            todo = conds + ([(None, other)] if live_other else [])
            for i, (n, bb) in enumerate(todo):
                s = st.copy() if i < len(todo) - 1 else st
                if n is None:
                    okk = s.assume_not(x, tuple(m for m, _ in conds), list(names.values()) or None)
                else:
                    okk = s.assume_variant(x, n)
                if okk:
                    self.enter(s, bb)
                    out.append(s)
            return out
        out = []
        todo = [(c, bb) for c, bb in arms] + ([(None, other)] if live_other else [])
        if ty == "bool":
            pos, z = None, None
            for c, bb in arms:
                if c == 0:
                    z = bb
                else:
                    pos = bb
            z = other if z is None else z
            pos = other if pos is None else pos
            for i, (b, bb) in enumerate(((v, pos), (neg(v), z))):
                s = st.copy() if i == 0 else st
                if s.assume(b):
                    self.enter(s, bb)
                    out.append(s)
            return out
        for i, (c, bb) in enumerate(todo):
            s = st.copy() if i < len(todo) - 1 else st
            if c is None:
                okk = all(s.assume(neg(eqi(v, C(cc)))) for cc, _ in arms)
            else:
                okk = s.assume(eqi(v, C(c)))
            if okk:
                self.enter(s, bb)
                out.append(s)
        return out

    def dead_ok(self, st):
        """`unreachable` blocks are only entered on facts that exclude all variants."""
        return st.x.get("deadok", False)

    def variant_names(self, head):
        if head in self.names:
            return self.names[head]
        if head in VARIANTS:
            return VARIANTS[head]
        a = self.P.adts.get(head)
        if a:
            return {v["discr"]: v["name"] for v in a["variants"]}
        return {}

    # -- loops -----------------------------------------------------------------
    def enter(self, st, bb):
        """Move to block bb of the top frame; False when the path ended."""
        fr = st.frames[-1]
        src = fr.bb
        fr.bb = bb
        loops = fr.body.loops()
        if bb not in loops:
            return True
        lid = (fr.ctx, bb)
        if lid in st.loops:
            self.backedge(st, lid)
            st.kind = "loop"
            st.x["loop"] = lid
            return False
        # loop entry: replace what the loop may modify
        h = self.havoc.get(lid, {})
        entry = []
        for (root, path), kind in sorted(h.items(), key=lambda x: str(x[0])):
            if root.op == "L" and root not in st.store:
                continue
            if root.op == "L" and st.store[root].op == "uninit":
                continue
            old = st.load(root, path)
            if kind == "e":
                lv = mk("lve", old, fr.ctx, bb, root, path)
            else:
                lv = mk("lv", fr.ctx, bb, root, path)
            entry.append((root, path, lv, old))
            if old in tyof:
                tyof.setdefault(lv, tyof[old])
            elif old.op in ("c", "lin"):
                ty = self.loc_ty(st, root, path)
                if ty in INT:
                    tyof.setdefault(lv, ty)
            st.put(root, path, lv)
            for cand in sorted(self.mono.get((lid, root, path), ("ge", "le"))):
                if lv in tyof:
                    if cand == "ge":
                        st.assume(le(old, lv))
                    elif cand == "le":
                        st.assume(le(lv, old))
            st.x[("init", lv)] = old
        st.loops[lid] = (dict(st.store), len(st.ev))
        st.ev.append(Ev("loop", str(bb), (), (), None, fr.ctx, bb, fr.body, None, len(st.facts), lid))
        st.ev[-1].havoc = tuple(entry)
        return True

    def loc_ty(self, st, root, path):
        if root.op == "L" and not path:
            for f in st.frames:
                if f.ctx == root.a[0]:
                    return f.body.locals[root.a[1]][0]
        return "usize" if False else self.field_ty(st, root, path)

    def field_ty(self, st, root, path):
        if path and path[-1][0] == "f":
            nm = path[-1][1]
            c = set()
            for a in self.P.adts.values():
                for v in a["variants"]:
                    for f in v["fields"]:
                        if f["name"] == nm:
                            c.add(f["ty"])
            if len(c) == 1:
                return c.pop()
        return None

    def backedge(self, st, lid):
        snap = st.loops[lid][0]
        h = self.havoc.setdefault(lid, {})
        # drop locations of finished inner frames: only those known at the header
        for root, new in list(st.store.items()):
            if root.op == "L" and root not in snap:
                continue
            old = snap.get(root)
            if old is None:
                old = self.init_at(st, root)
            if old is new or old.op == "uninit":
                continue
            for path, kind in diff(old, new, (), lambda i: invariant(st, lid, i)):
                self.note(st, lid, h, root, path, kind, old, new)

    def init_at(self, st, root):
        return st.init(root)

    def note(self, st, lid, h, root, path, kind, oldr, newr):
        key = (root, path)
        # already covered by an ancestor?
        for i in range(len(path) + 1):
            p = path[:i]
            if (root, p) in h:
                if h[(root, p)] == "e" and (kind == "a" or i < len(path) and False):
                    if i == len(path):
                        h[(root, p)] = "a"
                        self.grew = True
                        return
                    continue
                if h[(root, p)] == "e" and i == len(path):
                    return
                if h[(root, p)] == "a":
                    # monotone candidates
                    old, new = project(oldr, p), project(newr, p)
                    if old.op == "lv":
                        mkey = (lid, root, p)
                        cand = self.mono.setdefault(mkey, {"ge", "le"})
                        d = sub(new, old)
                        if "ge" in cand and not st.entails(ge0(d)):
                            cand.discard("ge")
                            self.grew = True
                        if "le" in cand and not st.entails(ge0(scale(d, -1))):
                            cand.discard("le")
                            self.grew = True
                        self.steps.setdefault(mkey, set()).add(d)
                    return
        h[key] = kind
        # drop covered descendants
        for k in list(h):
            if k[0] is root and len(k[1]) > len(path) and k[1][:len(path)] == path and kind == "a":
                del h[k]
        self.grew = True

    # -- calls -------------------------------------------------------------------
    def resolve(self, st, callee):
        """(display short name, local body key or None, sub, callee info)"""
        fr = st.frames[-1]
        sub_ = fr.sub
        if "trait" in callee:
            selfty = mir.subst_ty(callee.get("self", ""), sub_)
            nm = callee["name"]
            sn = callee["trait"].split("::")[-1] + "::" + nm
            if callee.get("kind") != "virtual":
                if callee.get("rid") and callee.get("reslocal") and callee["rid"] in self.P.by_id:
                    it = self.P.by_id[callee["rid"]]
                    s2 = {n: mir.subst_ty(a, sub_) for n, a in zip(callee.get("resgnames", []), callee.get("resargs", []))}
                    return sn, it["key"], s2
                key, im = self.P.method_impl(callee["trait"], mir.strip_generics(selfty) if False else selfty, nm)
                if key:
                    s2 = {}
                    a1, a2 = mir.ty_args(im["self"]), mir.ty_args(selfty)
                    if len(a1) == len(a2):
                        s2 = dict(zip(a1, a2))
                    return sn, key, s2
                if not callee.get("rid") or callee.get("kind") not in ("item",):
                    # default method of a local trait
                    if callee.get("id") in self.P.by_id and callee.get("local"):
                        it = self.P.by_id[callee["id"]]
                        if it["key"] in self.P.bodies and selfty and not is_param(selfty):
                            return sn, it["key"], {"Self": selfty}
            return sn, None, {}
        sn = short(callee["fn"])
        if callee.get("local") and callee.get("id") in self.P.by_id:
            it = self.P.by_id[callee["id"]]
            if it["key"] in self.P.bodies and it["kind"] in ("fn", "closure"):
                s2 = {n: mir.subst_ty(a, sub_) for n, a in zip(callee.get("gnames", []), callee.get("args", []))}
                return sn, it["key"], s2
        return sn, None, {}

    def call(self, st, t):
        callee, ops, dest_pl, target, argtys = t[1], t[2], t[3], t[4], t[5]
        fr = st.frames[-1]
        args = [self.operand(st, o) for o in ops]
        dest = self.place(st, dest_pl)
        if "ptr" in callee:
            f = self.operand(st, callee["ptr"])
            outs = self.call_value(st, f, args, (fr.ctx, fr.bb), dest, target)
            return self.finish(outs, dest, target)
        name, key, sub_ = self.resolve(st, callee)
        argtys = [mir.subst_ty(a, fr.sub) for a in argtys]
        outs = self.invoke(st, name, key, sub_, callee, args, argtys, dest, target)
        return self.finish(outs, dest, target)

    def invoke(self, st, name, key, sub_, callee, args, argtys, dest, target):
        fr = st.frames[-1]
        if key is not None and key in self.P.bodies and self.P.bodies[key].item["kind"] == "closure" and name in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call") and len(args) == 2:
            return m_callfn(self, st, callee, args, argtys, dest, target)      # the arguments come as one tuple
        if key is not None and key in self.models:
            r = self.models[key](self, st, callee, args, argtys, dest, target)
            if r is not None:
                return r
        if key is None or (key in self.opaque or name in self.opaque or not self.inline):
            m = self.models.get(name)
            if m is not None and not (key and (key in self.opaque or name in self.opaque)):
                r = m(self, st, callee, args, argtys, dest, target)
                if r is not None:
                    return r
            return self.opaque_call(st, name, callee, args, argtys, key)
        if any(f.body.key == key for f in st.frames) or len(st.frames) > self.max_depth:
            return self.opaque_call(st, name, callee, args, argtys, key)
        if self.inline_filter and not self.inline_filter(key):
            return self.opaque_call(st, name, callee, args, argtys, key)
        self.push(st, key, args, sub_, dest, target, None)
        return [(st, INVOKED)]

    def push(self, st, key, args, sub_, dest, target, cont, tag=""):
        fr = st.frames[-1]
        body = self.P.bodies[key]
        self.visited_fns.add(key)
        ctx = "%s@%d%s/%s" % (fr.ctx, fr.bb, tag, short(body.key) if not body.item["kind"] == "closure" else "{c}" + body.item["id"][-9:-2])
        nf = Frame(body, ctx, sub_, dest, target, cont)
        st.ev.append(Ev("enter", body.key, tuple(args), tuple(st.val(a) for a in args), None, fr.ctx, fr.bb, fr.body, None, len(st.facts), ctx))
        st.frames.append(nf)
        for i, a in enumerate(args):
            r = mk("L", ctx, i + 1)
            ty = body.locals[i + 1][0] if i + 1 < len(body.locals) else None
            if ty in INT and a.op not in ("c", "lin"):
                tyof.setdefault(a, ty)
            st.store[r] = a
        # block 0 may itself be a loop header
        if 0 in body.loops():
            self.enter(st, 0)

    def call_value(self, st, f, args, site, dest, target, cont=None, tag=""):
        """Call a closure / function value."""
        g = st.val(f)
        if g.op == "a" and g.a[0] == "closure" and g.a[1] in self.P.by_id:
            key = self.P.by_id[g.a[1]]["key"]
            if key in self.P.bodies and not any(x.body.key == key for x in st.frames):
                body = self.P.bodies[key]
                ety = body.locals[1][0]
                selfarg = f
                if ety.startswith("&"):
                    if f.op != "r":
                        cell = mk("L", "clo", f.id)
                        st.store[cell] = f
                        selfarg = ref(cell, (), True)
                    else:
                        # strip extra reference levels
                        while st.pointee(selfarg).op == "r":
                            selfarg = st.pointee(selfarg)
                else:
                    selfarg = g
                self.push(st, key, [selfarg] + list(args), st.frames[-1].sub, dest, target, cont, tag)
                return [(st, INVOKED)]
        if g.op == "fn":
            it = self.P.by_id.get(g.a[1])
            if it is not None and it["key"] in self.P.bodies and it["key"] not in self.opaque:
                self.push(st, it["key"], list(args), {}, dest, target, cont, tag)
                return [(st, INVOKED)]
            seg = mir.strip_generics(g.a[0])
            last = seg.rsplit("::", 1)[-1]
            if last[:1].isupper():
                v = agg("adt", seg, tuple(str(i) for i in range(len(args))), args)
                outs = [(st, v)]
            else:
                m = self.models.get(short(seg))
                outs = None
                if m is not None:
                    outs = m(self, st, {"fn": seg, "name": last}, list(args), [""] * len(args), dest, target)
                if outs is None:
                    outs = self.opaque_call(st, short(seg), {"fn": g.a[0]}, list(args), [""] * len(args), None)
        else:
            outs = self.opaque_call(st, "call-value", {"fn": "call-value"}, [f] + list(args), [""] * (1 + len(args)), None)
        if cont:
            res = []
            for s, v in outs:
                res += cont(s, v)
            return res
        return outs

    def opaque_call(self, st, name, callee, args, argtys, key):
        fr = st.frames[-1]
        vals = tuple(st.val(a) for a in args)
        site = "%s@%d" % (fr.ctx, fr.bb)
        if name in PURE:
            ret = mk("pure", name, *vals)
        else:
            ret = mk("call", name, tuple(args), tuple(vals), site)
        rty = mir.subst_ty(callee.get("ret", ""), fr.sub) if callee else ""
        if rty in INT:
            tyof.setdefault(ret, rty)
        st.ev.append(Ev("call", name, tuple(args), vals, ret, fr.ctx, fr.bb, fr.body, callee, len(st.facts), key, tuple(argtys)))
        if self.watch:
            st.ev[-1].snap = tuple(st.load(r, q) for r, q in self.watch)
        if any(v.op == "a" and v.a[0] == "closure" for v in vals):
            st.ev[-1].caps = tuple((v, tuple(st.val(x) if x.op == "r" else x for x in v.a[3])) for v in vals if v.op == "a" and v.a[0] == "closure")
        # a diverging local callee ends the path in `finish` (target -1)
        if name not in PURE:
            for i, a in enumerate(args):
                ty = argtys[i] if i < len(argtys) else ""
                self.havoc_arg(st, a, ty, ret, i, generic=ty in ((callee or {}).get("args") or ()))
        return [(st, ret)]

    def havoc_arg(self, st, a, ty, ret, i, depth=0, generic=False):
        if depth > 4:
            return
        if a.op == "r":
            mutable = ty.startswith("&mut") or (not ty.startswith("&") and a.a[0])
            if ty.startswith("&") and not ty.startswith("&mut"):
                mutable = False
            root, path = a.a[1], a.a[2]
            old = st.load(root, path)
            if mutable and generic and old.op == "r" and old.a[0] and ty.startswith("&mut &mut "):
                # a generic callee uses the reference only through the trait's methods: it cannot exchange it
                return self.havoc_arg(st, old, ty[5:], ret, i, depth + 1)
            if mutable:
                inner = ty[5:] if ty.startswith("&mut ") else ""
                if inner.startswith("[") or path and path[-1][0] == "sl":
                    st.put(root, path, mk("oute", old, ret, i, root, path))
                else:
                    st.put(root, path, mk("out", ret, i, root, path))
            # things reachable through the old value
            for x in refs_in(old):
                if x.a[0]:
                    self.havoc_arg(st, x, "", ret, i, depth + 1)
            return
        for x in refs_in(a):
            if x.a[0]:
                self.havoc_arg(st, x, "", ret, i, depth + 1)


INVOKED = mk("invoked")
PURE = {"num::to_le_bytes", "num::from_le_bytes", "num::from_be_bytes", "num::to_be_bytes", "num::wrapping_add",
        "num::wrapping_sub", "num::wrapping_mul", "num::leading_zeros", "num::trailing_zeros", "num::leading_ones", "num::trailing_ones", "num::count_ones", "num::ilog2", "BitSet::contains",
        "Path::to_string_lossy", "Cow::into_owned",
        "String::as_str", "str::len", "String::len", "hint::must_use",
        "Vec::capacity", "str::is_empty", "str::contains", "str::find", "slice::contains"}


def is_param(ty):
    import re
    return bool(re.match(r"^(&(mut )?)*[A-Z]\w*$", ty)) or ty.startswith("impl ")


def nonneg_ty(ty):
    return ty in INT and INT[ty][0] == 0


def simp_and(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            return y if x.a[0] else FALSE
    if a is b:
        return a
    return mk("and", *sorted((a, b), key=lambda t: t.id))


def json_key(x):
    import json
    return json.dumps(x)[:60]


def refs_in(t):
    out = []
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "r":
            out.append(x)
        elif x.op == "a":
            st.extend(x.a[3])
        elif x.op == "u":
            st.extend(v for _, v in x.a[1])
    return out


def invariant(st, lid, i):
    """an index that does not change while the loop runs: the number of the round of a loop around it"""
    if i.op != "iv":
        return False
    cut = st.loops[lid][1]
    before = [e for e in st.ev[:cut] if e.kind == "next" and e.name == "item" and e.vals[1] is i]
    after = [e for e in st.ev[cut:] if e.kind == "next" and before and (e.ctx, e.bb) == (before[-1].ctx, before[-1].bb)]
    return bool(before) and not after


def diff(old, new, path, inv=None):
    """[(path, kind)] of differing parts; kind 'e' = elements only, 'a' = anything."""
    if old is new:
        return []
    if inv is not None and new.op == "ue" and inv(new.a[1]):
        i = new.a[1]
        if new.a[0] is old or old.op == "ue" and old.a[0] is new.a[0] and old.a[1] is i:
            return diff(elem(old, i), new.a[2], path + (("i", i),), inv)
    if old.op == "a" and new.op == "a" and old.a[:3] == new.a[:3] and old.a[0] in ("adt", "tuple"):
        out = []
        for n, x, y in zip(old.a[2], old.a[3], new.a[3]):
            if variant_enum(old):
                if x is not y:
                    return [(path, "a")]
            out += diff(x, y, path + (("f", n),), inv)
        return out
    if new.op == "u" or old.op == "u":
        bo, oo = (old.a[0], dict(old.a[1])) if old.op == "u" else (old, {})
        bn, on = (new.a[0], dict(new.a[1])) if new.op == "u" else (new, {})
        if bo is bn:
            out = []
            for n in sorted(set(oo) | set(on)):
                out += diff(field(old, n), field(new, n), path + (("f", n),), inv)
            return out
        if bn.op == "a" or bo.op == "a":
            pass
    x = new
    while x.op in ("ue", "usl", "oute", "lve"):
        x = x.a[0]
        if x is old:
            return [(path, "e")]
    return [(path, "a")]


def variant_enum(t):
    n = t.a[1]
    return n.startswith(("std::option::Option::", "std::result::Result::"))


# ======================================================================
# models of library functions
# ======================================================================
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def fork(st, alts):
    """alts: list of (list of facts/(term,variant)), value thunk) -> [(st, val)]"""
    out = []
    for i, (conds, val) in enumerate(alts):
        s = st.copy() if i < len(alts) - 1 else st
        good = True
        for c in conds:
            if isinstance(c, tuple):
                good = s.assume_variant(*c)
            else:
                good = s.assume(c)
            if not good:
                break
        if good:
            out.append((s, val(s) if callable(val) else val))
    return out


def split(st, t, a="Ok", b="Err"):
    """[(st, variant, payload)] for a two-variant enum value."""
    v = st.variant_of(t)
    if v is not None:
        return [(st, v, field(vfield(t, v), "0"))]
    s2 = st.copy()
    out = []
    if st.assume_variant(t, a):
        out.append((st, a, field(vfield(t, a), "0")))
    if s2.assume_variant(t, b):
        out.append((s2, b, field(vfield(t, b), "0")))
    return out


CF = "std::ops::control_flow::ControlFlow::"


@model("Try::branch")
def m_branch(e, st, c, args, tys, dest, tgt):
    isopt = tys[0].startswith("std::option::Option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    out = []
    for s, v, p in split(st, args[0], a, b):
        if v == a:
            out.append((s, agg("adt", CF + "Continue", ("0",), (p,))))
        else:
            r = NONE if isopt else err(p)
            out.append((s, agg("adt", CF + "Break", ("0",), (r,))))
    return out


@model("FromResidual::from_residual")
def m_residual(e, st, c, args, tys, dest, tgt):
    t = args[0]
    if variant(t) == "Err":
        return [(st, err(field(t, "0")))]
    return [(st, t)]


def changes_captures(e, f):
    """a closure that writes to what it captured"""
    k = e.P.by_id.get(f.a[1])
    b = e.P.bodies.get(k["key"] if isinstance(k, dict) else k) if k else None
    if b is None:
        return False
    mine = {1}
    for blk in b.blocks:
        for s in blk["s"]:
            if s[0] != "=":
                continue
            dst, rv = s[1], s[2]
            if dst[0] in mine and dst[1]:
                return True
            if rv[0] == "ref" and rv[2][0] in mine and rv[1] is True:
                return True
            if not dst[1] and rv[0] in ("use", "cast") and any(isinstance(x, dict) and "p" in x and x["p"][0] in mine for x in rv):
                mine.add(dst[0])
    return False


@model("Result::map_err")
def m_map_err(e, st, c, args, tys, dest, tgt):
    out = []
    for s, v, p in split(st, args[0]):
        f = s.val(args[1])
        if v == "Err" and f.op == "a" and f.a[0] == "closure" and changes_captures(e, f):
            # what the closure does to what it captured is kept, the error it makes is not looked at
            out += e.call_value(s, args[1], [p], None, dest, tgt, lambda s2, r, p=p: [(s2, err(mk("maperr", p)))])
        else:
            out.append((s, ok(p) if v == "Ok" else err(mk("maperr", p))))
    return out


@model("Result::map", "Option::map")
def m_map(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    wrap = some if isopt else ok
    out = []
    fr = st.frames[-1]
    for s, v, p in split(st, args[0], a, b):
        if v == a:
            out += e.call_value(s, args[1], [p], None, dest, tgt, lambda s2, r: [(s2, wrap(r))])
        else:
            out.append((s, NONE if isopt else err(p)))
    return out


@model("Result::and_then", "Option::and_then")
def m_and_then(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    out = []
    for s, v, p in split(st, args[0], a, b):
        if v == a:
            out += e.call_value(s, args[1], [p], None, dest, tgt, None)
        else:
            out.append((s, NONE if isopt else err(p)))
    return out


@model("Option::zip")
def m_ozip(e, st, c, args, tys, dest, tgt):
    out = []
    for s, v, a in split(st, args[0], "Some", "None"):
        if v == "None":
            out.append((s, NONE))
            continue
        out += [(x, some(tup(a, b)) if w == "Some" else NONE) for x, w, b in split(s, args[1], "Some", "None")]
    return out


@model("Result::or_else", "Result::unwrap_or_else", "Option::unwrap_or_else", "Option::or_else")
def m_or_else(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    unw = "unwrap" in c["fn"]
    out = []
    for s, v, p in split(st, args[0], a, b):
        if v == a:
            out.append((s, p if unw else (some(p) if isopt else ok(p))))
        else:
            out += e.call_value(s, args[1], [] if isopt else [p], None, dest, tgt, None)
    return out


@model("Option::map_or", "Result::map_or", "Option::map_or_else", "Option::is_some_and", "Result::is_ok_and", "Option::is_none_or")
def m_map_or(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    nm = c["fn"].rsplit("::", 1)[-1]
    out = []
    for s, v, p in split(st, args[0], a, b):
        if nm in ("is_some_and", "is_ok_and", "is_none_or"):
            out += e.call_value(s, args[1], [p], None, dest, tgt, None) if v == a else [(s, TRUE if nm == "is_none_or" else FALSE)]
        elif v == a:
            out += e.call_value(s, args[2], [p], None, dest, tgt, None)
        elif nm == "map_or":
            out.append((s, args[1]))
        else:
            out += e.call_value(s, args[1], [], None, dest, tgt, None)
    return out


@model("Option::filter")
def m_optfilter(e, st, c, args, tys, dest, tgt):
    out = []
    fr = st.frames[-1]
    for s, v, p in split(st, args[0], "Some", "None"):
        if v == "None":
            out.append((s, NONE))
            continue
        cell = mk("L", "opt", "%s@%d" % (fr.ctx, fr.bb))
        s.store[cell] = p
        out += e.call_value(s, args[1], [ref(cell)], None, dest, tgt, lambda s2, r, p=p: fork(s2, [([r], some(p)), ([neg(r)], NONE)]))
    return out


@model("Option::ok_or", "Option::ok_or_else")
def m_ok_or(e, st, c, args, tys, dest, tgt):
    out = []
    for s, v, p in split(st, args[0], "Some", "None"):
        if v == "Some":
            out.append((s, ok(p)))
        elif c["fn"].endswith("_else"):
            out += e.call_value(s, args[1], [], None, dest, tgt, lambda s2, r: [(s2, err(r))])
        else:
            out.append((s, err(args[1])))
    return out


@model("Result::ok")
def m_ok(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    st.ev.append(Ev("call", "Result::ok", tuple(args), (), None, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    return [(s, some(p) if v == "Ok" else NONE) for s, v, p in split(st, args[0])]


@model("Result::unwrap", "Option::unwrap", "Result::expect", "Option::expect", "Result::unwrap_unchecked")
def m_unwrap(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    fr = st.frames[-1]
    t = args[0]
    proved = st.variant_of(t) == a
    st.ev.append(Ev("assert", "unwrap", (t,), (mk("is", t, a),), None, fr.ctx, fr.bb, fr.body, c, len(st.facts), (proved, None)))
    if not st.assume_variant(t, a):
        st.kind = "panic"
        return [(st, None)]
    return [(st, field(vfield(t, a), "0"))]


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    return [(s, p if v == a else args[1]) for s, v, p in split(st, args[0], a, b)]


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrap_default(e, st, c, args, tys, dest, tgt):
    isopt = c["fn"].startswith("std::option")
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    fr = st.frames[-1]
    st.ev.append(Ev("call", short(c["fn"]), tuple(args), (), None, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    at = mir.ty_args(tys[0])
    return [(s, p if v == a else (default(at[0]) if at else mk("default", ""))) for s, v, p in split(st, args[0], a, b)]


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(e, st, c, args, tys, dest, tgt):
    t = st.pointee(args[0])
    nm = c["fn"].rsplit("::", 1)[-1]
    a, want = {"is_some": ("Some", 1), "is_none": ("Some", 0), "is_ok": ("Ok", 1), "is_err": ("Ok", 0)}[nm]
    b = {"Some": "None", "Ok": "Err"}[a]
    out = []
    for s, v, p in split(st, t, a, b):
        out.append((s, C((v == a) == bool(want))))
    return out


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref")
def m_as_ref(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    isopt = "option" in c["fn"]
    a, b = ("Some", "None") if isopt else ("Ok", "Err")
    mut = c["fn"].endswith("mut")
    wrap = some if isopt else ok
    out = []
    for s, v, p in split(st, st.load(root, path), a, b):
        if v == a:
            out.append((s, wrap(ref(root, path + (("v", a), ("f", "0")), mut))))
        else:
            out.append((s, NONE if isopt else err(ref(root, path + (("v", b), ("f", "0")), mut))))
    return out


@model("Option::cloned", "Option::copied")
def m_cloned(e, st, c, args, tys, dest, tgt):
    return [(s, some(s.pointee(p)) if v == "Some" else NONE) for s, v, p in split(st, args[0], "Some", "None")]


@model("Option::take")
def m_opt_take(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    v = st.load(root, path)
    st.put(root, path, NONE)
    return [(st, v)]


@model("Option::replace")
def m_opt_replace(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    v = st.load(root, path)
    st.put(root, path, some(args[1]))
    return [(st, v)]


@model("Option::insert")
def m_opt_insert(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    st.put(root, path, some(args[1]))
    return [(st, ref(root, path + (("v", "Some"), ("f", "0")), True))]


@model("Option::get_or_insert", "Option::get_or_insert_with")
def m_opt_goi(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    inner = path + (("v", "Some"), ("f", "0"))
    out = []
    for s, v, p in split(st, st.load(root, path), "Some", "None"):
        if v == "Some":
            out.append((s, ref(root, inner, True)))
            continue
        def fin(s2, r):
            s2.put(root, path, some(r))
            return [(s2, ref(root, inner, True))]
        out += fin(s, args[1]) if c["fn"].endswith("get_or_insert") else e.call_value(s, args[1], [], None, dest, tgt, fin)
    return out


def default(ty):
    if ty in INT or ty in ("bool",):
        return ZERO
    h = mir.adt_of(ty)
    if h == "std::vec::Vec" or h == "std::string::String":
        return mk("empty", h)
    if h == "std::option::Option":
        return NONE
    if ty == "()":
        return UNIT
    return mk("default", h)


@model("Default::default")
def m_default(e, st, c, args, tys, dest, tgt):
    ty = mir.subst_ty(c.get("self", ""), st.frames[-1].sub)
    return [(st, default(ty))]


@model("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity")
def m_vecnew(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    if args:
        st.ev.append(Ev("alloc", short(c["fn"]), tuple(args), (), None, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    return [(st, mk("empty", "std::vec::Vec" if "vec" in c["fn"] else "std::string::String"))]


@model("vec::from_elem")
def m_fromelem(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    st.ev.append(Ev("alloc", "vec!", (args[1],), (), None, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    return [(st, mk("rep", args[0], args[1]))]


@model("mem::replace")
def m_replace(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    v = st.load(root, path)
    st.put(root, path, args[1])
    return [(st, v)]


@model("mem::take")
def m_take(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    v = st.load(root, path)
    ty = tys[0][5:] if tys[0].startswith("&mut ") else ""
    st.put(root, path, default(ty))
    return [(st, v)]


@model("mem::swap")
def m_swap(e, st, c, args, tys, dest, tgt):
    a, b = st.deref(args[0]), st.deref(args[1])
    va, vb = st.load(*a), st.load(*b)
    st.put(a[0], a[1], vb)
    st.put(b[0], b[1], va)
    return [(st, UNIT)]


@model("mem::drop")
def m_drop(e, st, c, args, tys, dest, tgt):
    return None


@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec")
def m_clone(e, st, c, args, tys, dest, tgt):
    return [(st, st.pointee(args[0]))]


@model("Box::new")
def m_box(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    return [(st, mk("box", args[0], "%s@%d" % (fr.ctx, fr.bb)))]


@model("Rc::new", "Arc::new")
def m_rc(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    return [(st, mk("rc", args[0], "%s@%d" % (fr.ctx, fr.bb)))]


@model("Cell::new", "RefCell::new", "Mutex::new")
def m_cell(e, st, c, args, tys, dest, tgt):
    return [(st, agg("adt", "std::cell::Cell", ("value",), (args[0],)))]


@model("Cell::get")
def m_cget(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    return [(st, st.load(root, path + (("f", "value"),)))]


@model("Cell::set", "Cell::replace")
def m_cset(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    old = st.load(root, path + (("f", "value"),))
    st.put(root, path + (("f", "value"),), args[1])
    return [(st, UNIT if c["fn"].endswith("set") else old)]


SAME = ("std::vec::Vec", "std::string::String", "[", "str", "std::path::PathBuf", "std::path::Path", "generic_array::GenericArray",
        "std::borrow::Cow")


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut")
def m_deref(e, st, c, args, tys, dest, tgt):
    ty = mir.subst_ty(c.get("self", ""), st.frames[-1].sub)
    a = args[0]
    h = ty.lstrip("&").replace("mut ", "")
    head = mir.adt_of(h)
    if c["name"] in ("as_ref", "as_mut", "borrow", "borrow_mut"):
        while st.pointee(a).op == "r":
            a = st.pointee(a)
    if head.startswith(("std::", "alloc::")) and head.rsplit("::", 1)[-1] in ("Box", "Rc", "Arc"):
        return [(st, ref(*st.deref(st.pointee(a)), mut=c["name"].endswith("mut")))]
    if head.startswith(SAME):
        root, path = st.deref(a)
        return [(st, ref(root, path, c["name"].endswith("mut")))]
    root, path = st.deref(a)
    v = st.load(root, path)
    if v.op == "r":
        return [(st, v)]
    if c["name"] == "as_ref":
        return [(st, ref(mk("D", mk("derefd", v)), ()))]
    return [(st, ref(mk("D", mk("derefd", ref(root, path))), (), c["name"].endswith("mut")))]


@model("Vec::as_slice", "Vec::as_mut_slice", "array::as_slice", "array::as_mut_slice", "PathBuf::as_path", "GenericArray::as_slice",
       "slice::as_slice", "String::as_bytes", "str::as_bytes", "Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_ptr", "slice::as_mut_ptr",
       "Box::as_mut", "Box::as_ref", "GenericArray::from_mut_slice", "GenericArray::from_slice", "Path::new")
def m_same(e, st, c, args, tys, dest, tgt):
    a = args[0]
    root, path = st.deref(a)
    if "from_" in c["fn"] and "generic_array" in c["fn"]:
        fr = st.frames[-1]
        v = st.load(root, path)
        n = mk("garrlen", tuple(c.get("args", [])) and str(c.get("args")))
        st.ev.append(Ev("assert", "garray", (length(v), n), (eqi(length(v), n),), None, fr.ctx, fr.bb, fr.body, c, len(st.facts), (False, None)))
    return [(st, ref(root, path, "mut" in c["fn"].rsplit("::", 1)[-1]))]


@model("Vec::len", "slice::len", "String::len", "str::len", "ExactSizeIterator::len")
def m_len(e, st, c, args, tys, dest, tgt):
    v = st.pointee(args[0])
    if v.op == "it":
        n = it_count(st, v)
        return [(st, n)] if n is not None else None
    return [(st, length(v))]


@model("Vec::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty")
def m_isempty(e, st, c, args, tys, dest, tgt):
    return [(st, eq0(length(st.pointee(args[0]))))]


@model("Ord::min", "cmp::min")
def m_min(e, st, c, args, tys, dest, tgt):
    a, b = args
    setty(tys, a, b)
    return fork(st, [([le(a, b)], a), ([lt(b, a)], b)])


@model("Ord::max", "cmp::max")
def m_max(e, st, c, args, tys, dest, tgt):
    a, b = args
    setty(tys, a, b)
    return fork(st, [([le(a, b)], b), ([lt(b, a)], a)])


def setty(tys, *ts):
    for ty, t in zip(tys, ts):
        if ty in INT and t.op not in ("c", "lin"):
            tyof.setdefault(t, ty)


@model("Div::div", "Rem::rem", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr")
def m_arith(e, st, c, args, tys, dest, tgt):
    """operators on references to integers"""
    ty = tys[0].lstrip("&").replace("mut ", "")
    if ty not in INT or len(args) != 2:
        return None
    return [(st, e.binop(st, c["name"].capitalize().replace("Bitand", "BitAnd").replace("Bitor", "BitOr").replace("Bitxor", "BitXor"), st.val(args[0]), st.val(args[1]), ty))]


WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "usize": 8, "isize": 8}


@model("num::to_le_bytes", "num::to_be_bytes")
def m_tobytes(e, st, c, args, tys, dest, tgt):
    ty = tys[0].lstrip("&") if tys else ""
    if ty not in WIDTH:
        return None
    setty(tys, args[0])
    return [(st, mk("bytes", WIDTH[ty], "le" if "_le_" in c["fn"] else "be", args[0]))]


@model("Write::write_all", "Write::write", "WriteBytesExt::write_u8", "WriteBytesExt::write_u16", "WriteBytesExt::write_u32",
       "WriteBytesExt::write_u64", "Write::flush")
def m_sink(e, st, c, args, tys, dest, tgt):
    """Writing into memory: Vec<u8> or &mut [u8]."""
    fr = st.frames[-1]
    ty = mir.subst_ty(c.get("self", ""), fr.sub)
    vec = ty.startswith("std::vec::Vec<u8")
    if not vec and ty != "&mut [u8]":
        return None
    name = c["name"]
    root, path = st.deref(args[0])
    if name == "flush":
        return [(st, ok(UNIT))]
    if name.startswith("write_u"):
        g = [mir.subst_ty(x, fr.sub) for x in c.get("args", [])]
        v = mk("bytes", WIDTH[name[6:]], "be" if any("BigEndian" in x for x in g) else "le", args[1])
    else:
        v = st.pointee(args[1])
    n = length(v)
    res = n if name == "write" else UNIT
    st.ev.append(Ev("sink", name, tuple(args), (st.load(root, path), v), None, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    if vec:
        st.put(root, path, mk("cat", st.load(root, path), v))
        return [(st, ok(res))]
    cur = st.load(root, path)
    if cur.op != "r":
        return None
    tr, tp = cur.a[1], cur.a[2]
    L = length(st.load(tr, tp))
    if not st.entails(le(n, L)):
        return None
    st.put(tr, tp + (("sl", ZERO, n),) if not (tp and tp[-1][0] == "sl") else tp[:-1] + (("sl", tp[-1][1], add(tp[-1][1], n)),), v)
    if tp and tp[-1][0] == "sl":
        np = tp[:-1] + (("sl", add(tp[-1][1], n), tp[-1][2]),)
    else:
        np = tp + (("sl", n, L),)
    st.put(root, path, mk("r", cur.a[0], tr, np))
    return [(st, ok(res))]


@model("num::saturating_sub")
def m_ssub(e, st, c, args, tys, dest, tgt):
    a, b = args
    setty(tys, a, b)
    if not nonneg_ty(tys[0]):
        return None
    return fork(st, [([le(b, a)], sub(a, b)), ([lt(a, b)], ZERO)])


@model("num::saturating_add")
def m_sadd(e, st, c, args, tys, dest, tgt):
    a, b = args
    setty(tys, a, b)
    if not nonneg_ty(tys[0]):
        return None
    hi = C(INT[tys[0]][1])
    return fork(st, [([le(add(a, b), hi)], add(a, b)), ([lt(hi, add(a, b))], hi)])


@model("num::checked_sub", "num::checked_add", "num::checked_mul")
def m_checked(e, st, c, args, tys, dest, tgt):
    a, b = args
    setty(tys, a, b)
    if not nonneg_ty(tys[0]):
        return None
    op = c["fn"].rsplit("_", 1)[-1]
    r = {"sub": sub, "add": add, "mul": mul}[op](a, b)
    good = le(ZERO, r) if op == "sub" else le(r, C(INT[tys[0]][1]))
    if r.op not in ("c", "lin"):
        tyof.setdefault(r, tys[0])
    return fork(st, [([good], some(r)), ([neg(good)], NONE)])


@model("Into::into", "From::from")
def m_into(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    src = tys[0] if tys else ""
    ret = mir.subst_ty(c.get("ret", ""), fr.sub)
    if src == ret or (src in INT and ret in INT):
        return [(st, args[0])]
    if ret.startswith("std::string::String") or ret.startswith("std::option"):
        return None
    return None


@model("TryInto::try_into", "TryFrom::try_from")
def m_tryinto(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    ret = mir.subst_ty(c.get("ret", ""), fr.sub)
    targs = [mir.subst_ty(x, fr.sub) for x in c.get("args", [])]
    to = (targs[1] if c["name"] == "try_into" else targs[0]) if len(targs) > 1 else ""
    if tys and tys[0] in INT and to in INT:
        lo, hi = INT[to]
        t = args[0]
        setty(tys, t)
        good = simp_and(le(C(lo), t), le(t, C(hi)))
        out = fork(st, [([le(C(lo), t), le(t, C(hi))], ok(t)), ([neg(le(t, C(hi))) if INT[tys[0]][0] >= 0 else neg(good)], err(mk("tryfrom", t)))])
        for s2, v in out:
            if v.a[1].endswith("::Err"):
                s2.ev.append(Ev("narrow", to, (t,), (), None, fr.ctx, fr.bb, fr.body, c, len(s2.facts), (tys[0], to)))
        return out
    import re
    m = re.match(r"^\[(\w+); (\d+)\]$", to)
    if m:
        v = st.val(args[0])
        n = C(int(m.group(2)))
        return fork(st, [([eqi(length(v), n)], ok(v)), ([neg(eqi(length(v), n))], err(mk("tryfrom", v)))])
    return None


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(e, st, c, args, tys, dest, tgt):
    a, b = st.val(args[0]), st.val(args[1])
    ty = mir.subst_ty(c.get("self", ""), st.frames[-1].sub).lstrip("&")
    if ty in INT:
        r = eqi(a, b)
    elif ty == "bool" and (a.op == "c" or b.op == "c"):
        k, x = (a, b) if a.op == "c" else (b, a)
        r = x if k.a[0] else neg(x)
    elif a is b:
        r = TRUE
    elif a.op in ("b", "s") and b.op in ("b", "s"):
        r = C(a.a[0] == b.a[0])
    else:
        r = mk("eq", *sorted((a, b), key=lambda t: t.id))
        for x, y in ((a, b), (b, a)):
            if variant(x) in ("Some", "None") and variant(y) in ("Some", "None") and variant(x) != variant(y):
                r = FALSE
            elif ty.startswith("std::option::Option<") and ty[20:-1].lstrip("&") in INT and variant(x) == "Some":
                v = st.val(field(x, "0"))
                if variant(y) == "Some":
                    r = eqi(v, st.val(field(y, "0")))
                elif ty[20:-1] in INT:
                    w = field(vfield(y, "Some"), "0")
                    tyof.setdefault(w, ty[20:-1])
                    yes = c["name"] == "eq"
                    return fork(st, [([mk("is", y, "None")], C(not yes)), ([mk("is", y, "Some"), eqi(v, w)], C(yes)),
                                     ([mk("is", y, "Some"), neg(eqi(v, w))], C(not yes))])
    return [(st, r if c["name"] == "eq" else neg(r))]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_cmp(e, st, c, args, tys, dest, tgt):
    a, b = st.val(args[0]), st.val(args[1])
    ty = mir.subst_ty(c.get("self", ""), st.frames[-1].sub).lstrip("&")
    if ty in INT:
        return [(st, {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[c["name"]])]
    return None


def rng(st, r, n):
    """(lo, hi) of a range value over a sequence of length n, or None."""
    if r.op != "a":
        return None
    nm = r.a[1].rsplit("::", 1)[-1]
    if nm == "Range":
        return field(r, "start"), field(r, "end")
    if nm == "RangeTo":
        return ZERO, field(r, "end")
    if nm == "RangeFrom":
        return field(r, "start"), n
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeInclusive":
        return field(r, "start"), add(field(r, "end"), ONE)
    if nm == "RangeToInclusive":
        return ZERO, add(field(r, "end"), ONE)
    return None


@model("RangeInclusive::new")
def m_rinc(e, st, c, args, tys, dest, tgt):
    return [(st, agg("adt", "std::ops::range::RangeInclusive", ("start", "end"), args))]


@model("RangeInclusive::contains", "Range::contains")
def m_rcontains(e, st, c, args, tys, dest, tgt):
    r = st.val(args[0])
    x = st.val(args[1])
    lh = rng(st, r, None)
    if not lh:
        return None
    return [(st, simp_and(le(lh[0], x), lt(x, lh[1])))]


def oblig(st, kind, want, ops, c):
    fr = st.frames[-1]
    proved = st.entails(want)
    st.ev.append(Ev("assert", kind, ops, (want,), None, fr.ctx, fr.bb, fr.body, c, len(st.facts), (proved, None)))
    return st.assume(want)


@model("Index::index", "IndexMut::index_mut")
def m_index(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    base = st.load(root, path)
    while base.op == "r":
        root, path = base.a[1], base.a[2]
        base = st.load(root, path)
    if base.op == "box":
        root, path = st.deref(base)
        base = st.load(root, path)
    mut = c["name"] == "index_mut"
    i = args[1]
    n = length(base)
    ity = tys[1] if len(tys) > 1 else ""
    if ity == "usize" or (i.op != "a" and not ity.startswith(("&", "std::ops"))):
        if ity and ity != "usize":
            return None
        if i.op not in ("c", "lin"):
            tyof.setdefault(i, "usize")
        if not oblig(st, "bounds", lt(i, n), (n, i), c):
            st.kind = "panic"
            return [(st, None)]
        return [(st, ref(root, path + (("i", i),), mut))]
    r = rng(st, i, n)
    if r is None:
        return None
    lo, hi = r
    setty(["usize", "usize"], lo, hi)
    if not isc(lo, 0) and not oblig(st, "slice", le(lo, hi), (lo, hi), c):
        st.kind = "panic"
        return [(st, None)]
    if hi is not n and not oblig(st, "slice", le(hi, n), (hi, n), c):
        st.kind = "panic"
        return [(st, None)]
    return [(st, slref(st, root, path, lo, hi, n, mut))]


def slref(st, root, path, lo, hi, n, mut):
    if isc(lo, 0) and hi is n:
        return ref(root, path, mut)
    if path and path[-1][0] == "sl":
        l0 = path[-1][1]
        return ref(root, path[:-1] + (("sl", add(l0, lo), add(l0, hi)),), mut)
    return ref(root, path + (("sl", lo, hi),), mut)


@model("slice::get", "slice::get_mut", "Vec::get")
def m_get(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    base = st.load(root, path)
    i = args[1]
    n = length(base)
    mut = c["fn"].endswith("mut")
    if i.op == "a":
        r = rng(st, i, n)
        if not r:
            return None
        lo, hi = r
        conds = [] if isc(lo, 0) else [le(lo, hi)]
        good = simp_and(le(lo, hi), le(hi, n))
        return fork(st, [(conds + [le(hi, n)], some(slref(st, root, path, lo, hi, n, mut))), ([neg(good) if good.op != "c" else neg(le(hi, n))], NONE)])
    setty(["usize"], i)
    return fork(st, [([lt(i, n)], some(ref(root, path + (("i", i),), mut))), ([le(n, i)], NONE)])


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def m_getu(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    n = length(st.load(root, path))
    i = args[1]
    fr = st.frames[-1]
    st.ev.append(Ev("assert", "unchecked", (n, i), (lt(i, n),), None, fr.ctx, fr.bb, fr.body, c, len(st.facts), (st.entails(lt(i, n)), None)))
    return [(st, ref(root, path + (("i", i),), c["fn"].endswith("mut")))]


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def m_first(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    n = length(st.load(root, path))
    i = ZERO if "first" in c["fn"] else sub(n, ONE)
    return fork(st, [([lt(ZERO, n)], some(ref(root, path + (("i", i),), "mut" in c["fn"].rsplit("::", 1)[-1]))), ([eq0(n)], NONE)])


@model("Box::new_uninit")
def m_newuninit(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    cell = mk("L", "heap", "%s@%d" % (fr.ctx, fr.bb))
    st.store[cell] = mk("uninit")
    return [(st, agg("adt", "std::boxed::Box", ("0",), (ref(cell, (), True),)))]


@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(e, st, c, args, tys, dest, tgt):
    r = field(st.val(args[0]), "0")
    if r.op != "r":
        return None
    v = st.load(r.a[1], r.a[2] + (("f", "value"), ("f", "value")))
    return [(st, v)]


@model("raw::from_ref", "slice::from_ref")
def m_fromref(e, st, c, args, tys, dest, tgt):
    fr = st.frames[-1]
    cell = mk("L", "one", "%s@%d" % (fr.ctx, fr.bb))
    st.store[cell] = mk("rep", st.val(args[0]), ONE)
    return [(st, ref(cell))]


@model("str::encode_utf16", "str::bytes", "str::chars")
def m_utf16(e, st, c, args, tys, dest, tgt):
    return [(st, it("vec", mk("pure", c["short"] if "short" in c else short(c["fn"]), st.val(args[0]))))]


@model("slice::split_first", "slice::split_last", "slice::split_first_mut", "slice::split_last_mut")
def m_splitend(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    n = length(st.load(root, path))
    lo = ZERO
    if path and path[-1][0] == "sl":
        lo, n = path[-1][1], sub(path[-1][2], path[-1][1])
        path = path[:-1]
    out = []
    mut_ = c["name"].endswith("_mut")
    for s, v in fork(st, [([eq0(n)], NONE), ([ge0(sub(n, ONE))], TRUE)]):
        if v is NONE:
            out.append((s, NONE))
            continue
        if "first" in c["name"]:
            i, a, b = lo, add(lo, ONE), add(lo, n)
        else:
            i, a, b = sub(add(lo, n), ONE), lo, sub(add(lo, n), ONE)
        out.append((s, some(tup(ref(root, path + (("i", i),), mut_), ref(root, path + (("sl", a, b),), mut_)))))
    return out


@model("slice::split_at", "slice::split_at_mut")
def m_splitat(e, st, c, args, tys, dest, tgt):
    root, path = st.deref(args[0])
    n = length(st.load(root, path))
    i = args[1]
    if not oblig(st, "slice", le(i, n), (i, n), c):
        st.kind = "panic"
        return [(st, None)]
    mut = c["fn"].endswith("mut")
    return [(st, tup(slref(st, root, path, ZERO, i, n, mut), slref(st, root, path, i, n, n, mut)))]


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copyfs(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    s = st.pointee(args[1])
    fr = st.frames[-1]
    old = st.load(*d)
    st.ev.append(Ev("call", "slice::copy_from_slice", tuple(args), (old, s), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    if not oblig(st, "copylen", eqi(length(old), length(s)), (length(old), length(s)), c):
        st.kind = "panic"
        return [(st, None)]
    st.put(d[0], d[1], s if old.op not in () else s)
    return [(st, UNIT)]


def arrlen(e, st, d, old):
    """length of the array at a place, when it is a small constant"""
    n = length(old)
    if n.op == "c":
        return n.a[0] if n.a[0] <= 64 else None
    ty = e.field_ty(st, d[0], d[1]) or ""
    if ty.startswith("[") and ";" in ty:
        x = ty[1:-1].rsplit(";", 1)[1].strip()
        if x.isdigit():
            n = int(x)
        else:
            c = {v for k, v in e.P.consts.items() if k.split("::")[-1] == x.split("::")[-1]}
            n = c.pop() if len(c) == 1 else None
        return n if isinstance(n, int) and n <= 64 else None
    return None


def permuted(e, st, args, order):
    """replace an array by its own elements in another order; order(n) -> source index of each"""
    d = st.deref(args[0])
    old = st.load(*d)
    n = arrlen(e, st, d, old)
    src = order(n) if n is not None else None
    if src is None:
        return None
    es = [elem(old, C(i)) for i in src]
    for i in range(n):
        if src[i] != i:
            st.put(d[0], d[1] + (("i", C(i)),), es[i])
    return [(st, UNIT)]


@model("num::leading_zeros", "num::trailing_zeros", "num::ilog2")
def m_zeros(e, st, c, args, tys, dest, tgt):
    x = st.val(args[0])
    if x.op != "c" or not tys or tys[0] not in INT:
        return None
    w = (INT[tys[0]][1] - INT[tys[0]][0]).bit_length()
    v = x.a[0] & ((1 << w) - 1)
    nm = c["fn"].split("::")[-1]
    if nm == "ilog2" and not v:
        return None
    return [(st, C(w - v.bit_length() if nm == "leading_zeros" else v.bit_length() - 1 if nm == "ilog2" else w if not v else (v & -v).bit_length() - 1))]


@model("slice::rotate_right", "slice::rotate_left", "slice::reverse")
def m_rotate(e, st, c, args, tys, dest, tgt):
    k = args[1] if len(args) > 1 else ZERO
    if k.op != "c":
        return None
    nm = c.get("fn", "").split("::")[-1] if c else ""
    order = lambda n: None if k.a[0] > n else [
        (i - k.a[0]) % n if nm == "rotate_right" else (i + k.a[0]) % n if nm == "rotate_left" else n - 1 - i for i in range(n)]
    d = st.deref(args[0])
    last = d[1][-1] if d[1] else ("",)
    if last[0] == "sl" and last[1].op == "c" and last[2].op != "c":
        # the front of a small array, up to a place known only at run time: one case for each place
        whole = st.load(d[0], d[1][:-1])
        n = arrlen(e, st, (d[0], d[1][:-1]), whole)
        lo = last[1].a[0]
        if n is None or n > 8 or not 0 <= lo <= n:
            return None

        def case(h):
            def go(s):
                src = order(h - lo)
                es = [elem(whole, C(lo + i)) for i in src]
                for i in range(h - lo):
                    if src[i] != i:
                        s.put(d[0], d[1][:-1] + (("i", C(lo + i)),), es[i])
                return UNIT
            return go
        return fork(st, [([eqi(last[2], C(h))], case(h)) for h in range(lo, n + 1) if order(h - lo) is not None])
    return permuted(e, st, args, order)


@model("slice::copy_within")
def m_copyin(e, st, c, args, tys, dest, tgt):
    r, to = args[1], st.val(args[2])
    if r.op != "a":
        return None
    d = st.deref(args[0])
    old = st.load(*d)
    n = arrlen(e, st, d, old)
    lohi = rng(st, r, length(old) if n is None else C(n))
    if lohi is None:
        return None
    lo, hi = lohi
    if n is not None and lo.op == hi.op == to.op == "c" and 0 <= lo.a[0] <= hi.a[0] <= n and to.a[0] + hi.a[0] - lo.a[0] <= n:
        return permuted(e, st, args, lambda n: [i - to.a[0] + lo.a[0] if to.a[0] <= i < to.a[0] + hi.a[0] - lo.a[0] else i for i in range(n)])
    fr = st.frames[-1]
    setty(["usize", "usize", "usize"], lo, hi, to)
    ln = length(old) if n is None else C(n)
    k = sub(hi, lo)
    st.ev.append(Ev("call", "slice::copy_within", tuple(args), (old, r, to), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    for kind, want, ops in (("slice", le(lo, hi), (lo, hi)), ("slice", le(hi, ln), (hi, ln)), ("copylen", le(add(to, k), ln), (add(to, k), ln))):
        if not oblig(st, kind, want, ops, c):
            st.kind = "panic"
            return [(st, None)]
    st.put(d[0], d[1] + (("sl", to, add(to, k)),), subslice(old, lo, hi))
    return [(st, UNIT)]


@model("slice::swap")
def m_sswap(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    a, b = d[1] + (("i", args[1]),), d[1] + (("i", args[2]),)
    n = length(st.load(*d))
    for i in (args[1], args[2]):
        if not oblig(st, "index", lt(i, n), (i, n), c):
            st.kind = "panic"
            return [(st, None)]
    x, y = st.load(d[0], a), st.load(d[0], b)
    st.put(d[0], a, y)
    st.put(d[0], b, x)
    return [(st, UNIT)]


@model("slice::fill")
def m_fill(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    old = st.load(*d)
    st.put(d[0], d[1], mk("rep", args[1], length(old)))
    return [(st, UNIT)]


@model("Vec::push", "String::push", "VecDeque::push_back")
def m_push(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    old = st.load(*d)
    fr = st.frames[-1]
    st.ev.append(Ev("call", short(c["fn"]), tuple(args), (old, args[1]), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    st.put(d[0], d[1], mk("push", old, args[1]))
    return [(st, UNIT)]


@model("Vec::extend_from_slice", "String::push_str")
def m_extend(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    old = st.load(*d)
    s = st.pointee(args[1])
    fr = st.frames[-1]
    st.ev.append(Ev("call", short(c["fn"]), tuple(args), (old, s), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    st.put(d[0], d[1], mk("cat", old, s))
    return [(st, UNIT)]


@model("Vec::resize")
def m_resize(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    old = st.load(*d)
    fr = st.frames[-1]
    st.ev.append(Ev("alloc", "Vec::resize", (args[1],), (old,), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    if old.op == "empty" or isc(length(old), 0):
        st.put(d[0], d[1], mk("rep", args[2], args[1]))
    else:
        v = mk("resized", old, args[1], args[2])
        st.put(d[0], d[1], v)
        st.assume(eqi(mk("len", v), args[1]))
    return [(st, UNIT)]


@model("Vec::clear", "String::clear")
def m_clear(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    fr = st.frames[-1]
    st.ev.append(Ev("call", short(c["fn"]), tuple(args), (st.load(*d),), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    st.put(d[0], d[1], mk("empty", "std::vec::Vec"))
    return [(st, UNIT)]


@model("Vec::truncate")
def m_trunc(e, st, c, args, tys, dest, tgt):
    d = st.deref(args[0])
    old = st.load(*d)
    n = length(old)
    out = []
    for s, v in fork(st, [([le(n, args[1])], None), ([lt(args[1], n)], None)]):
        if s.entails(lt(args[1], n)):
            s.put(d[0], d[1], subslice(old, ZERO, args[1]))
        out.append((s, UNIT))
    return out


def run_of(st, a):
    """(root, path of the buffer, offset in it) a pointer made from a reference points to"""
    if a.op != "r":
        return None
    path, off = a.a[2], ZERO
    while path and path[-1][0] in ("off", "sl"):
        off = add(off, path[-1][1])
        path = path[:-1]
    return a.a[1], path, off


@model("ptr::copy", "ptr::copy_nonoverlapping", "mut_ptr::copy_from", "mut_ptr::copy_from_nonoverlapping", "const_ptr::copy_to", "const_ptr::copy_to_nonoverlapping")
def m_ptrcopy(e, st, c, args, tys, dest, tgt):
    rev = c["name"].startswith("copy_from")
    s, d = run_of(st, args[1 if rev else 0]), run_of(st, args[0 if rev else 1])
    if s is None or d is None:
        return None
    n = st.val(args[2])
    fr = st.frames[-1]
    src, old = st.load(s[0], s[1]), st.load(d[0], d[1])
    st.ev.append(Ev("call", "ptr::copy", tuple(args if not rev else (args[1], args[0], args[2])), (src, old, n), UNIT, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    st.put(d[0], d[1] + (("sl", d[2], add(d[2], n)),), subslice(src, s[2], add(s[2], n)))
    return [(st, UNIT)]


@model("mut_ptr::add", "const_ptr::add")
def m_ptradd(e, st, c, args, tys, dest, tgt):
    a, n = args
    if a.op == "r":
        p = a.a[2]
        if p and p[-1][0] == "off":
            return [(st, mk("r", a.a[0], a.a[1], p[:-1] + (("off", add(p[-1][1], n)),)))]
        return [(st, mk("r", a.a[0], a.a[1], p + (("off", n),)))]
    return None


# ---- iterators ---------------------------------------------------------
def it(kind, *a):
    return mk("it", kind, *a)


@model("IntoIterator::into_iter", "Iterator::by_ref")
def m_intoiter(e, st, c, args, tys, dest, tgt):
    a = args[0]
    r = to_iter(st, a, tys[0] if tys else "")
    if r is None and tys and c["name"] == "into_iter" and mir.adt_of(tys[0]).split("::")[0] in ("sevenz_rust", "lzma_rust"):
        r = a           # an iterator of its own; a collection would have a body to look into
    return [(st, r)] if r is not None else None


def to_iter(st, a, ty):
    v = a
    if v.op == "it":
        return v
    if v.op == "a" and v.a[1].startswith("std::ops::range::"):
        nm = v.a[1].rsplit("::", 1)[-1]
        if nm == "Range":
            return it("range", field(v, "start"), field(v, "end"))
        if nm == "RangeInclusive":
            return it("range", field(v, "start"), add(field(v, "end"), ONE))
        if nm == "RangeFrom":
            return it("rangefrom", field(v, "start"))
    if v.op == "r":
        x = st.pointee(v)
        if x.op == "it" and (ty.startswith("&mut") or True):
            return v if ty.startswith("&mut std::slice") else v
        if mir.adt_of(ty) in ("std::vec::Vec",) or "[" in ty or not ty:
            return it("seq", v, ty.startswith("&mut"))
        return None
    if mir.adt_of(ty) == "std::vec::Vec" or ty.startswith("["):
        return it("vec", v)
    if ty.startswith(("&[", "&mut [")):
        return it("seq", v, ty.startswith("&mut"))
    return None


@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::drain")
def m_iter(e, st, c, args, tys, dest, tgt):
    if c["fn"].endswith("drain"):
        return None
    return [(st, it("seq", args[0], c["fn"].endswith("mut")))]


@model("Path::components")
def m_components(e, st, c, args, tys, dest, tgt):
    return [(st, it("vec", mk("pure", "components", st.val(args[0]))))]


@model("slice::chunks", "slice::chunks_mut")
def m_chunks(e, st, c, args, tys, dest, tgt):
    return [(st, it("chunks", args[0], args[1]))]


@model("slice::chunks_exact", "slice::chunks_exact_mut")
def m_chunks_exact(e, st, c, args, tys, dest, tgt):
    return [(st, it("chunks", args[0], args[1], "exact"))]


@model("ChunksExact::remainder", "ChunksExactMut::into_remainder")
def m_remainder(e, st, c, args, tys, dest, tgt):
    t = st.val(args[0])
    if t.op == "cur":
        t = t.a[0]
    if t.op != "it" or t.a[0] != "chunks":
        return e.opaque_call(st, "ChunksExact::remainder", c, args, tys, None)
    root, path = st.deref(t.a[1])
    path = path + (("chunkrem", t.a[2]),)
    st.assume(lt(length(st.load(root, path)), t.a[2]))
    return [(st, ref(root, path, True))]


@model("Iterator::enumerate", "Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::zip", "Iterator::map", "Iterator::filter",
       "Iterator::cloned", "Iterator::copied", "Iterator::filter_map", "Iterator::peekable", "Iterator::fuse", "Iterator::chain",
       "Iterator::step_by", "Iterator::take_while", "Iterator::skip_while", "Iterator::inspect")
def m_adapt(e, st, c, args, tys, dest, tgt):
    nm = c["name"]
    a = args[0]
    src = to_iter(st, a, tys[0]) or a
    if nm in ("cloned", "copied"):
        return [(st, it("deref", src))]
    if nm == "zip":
        o = to_iter(st, args[1], tys[1] if len(tys) > 1 else "") or args[1]
        return [(st, it("zip", src, o))]
    return [(st, it(nm, src, *args[1:]))]


def it_count(st, t):
    """Number of items, when it is a linear term."""
    if t.op == "r":
        return it_count(st, st.pointee(t))
    if t.op != "it":
        return None
    k = t.a[0]
    if k == "range":
        return sub(t.a[2], t.a[1])
    if k == "seq":
        return length(st.pointee(t.a[1]))
    if k == "vec":
        return length(t.a[1])
    if k in ("enumerate", "rev", "map", "deref", "peekable", "fuse", "inspect"):
        return it_count(st, t.a[1])
    if k == "skip":
        n = it_count(st, t.a[1])
        return None if n is None else sub(n, t.a[2])
    if k == "zip":
        a, b = it_count(st, t.a[1]), it_count(st, t.a[2])
        if a is not None and a is b:
            return a
        return a if b is None else (b if a is None else None)
    return None


def it_base_range(t):
    while t.op == "it":
        if t.a[0] == "range":
            return t
        if t.a[0] in ("map", "deref", "filter", "peekable", "fuse", "inspect", "filter_map", "take_while"):
            t = t.a[1]
            continue
        return None
    return None


def filtered(t):
    """an adapter may leave items out"""
    while t.op == "it":
        if t.a[0] in ("filter", "filter_map"):
            return True
        t = t.a[1] if t.a[0] not in ("range", "rangefrom", "seq", "vec") else NONE
    return False


def it_item(e, st, t, k, cont, dest, tgt, tag="", skip=None):
    """Item number k of iterator t -> cont(st, item) results; skip(st) when an adapter leaves the item out."""
    if t.op == "r":
        return it_item(e, st, st.pointee(t), k, cont, dest, tgt, tag, skip)
    if t.op != "it":
        return cont(st, mk("item", t, k))
    kd = t.a[0]
    if kd == "range" or kd == "rangefrom":
        v = add(t.a[1], k)
        return cont(st, v)
    if kd == "seq":
        root, path = st.deref(t.a[1])
        x = st.load(root, path)
        while x.op == "r":
            root, path = x.a[1], x.a[2]
            x = st.load(root, path)
        if path and path[-1][0] == "sl":
            return cont(st, ref(root, path[:-1] + (("i", add(path[-1][1], k)),), t.a[2]))
        return cont(st, ref(root, path + (("i", k),), t.a[2]))
    if kd == "vec":
        return cont(st, elem(t.a[1], k))
    if kd == "deref":
        return it_item(e, st, t.a[1], k, lambda s, v: cont(s, s.pointee(v)), dest, tgt, tag, skip)
    if kd == "enumerate":
        if filtered(t.a[1]):
            return it_item(e, st, t.a[1], k, lambda s, v: cont(s, tup(mk("rank", t, k), v)), dest, tgt, tag, skip)
        return it_item(e, st, t.a[1], k, lambda s, v: cont(s, tup(k, v)), dest, tgt, tag, skip)
    if kd == "rev":
        n = it_count(st, t.a[1])
        if n is None:
            return cont(st, mk("item", t, k))
        return it_item(e, st, t.a[1], sub(sub(n, ONE), k), cont, dest, tgt, tag, skip)
    if kd == "step_by" and t.a[2].op == "c":
        return it_item(e, st, t.a[1], mul(k, t.a[2]), cont, dest, tgt, tag, skip)
    if kd == "skip":
        return it_item(e, st, t.a[1], add(k, t.a[2]), cont, dest, tgt, tag, skip)
    if kd == "filter" and skip is not None:
        def tested(s, v):
            cell = mk("L", "it", v.id)
            s.store[cell] = v

            def fin(s2, r):
                s3 = s2.copy()
                res = []
                if s2.assume(r):
                    res += cont(s2, v)
                if s3.assume(neg(r)):
                    res += skip(s3)
                return res
            return e.call_value(s, t.a[2], [ref(cell)], None, dest, tgt, fin, tag + ".filter")
        return it_item(e, st, t.a[1], k, tested, dest, tgt, tag, skip)
    if kd == "filter_map" and skip is not None:
        def kept(s, r):
            res = []
            for x, v, pay in split(s, r, "Some", "None"):
                res += cont(x, field(vfield(r, "Some"), "0")) if v == "Some" else skip(x)
            return res
        return it_item(e, st, t.a[1], k, lambda s, v: e.call_value(s, t.a[2], [v], None, dest, tgt, kept, tag + ".fmap"), dest, tgt, tag, skip)
    if kd in ("take", "peekable", "fuse", "filter", "take_while", "skip_while", "inspect"):
        return it_item(e, st, t.a[1], k, cont, dest, tgt, tag, skip)
    if kd == "zip":
        return it_item(e, st, t.a[1], k, lambda s, v: it_item(e, s, t.a[2], k, lambda s2, w: cont(s2, tup(v, w)), dest, tgt, tag, skip), dest, tgt, tag, skip)
    if kd == "map":
        return it_item(e, st, t.a[1], k, lambda s, v: e.call_value(s, t.a[2], [v], None, dest, tgt, cont, tag + ".map"), dest, tgt, tag, skip)
    if kd == "chunks":
        root, path = st.deref(t.a[1])
        path = path + (("chunk", t.a[2], k),)
        n = length(st.load(root, path))
        st.assume(le(n, t.a[2]))
        st.assume(ge0(sub(n, t.a[2] if len(t.a) > 3 else ONE)))
        return cont(st, ref(root, path, True))
    return cont(st, mk("item", t, k))


def fresh_index(st, t, site):
    """(k, facts): index of the next item."""
    br = it_base_range(t)
    iv = mk("iv", t, site)
    tyof.setdefault(iv, "usize" if br is None else (tyof.get(br.a[1]) or tyof.get(br.a[2]) or "usize"))
    if br is not None:
        return sub(iv, br.a[1]), [le(br.a[1], iv), lt(iv, br.a[2])], iv
    n = it_count(st, t)
    fs = [le(ZERO, iv)]
    if n is not None:
        fs.append(lt(iv, n))
    elif t.op == "it" and t.a[0] == "step_by":
        n = it_count(st, t.a[1])
        if n is not None and t.a[2].op == "c":
            fs.append(lt(mul(iv, t.a[2]), n))
    else:
        for b in zipparts(t):
            m = it_count(st, b)
            if m is not None:
                fs.append(lt(iv, m))
    return iv, fs, iv


def zipparts(t):
    out, stt = [], [t]
    while stt:
        x = stt.pop()
        if x.op == "it" and x.a[0] == "zip":
            stt += [x.a[1], x.a[2]]
        elif x.op == "it" and x.a[0] in ("map", "deref", "enumerate", "filter", "peekable", "take", "rev", "filter_map"):
            stt.append(x.a[1])
        else:
            out.append(x)
    return out


def skip_in_loop(e, st):
    """an item left out by an adapter is an iteration of the enclosing loop that does nothing"""
    fr = st.frames[-1]
    lids = [l for l in st.loops if l[0] == fr.ctx and fr.bb in fr.body.loops().get(l[1], ())]
    if not lids:
        return None
    lid = min(lids, key=lambda l: len(fr.body.loops()[l[1]]))

    def skip(s):
        e.backedge(s, lid)
        s.kind = "loop"
        s.x["left"] = True
        s.x["loop"] = lid
        return [(s, None)]
    return skip


@model("Iterator::next")
def m_next(e, st, c, args, tys, dest, tgt):
    t = st.val(args[0])
    fr = st.frames[-1]
    site = "%s@%d" % (fr.ctx, fr.bb)
    if t.op != "it" and t.op == "a" and t.a[1].startswith("std::ops::range::"):
        t = to_iter(st, t, "")
    if t is None or t.op != "it":
        return None
    st2 = st.copy()
    k, fs, iv = fresh_index(st, t, site)
    st.ev.append(Ev("next", "item", (args[0],), (t, iv, seq_content(st, t), itersnap(st, t)), None, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
    st2.ev.append(Ev("next", "done", (args[0],), (t, iv, seq_content(st2, t), itersnap(st2, t)), None, fr.ctx, fr.bb, fr.body, c, len(st2.facts)))
    out = []
    if all(st.assume(f) for f in fs):
        out += it_item(e, st, t, k, lambda s, v: [(s, some(v))], dest, tgt, skip=skip_in_loop(e, st))
    out.append((st2, NONE))
    return out


@model("Iterator::any", "Iterator::all", "Iterator::position", "Iterator::find", "Iterator::rposition", "Iterator::for_each",
       "Iterator::find_map", "Iterator::try_for_each", "Iterator::count", "Iterator::sum", "Iterator::fold", "Iterator::collect")
def m_any(e, st, c, args, tys, dest, tgt):
    t = st.val(args[0])
    if t.op != "it":
        t = to_iter(st, t, "") or t
    nm = c["name"]
    if t.op != "it":
        return each_unknown(e, st, c, args, tys, dest, tgt) if nm in ("try_for_each", "for_each") else None
    if nm == "collect" and not str((c.get("args") or [""])[-1]).startswith("std::result::Result<std::vec::Vec<"):
        return None
    counting = nm == "count" and t.a[0] != "take_while"
    if counting and not filtered(t) and it_count(st, t) is not None:
        return [(st, it_count(st, t))]
    if nm == "count" and not counting:
        # items of the base before the first one that fails the predicate
        if t.a[0] != "take_while" or t.a[1].op != "it":
            n = it_count(st, t)
            return None if n is None else [(st, n)]
        args = [args[0], t.a[2]]
        t = t.a[1]
    fr = st.frames[-1]
    site = "%s@%d" % (fr.ctx, fr.bb)
    none = {"any": FALSE, "all": TRUE, "position": NONE, "rposition": NONE, "find": NONE, "for_each": UNIT, "find_map": NONE, "try_for_each": ok(UNIT)}.get(nm)
    acc = None
    if nm in ("sum", "fold", "collect") or counting:
        acc = mk("L", "acc", "%s@%d" % (st.frames[-1].ctx, st.frames[-1].bb))
        st.store[acc] = ZERO if nm == "sum" or counting else args[1] if nm == "fold" else mk("empty", "std::vec::Vec")
    if nm == "count" and not counting:
        none = it_count(st, t)
        if none is None:
            return None
    st2 = st.copy()
    k, fs, iv = fresh_index(st, t, site)
    lid = ("it", site)
    nx = [Ev("next", "item", (args[0],), (t, iv, seq_content(st, t), itersnap(st, t)), None, fr.ctx, fr.bb, fr.body, c, len(st.facts), nm),
          Ev("next", "done", (args[0],), (t, iv, seq_content(st2, t), itersnap(st2, t)), None, fr.ctx, fr.bb, fr.body, c, len(st2.facts), nm)]
    out = []
    # an iteration is cut like a loop body: what the closure modifies is replaced first
    h = e.havoc.get(lid, {})
    for s, x in ((st, nx[0]), (st2, nx[1])):
        entry = []
        s.ev.append(Ev("loop", str(fr.bb), (), (), None, fr.ctx, fr.bb, fr.body, None, len(s.facts), lid))
        le_ = s.ev[-1]
        for (root, path), kind in sorted(h.items(), key=lambda x: str(x[0])):
            if root.op == "L" and root not in s.store:
                continue
            old = s.load(root, path)
            lv = mk("lve", old, site, 0, root, path) if kind == "e" else mk("lv", site, 0, root, path)
            if old in tyof:
                tyof.setdefault(lv, tyof[old])
            elif root is acc and (nm == "sum" or counting):
                tyof.setdefault(lv, "u64")
            s.put(root, path, lv)
            entry.append((root, path, lv, old))
        le_.havoc = tuple(entry)
        s.ev.append(x)
    if acc is not None:
        none = st2.store[acc] if nm != "collect" else ok(st2.store[acc])
    snap = (dict(st.store), len(st.ev))

    def fin(item):
        def cont(s, r):
            res = []
            s.loops[lid] = snap
            if counting:
                s.store[acc] = add(s.store[acc], ONE)
            if nm in ("sum", "fold"):
                s.store[acc] = r if nm == "fold" else add(s.store[acc], s.val(r))
            if nm in ("for_each", "sum", "fold") or counting:
                e.backedge(s, lid)
                s.kind = "loop"
                s.x["loop"] = lid
                return [(s, None)]
            if nm == "collect":
                for x, v, pay in split(s, r):
                    if v == "Err":
                        x.loops.pop(lid, None)
                        res.append((x, err(pay)))
                        continue
                    x.store[acc] = mk("push", x.store[acc], pay)
                    e.backedge(x, lid)
                    x.kind = "loop"
                    x.x["loop"] = lid
                    res.append((x, None))
                return res
            hit = {"any": TRUE, "all": FALSE, "position": some(k), "rposition": some(k), "find": some(item), "find_map": r, "try_for_each": r, "count": k}[nm]
            if nm in ("find_map",):
                alts = split(s, r, "Some", "None")
                pairs = [(x, v == "Some") for x, v, p in alts]
            elif nm == "try_for_each":
                pairs = [(x, v == "Err") for x, v, p in split(s, r)]
            else:
                s2 = s.copy()
                stop = r if nm not in ("all", "count") else neg(r)
                pairs = []
                if s.assume(stop):
                    pairs.append((s, True))
                if s2.assume(neg(stop)):
                    pairs.append((s2, False))
            for x, stopped in pairs:
                if stopped:
                    x.loops.pop(lid, None)
                    res.append((x, hit))
                else:
                    e.backedge(x, lid)
                    x.kind = "loop"
                    x.x["loop"] = lid
                    res.append((x, None))
            return res
        return cont

    def leave_out(s):
        s.x["left"] = True
        s.loops[lid] = snap
        e.backedge(s, lid)
        s.kind = "loop"
        s.x["loop"] = lid
        return [(s, None)]

    def run(s, item):
        arg = item
        if nm == "find" or nm == "count" and not counting:
            cell = mk("L", "it", item.id)
            s.store[cell] = item
            arg = ref(cell)
        if nm in ("sum", "collect") or counting:
            return fin(item)(s, item)
        if nm == "fold":
            return e.call_value(s, args[2], [s.store[acc], arg], None, dest, tgt, fin(item), ".it")
        return e.call_value(s, args[1], [arg], None, dest, tgt, fin(item), ".it")
    if all(st.assume(f) for f in fs):
        out += it_item(e, st, t, k, run, dest, tgt, skip=leave_out)
    out.append((st2, none))
    return out


def each_unknown(e, st, c, args, tys, dest, tgt):
    """for_each / try_for_each over an iterator that is not modelled: a loop around its `next`"""
    fr = st.frames[-1]
    if tys[0].startswith("&") and args[0].op == "r":
        it = args[0]
    else:
        cell = mk("L", "each", "%s@%d" % (fr.ctx, fr.bb))
        st.store[cell] = args[0]
        it = ref(cell, (), True)
    site = "%s@%d" % (fr.ctx, fr.bb)
    lid = ("it", site)
    entry = []
    st.ev.append(Ev("loop", str(fr.bb), (), (), None, fr.ctx, fr.bb, fr.body, None, len(st.facts), lid))
    le_ = st.ev[-1]
    for (root, path), kind in sorted(e.havoc.get(lid, {}).items(), key=lambda x: str(x[0])):
        if root.op == "L" and root not in st.store:
            continue
        old = st.load(root, path)
        lv = mk("lve", old, site, 0, root, path) if kind == "e" else mk("lv", site, 0, root, path)
        if old in tyof:
            tyof.setdefault(lv, tyof[old])
        st.put(root, path, lv)
        entry.append((root, path, lv, old))
    le_.havoc = tuple(entry)
    snap = (dict(st.store), len(st.ev))
    ty = tys[0] if tys[0].startswith("&mut") else "&mut " + tys[0]
    (_, r), = e.opaque_call(st, "Iterator::next", None, [it], [ty], None)
    out = []
    for s, v, pay in split(st, r, "Some", "None"):
        if v == "None":
            out.append((s, UNIT if c["name"] == "for_each" else ok(UNIT)))
            continue

        def fin(s, r):
            s.loops[lid] = snap
            res = []
            for x, w, _ in [(s, "Ok", None)] if c["name"] == "for_each" else split(s, r):
                if w == "Err":
                    x.loops.pop(lid, None)
                    res.append((x, r))
                else:
                    e.backedge(x, lid)
                    x.kind = "loop"
                    x.x["loop"] = lid
                    res.append((x, None))
            return res
        out += e.call_value(s, args[1], [pay], None, dest, tgt, fin, ".it")
    return out


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_callfn(e, st, c, args, tys, dest, tgt):
    f = args[0]
    a = args[1]
    n = len(a.a[3]) if a.op == "a" and a.a[0] == "tuple" else 0
    g = st.val(f)
    known = (g.op == "a" and g.a[0] == "closure") or g.op == "fn"
    if not known:
        fr = st.frames[-1]
        vals = tuple(st.val(x) for x in a.a[3]) if a.op == "a" else (a,)
        ret = mk("call", "callback", (f,) + tuple(a.a[3] if a.op == "a" else (a,)), vals, "%s@%d" % (fr.ctx, fr.bb))
        st.ev.append(Ev("call", "callback", (f,) + tuple(a.a[3] if a.op == "a" else (a,)), (g,) + vals, ret, fr.ctx, fr.bb, fr.body, c, len(st.facts)))
        for i, x in enumerate(a.a[3] if a.op == "a" else ()):
            e.havoc_arg(st, x, "", ret, i + 1)
        return [(st, ret)]
    return e.call_value(st, f, list(a.a[3]) if n or a is UNIT else [a], None, dest, tgt)


@model("mem::forget", "hint::black_box")
def m_noop(e, st, c, args, tys, dest, tgt):
    return [(st, UNIT)]


@model("bool::then", "bool::then_some")
def m_then(e, st, c, args, tys, dest, tgt):
    out = []
    for s, v in fork(st, [([args[0]], TRUE), ([neg(args[0])], FALSE)]):
        if v is FALSE:
            out.append((s, NONE))
        elif c["fn"].endswith("then_some"):
            out.append((s, some(args[1])))
        else:
            out += e.call_value(s, args[1], [], None, dest, tgt, lambda s2, r: [(s2, some(r))])
    return out


@model("Seek::stream_position", "Seek::rewind")
def m_streampos(e, st, c, args, tys, dest, tgt):
    """Provided methods of Seek, for types with a local Seek impl."""
    ty = mir.subst_ty(c.get("self", ""), st.frames[-1].sub)
    key, im = e.P.method_impl("std::io::seek::Seek", ty, "seek")
    if not key or any(f.body.key == key for f in st.frames):
        return None
    if c["name"] == "rewind":
        return None
    e.push(st, key, [args[0], agg("adt", "std::io::seek::SeekFrom::Current", ("0",), (ZERO,))], {}, dest, tgt, None)
    return [(st, INVOKED)]
