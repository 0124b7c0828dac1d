"""Interned value numbers ("terms"), linear normal forms, boolean normal forms."""

_tab = {}
INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
       "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
       "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "char": (0, 0x10ffff)}


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return pp(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        _tab[k] = t
    return t


def C(v):
    return mk("c", int(v))


ZERO, ONE = C(0), C(1)
TRUE, FALSE = ONE, ZERO
UNIT = mk("a", "tuple", "", (), ())
tyof = {}          # atom -> integer type name


def isc(t, v=None):
    return t.op == "c" and (v is None or t.a[0] == v)


# ---- linear forms ----------------------------------------------------
def lin(t):
    """(const, {atom: coeff})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mklin(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def mul(a, b):
    if a.op == "c":
        return scale(b, a.a[0])
    if b.op == "c":
        return scale(a, b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


# ---- booleans ----------------------------------------------------------
def ge0(t):
    if t.op == "c":
        return C(t.a[0] >= 0)
    return mk("ge0", t)


def eq0(t):
    if t.op == "c":
        return C(t.a[0] == 0)
    c, d = lin(t)
    first = min(d.items(), key=lambda x: x[0].id)
    if first[1] < 0:
        t = scale(t, -1)
    return mk("eq0", t)


def neg(b):
    o = b.op
    if o == "c":
        return C(b.a[0] == 0)
    if o == "ge0":
        return ge0(sub(scale(b.a[0], -1), ONE))
    if o == "eq0":
        return mk("ne0", b.a[0])
    if o == "ne0":
        return mk("eq0", b.a[0])
    if o == "not":
        return b.a[0]
    return mk("not", b)


def ne0(t):
    return neg(eq0(t))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def eqi(a, b):
    return eq0(sub(a, b))


# ---- aggregates --------------------------------------------------------
def agg(kind, name, fields, ops):
    return mk("a", kind, name, tuple(fields), tuple(ops))


def ok(v):
    return agg("adt", "std::result::Result::Ok", ("0",), (v,))


def err(v):
    return agg("adt", "std::result::Result::Err", ("0",), (v,))


def some(v):
    return agg("adt", "std::option::Option::Some", ("0",), (v,))


NONE = agg("adt", "std::option::Option::None", (), ())


def tup(*v):
    return agg("tuple", "", tuple(str(i) for i in range(len(v))), v)


def variant(t):
    """Variant name of an aggregate term, or None."""
    if t.op == "a" and t.a[0] == "adt":
        return t.a[1].rsplit("::", 1)[-1]
    if t.op == "uv":
        return t.a[1]
    return None


def field(t, name):
    """Project a field of a value."""
    o = t.op
    if o == "a":
        if name in t.a[2]:
            return t.a[3][t.a[2].index(name)]
        return mk("f", t, name)
    if o == "u":
        for n, v in t.a[1]:
            if n == name:
                return v
        return field(t.a[0], name)
    if o == "ovf":          # (value, flag) of checked arithmetic
        return t.a[0] if name == "0" else t.a[1]
    return mk("f", t, name)


def vfield(t, v):
    """Downcast."""
    if t.op == "a" and variant(t) == v:
        return t
    if t.op == "uv":
        return t.a[2] if t.a[1] == v else mk("v", t.a[0], v)
    if t.op == "u":      # override of an enum by field never happens
        return mk("v", t, v)
    return mk("v", t, v)


def length(t):
    o = t.op
    if o in ("ue", "usl", "lve", "oute"):
        return length(t.a[0])
    if o == "u":
        return length(t.a[0]) if not t.a[1] else mk("len", t)
    if o == "sl":
        return sub(t.a[2], t.a[1])
    if o == "empty":
        return ZERO
    if o == "rep":
        return t.a[1]
    if o == "a" and t.a[0] == "array":
        return C(len(t.a[3]))
    if o == "cat":
        return add(length(t.a[0]), length(t.a[1]))
    if o == "push":
        return add(length(t.a[0]), ONE)
    if o in ("s", "b"):
        return C(len(t.a[0]))
    if o == "bytes":        # the width bytes of an integer, little or big endian
        return C(t.a[0])
    if o == "arr":          # opaque value of array type with known length
        return t.a[1]
    return mk("len", t)


def elem(t, i):
    o = t.op
    if o == "ue":
        d = sub(t.a[1], i)
        if isc(d, 0):
            return t.a[2]
        if d.op == "c":
            return elem(t.a[0], i)
        return mk("e", t, i)
    if o == "usl" and i.op == t.a[1].op == "c":
        if i.a[0] < t.a[1].a[0]:
            return elem(t.a[0], i)
        if t.a[2].op == "c":
            return elem(t.a[0], i) if i.a[0] >= t.a[2].a[0] else elem(t.a[3], C(i.a[0] - t.a[1].a[0]))
    if o == "sl":
        return elem(t.a[0], add(t.a[1], i))
    if o == "a" and t.a[0] == "array" and i.op == "c" and 0 <= i.a[0] < len(t.a[3]):
        return t.a[3][i.a[0]]
    if o == "rep":
        return t.a[0]
    if o == "b" and i.op == "c" and 0 <= i.a[0] < len(t.a[0]):
        return C(t.a[0][i.a[0]])
    if o == "push" and i is length(t.a[0]):
        return t.a[1]
    return mk("e", t, i)


def subslice(t, lo, hi):
    if isc(lo, 0) and hi is length(t):
        return t
    if t.op == "sl":
        return mk("sl", t.a[0], add(t.a[1], lo), add(t.a[1], hi))
    if t.op == "usl":
        if t.a[1] is lo and t.a[2] is hi:
            return t.a[3]
        if all(x.op == "c" for x in (lo, hi, t.a[1], t.a[2])) and (hi.a[0] <= t.a[1].a[0] or lo.a[0] >= t.a[2].a[0]):
            return subslice(t.a[0], lo, hi)
    if t.op == "ue" and all(x.op == "c" for x in (lo, hi, t.a[1])) and not lo.a[0] <= t.a[1].a[0] < hi.a[0]:
        return subslice(t.a[0], lo, hi)
    if t.op in ("b",) and lo.op == "c" and hi.op == "c":
        return mk("b", t.a[0][lo.a[0]:hi.a[0]])
    return mk("sl", t, lo, hi)


def project(v, path):
    for p in path:
        k = p[0]
        if k == "f":
            v = field(v, p[1])
        elif k == "v":
            v = vfield(v, p[1])
        elif k == "i":
            v = elem(v, p[1])
        elif k == "sl":
            v = subslice(v, p[1], p[2])
        elif v.op == "upd" and v.a[1] == p:
            v = v.a[2]
        else:
            v = mk("proj", v, p)
    return v


def update(v, path, val):
    if not path:
        return val
    p, rest = path[0], path[1:]
    k = p[0]
    if k == "f":
        nv = update(field(v, p[1]), rest, val)
        if v.op == "a" and p[1] in v.a[2]:
            ops = list(v.a[3])
            ops[v.a[2].index(p[1])] = nv
            return mk("a", v.a[0], v.a[1], v.a[2], tuple(ops))
        base, ov = (v.a[0], dict(v.a[1])) if v.op == "u" else (v, {})
        ov[p[1]] = nv
        if nv is field(base, p[1]):
            del ov[p[1]]
        return mk("u", base, tuple(sorted(ov.items()))) if ov else base
    if k == "v":
        cur = vfield(v, p[1])
        nv = update(cur, rest, val)
        if nv is cur:
            return v
        if v.op == "a":
            return nv
        return mk("uv", v, p[1], nv)
    if k == "i":
        cur = elem(v, p[1])
        nv = update(cur, rest, val)
        if nv is cur:
            return v
        if v.op == "sl":
            return mk("ue", v, p[1], nv)
        if v.op == "a" and v.a[0] == "array" and p[1].op == "c" and p[1].a[0] < len(v.a[3]):
            ops = list(v.a[3])
            ops[p[1].a[0]] = nv
            return mk("a", v.a[0], v.a[1], v.a[2], tuple(ops))
        if v.op == "ue" and v.a[1] is p[1]:
            return mk("ue", v.a[0], p[1], nv)
        return mk("ue", v, p[1], nv)
    if k == "sl":
        cur = subslice(v, p[1], p[2])
        nv = update(cur, rest, val)
        if nv is cur:
            return v
        if cur is v:
            return nv
        return mk("usl", v, p[1], p[2], nv)
    cur = project(v, (p,))
    nv = update(cur, rest, val)
    if nv is cur:
        return v
    return mk("upd", v.a[0] if v.op == "upd" and v.a[1] == p else v, p, nv)


def subterms(t, seen=None):
    """All terms reachable from t (including inside references' paths)."""
    seen = {} if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen[x] = 1
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def rewrite(t, f, memo=None):
    """Bottom-up rewriting; f(term) -> term or None."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            if x.op == "lin":
                c, acc = x.a[0], C(x.a[0])
                for k, v in na[1]:
                    acc = add(acc, scale(k, v))
                r = acc
            elif x.op == "f":
                r = field(na[0], na[1])
            elif x.op == "v":
                r = vfield(na[0], na[1])
            elif x.op == "e":
                r = elem(na[0], na[1])
            elif x.op == "sl":
                r = subslice(*na)
            elif x.op == "len":
                r = length(na[0])
            elif x.op == "ge0":
                r = ge0(na[0])
            elif x.op == "eq0":
                r = eq0(na[0])
            elif x.op == "ne0":
                r = neg(eq0(na[0]))
            elif x.op == "not":
                r = neg(na[0])
            elif x.op == "mul":
                r = mul(na[0], na[1])
            elif x.op == "usl":
                r = update(na[0], (("sl", na[1], na[2]),), na[3])
            elif x.op == "proj":
                r = project(na[0], (na[1],))
            else:
                r = mk(x.op, *na)
        memo[x] = r
        return r
    return go(t)


def pp(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(pp(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        return str(a[0]) if abs(a[0]) < 1000 else hex(a[0])
    if o == "s":
        return '"%s"' % a[0][:40]
    if o == "p":
        return a[0]
    if o == "d":
        return "*" + pp(a[0], d + 1)
    if o == "f":
        return "%s.%s" % (pp(a[0], d + 1), a[1])
    if o == "v":
        return "%s@%s" % (pp(a[0], d + 1), a[1])
    if o == "e":
        return "%s[%s]" % (pp(a[0], d + 1), pp(a[1], d + 1))
    if o == "sl":
        return "%s[%s..%s]" % tuple(pp(x, d + 1) for x in a)
    if o == "r":
        return "&%s" % pploc(a[1], a[2], d)
    if o == "lin":
        s = ""
        for k, v in a[1]:
            s += (" + " if v > 0 else " - ") + ("" if abs(v) == 1 else "%d*" % abs(v)) + pp(k, d + 1)
        if a[0]:
            s += (" + " if a[0] > 0 else " - ") + str(abs(a[0]))
        s = s[3:] if s.startswith(" + ") else s.strip()
        return "(" + s + ")"
    if o == "a":
        if a[0] == "tuple":
            return "(" + ", ".join(pp(x, d + 1) for x in a[3]) + ")"
        if a[0] == "array":
            return "[" + ", ".join(pp(x, d + 1) for x in a[3][:8]) + "]"
        n = a[1].split("::")[-1] if a[0] == "adt" else "closure"
        return n + ("{" + ", ".join("%s:%s" % (f, pp(x, d + 1)) for f, x in zip(a[2], a[3])) + "}" if a[3] else "")
    if o == "bytes":
        return "%s%d(%s)" % (a[1], a[0] * 8, pp(a[2], d + 1))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(pp(x, d + 1) for x in a[1]))
    if o == "pure":
        return "%s(%s)" % (a[0], ", ".join(pp(x, d + 1) for x in a[1:]))
    if o == "out":
        return "out%d{%s}" % (a[1], pp(a[0], d + 1))
    if o == "oute":
        return "filled%d{%s}" % (a[2], pp(a[1], d + 1))
    if o == "lv":
        return "lv<%s:%s>" % (a[1], pploc(a[2], a[3], d))
    if o in ("L", "D"):
        return pploc(t, (), d)
    if o == "ge0":
        return pp(a[0], d + 1) + ">=0"
    if o == "eq0":
        return pp(a[0], d + 1) + "==0"
    if o == "ne0":
        return pp(a[0], d + 1) + "!=0"
    if o == "not":
        return "!" + pp(a[0], d + 1)
    if o == "len":
        return "len(%s)" % pp(a[0], d + 1)
    if o == "iv":
        return "iv%d" % t.id
    return "%s(%s)" % (o, ", ".join(pp(x, d + 1) for x in a))


def pploc(root, path, d=0):
    if isinstance(root, T) and root.op == "L":
        s = "%s_%s" % (root.a[0].rsplit("/", 1)[-1], root.a[1])
    elif isinstance(root, T) and root.op == "D":
        s = "(*%s)" % pp(root.a[0], d + 1)
    else:
        s = pp(root, d + 1)
    for p in path:
        if p[0] == "f":
            s += "." + p[1]
        elif p[0] == "v":
            s += "@" + p[1]
        elif p[0] == "i":
            s += "[%s]" % pp(p[1], d + 1)
        elif p[0] == "sl":
            s += "[%s..%s]" % (pp(p[1], d + 1), pp(p[2], d + 1))
        else:
            s += str(p)
    return s


# ---- byte layouts -------------------------------------------------------
def layout(t):
    """A byte sequence as [(lo, hi, value term, offset in it)] with constant offsets, or None."""
    o = t.op
    if o == "empty":
        return []
    if o == "cat":
        a = layout(t.a[0])
        return None if a is None else joinl(a, t.a[1])
    if o == "push":
        a = layout(t.a[0])
        return None if a is None else joinl(a, mk("bytes", 1, "le", t.a[1]))
    if o == "usl":
        a = layout(t.a[0])
        if a is None or t.a[1].op != "c" or t.a[2].op != "c":
            return None
        return overlay(a, t.a[1].a[0], t.a[2].a[0], t.a[3])
    if o == "ue":
        a = layout(t.a[0])
        if a is None or t.a[1].op != "c":
            return None
        return overlay(a, t.a[1].a[0], t.a[1].a[0] + 1, mk("bytes", 1, "le", t.a[2]))
    if o == "sl":
        a = layout(t.a[0])
        if a is None or t.a[1].op != "c" or t.a[2].op != "c":
            return None
        lo, hi = t.a[1].a[0], t.a[2].a[0]
        return [(max(x, lo) - lo, min(y, hi) - lo, v, k + max(0, lo - x)) for x, y, v, k in a if x < hi and y > lo]
    if o == "a" and t.a[0] == "array":
        return [(i, i + 1, mk("bytes", 1, "le", x), 0) for i, x in enumerate(t.a[3])]
    n = length(t)
    if n.op != "c":
        return None
    return [(0, n.a[0], t, 0)] if n.a[0] else []


def joinl(a, v):
    b = layout(v)
    if b is None:
        return None
    n = a[-1][1] if a else 0
    return a + [(n + x, n + y, w, k) for x, y, w, k in b]


def overlay(a, lo, hi, v):
    b = layout(v)
    if b is None or (b[-1][1] if b else 0) != hi - lo:
        return None
    out = []
    for x, y, w, k in a:
        if x < lo:
            out.append((x, min(y, lo), w, k))
        if y > hi:
            out.append((max(x, hi), y, w, k + max(0, hi - x)))
    out += [(lo + x, lo + y, w, k) for x, y, w, k in b]
    return sorted(out, key=lambda s: s[0])


def lay_int(lay, lo, hi):
    """the integer term stored (little endian) at [lo, hi) of a layout, or None"""
    seg = [s for s in lay if s[0] < hi and s[1] > lo]
    if len(seg) == 1 and seg[0][:2] == (lo, hi) and seg[0][3] == 0 and seg[0][2].op == "bytes" and seg[0][2].a[0] == hi - lo and seg[0][2].a[1] == "le":
        return seg[0][2].a[2]
    bs = lay_bytes(lay, lo, hi)
    if bs is not None:
        return C(int.from_bytes(bs, "little"))
    return None


def lay_bytes(lay, lo, hi):
    """constant bytes at [lo, hi), or None"""
    out = []
    for i in range(lo, hi):
        seg = [s for s in lay if s[0] <= i < s[1]]
        if len(seg) != 1:
            return None
        x, y, v, k = seg[0]
        j = i - x + k
        if v.op == "bytes" and v.a[2].op == "c":
            b = (v.a[2].a[0] & ((1 << 8 * v.a[0]) - 1)).to_bytes(v.a[0], "little" if v.a[1] == "le" else "big")[j]
        elif v.op in ("b", "s"):
            b = v.a[0][j] if isinstance(v.a[0], bytes) else ord(v.a[0][j])
        elif v.op == "rep" and v.a[0].op == "c":
            b = v.a[0].a[0]
        else:
            e = elem(v, C(j))
            if e.op != "c":
                return None
            b = e.a[0]
        out.append(b)
    return bytes(out)
